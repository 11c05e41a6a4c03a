use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Indices far beyond any length used in a script. `H<k>` in a script, `-1-k` in the trace.
pub const HUGE: [usize; 10] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX - 63,
    1 << 63,
    1 << 32,
    (1 << 32) + 3,
    (1 << 32) + 64,
    (1 << 58) + 1,
    (1 << 48) + 7,
    usize::MAX / 2 + 5,
];

pub type Cmd = Vec<String>;

pub struct Ctx {
    lines: Vec<Cmd>,
    pos: usize,
    out: File,
    pub log: bool,
}

/// The script is at fault, not the code under test.
pub fn bad_script(what: &str) -> ! {
    eprintln!("bad script: {what}");
    std::process::exit(2)
}

fn parse<T: std::str::FromStr>(tok: &str) -> T {
    tok.parse().unwrap_or_else(|_| bad_script(tok))
}

pub fn num(tok: &str) -> usize {
    if let Some(k) = tok.strip_prefix('H') {
        HUGE[parse::<usize>(k)]
    } else {
        parse(tok)
    }
}

/// The trace encoding of an index token.
pub fn enc(tok: &str) -> i64 {
    if let Some(k) = tok.strip_prefix('H') {
        -1 - parse::<i64>(k)
    } else {
        parse(tok)
    }
}

/// A result value, encoded. Values outside of the range TLC can represent are mapped to a
/// distinguished negative number that no specified result equals.
pub fn val(v: usize) -> i64 {
    if v < (1 << 31) {
        v as i64
    } else {
        -1_000_000 - (v % 1_000_000) as i64
    }
}

pub fn list<T: std::fmt::Display>(it: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, v) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "{v}").unwrap();
    }
    s.push(']');
    s
}

pub fn limbs(v: usize) -> String {
    list([v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48])
}

pub enum Res {
    Ok,
    Panic,
    Bool(bool),
    Int(usize),
    /// A list of small integers
    Ints(Vec<i64>),
    /// Anything else, as tag and JSON text
    Raw(&'static str, String),
}

impl Ctx {
    pub fn new(script: &str, out: &str) -> Self {
        let text = std::fs::read_to_string(script).expect("script");
        let lines = text
            .lines()
            .map(|l| l.split_whitespace().map(str::to_string).collect())
            .collect();
        std::panic::set_hook(Box::new(|_| {}));
        crate::mem::setup();
        Self { lines, pos: 0, out: File::create(out).expect("trace"), log: true }
    }

    pub fn next(&mut self) -> Option<Cmd> {
        let l = self.lines.get(self.pos)?.clone();
        self.pos += 1;
        Some(l)
    }

    /// The command is read again.
    pub fn back(&mut self) {
        self.pos -= 1;
    }

    /// Skips to after the `close` that matches an opening command which did not open anything.
    pub fn skip_closed(&mut self) {
        let mut depth = 1;
        while depth > 0 {
            match self.next() {
                None => return,
                Some(c) if c[0] == "close" => depth -= 1,
                Some(c) if opens(&c[0]) => depth += 1,
                _ => {}
            }
        }
    }

    /// Puts the call on record.
    pub fn begin(&mut self, op: &str, args: &[i64], rt: &str) {
        self.begin_x(op, args, rt, "")
    }

    /// Puts the call on record with additional JSON fields (each followed by a comma).
    pub fn begin_x(&mut self, op: &str, args: &[i64], rt: &str, extra: &str) {
        if !self.log {
            return;
        }
        let s = format!(
            "{{\"ln\":{},\"op\":\"{op}\",\"a\":{},\"rt\":\"{rt}\",{extra}\"res\":",
            self.pos,
            list(args)
        );
        self.out.write_all(s.as_bytes()).unwrap();
    }

    pub fn end(&mut self, res: &Res) {
        if !self.log {
            return;
        }
        let s = match res {
            Res::Ok => "[\"ok\",0]}\n".to_string(),
            Res::Panic => "[\"panic\",0]}\n".to_string(),
            Res::Bool(b) => format!("[\"bool\",{}]}}\n", *b as u8),
            Res::Int(v) => format!("[\"int\",{}]}}\n", val(*v)),
            Res::Ints(v) => format!("[\"list\",{}]}}\n", list(v)),
            Res::Raw(t, v) => format!("[\"{t}\",{v}]}}\n"),
        };
        self.out.write_all(s.as_bytes()).unwrap();
    }

    /// Runs a call that yields a loggable result.
    pub fn call(&mut self, f: impl FnOnce() -> Res) {
        let r = catch(f).unwrap_or(Res::Panic);
        self.end(&r)
    }

    /// Runs a call that yields an object on success.
    pub fn make<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Some(v) => {
                self.end(&Res::Ok);
                Some(v)
            }
            None => {
                self.end(&Res::Panic);
                None
            }
        }
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Commands that open a nested scope ended by `close`.
pub fn opens(op: &str) -> bool {
    matches!(op, "open" | "slice" | "split" | "view" | "iter" | "iiter" | "rbuild" | "vec")
}
