//! Vectors whose positions do not fit into 32 bits.

use succinct_neo::bit_vec::slice::BitSlice;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use succinct_neo::bit_vec::{BitAccess, BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

use driver::ctx::{bad_script, list, num, Cmd, Ctx, Res};
use driver::long::{low_bits, pair, scan, vector};

/// A way to get from a window to a smaller one.
#[derive(Clone, Copy)]
enum Step {
    Slice(usize, usize),
    Unchecked(usize, usize),
    Left(usize),
    Right(usize),
}

use Step::*;

/// Steps separated by commas, or `-`.
fn chain(tok: &str) -> Vec<Step> {
    if tok == "-" {
        return vec![];
    }
    tok.split(',')
        .map(|t| {
            let two = |t: &str| t.split_once(':').map(|(a, b)| (num(a), num(b))).unwrap_or_else(|| bad_script(t));
            match &t[..1] {
                "L" => Left(num(&t[1..])),
                "R" => Right(num(&t[1..])),
                "U" => {
                    let (a, b) = two(&t[1..]);
                    Unchecked(a, b)
                }
                _ => {
                    let (a, b) = two(t);
                    Slice(a, b)
                }
            }
        })
        .collect()
}

fn chain_json(c: &[Step]) -> String {
    list(c.iter().map(|s| match *s {
        Slice(a, b) | Unchecked(a, b) => format!("{{\"how\":\"range\",\"from\":{},\"to\":{}}}", pair(a), pair(b)),
        Left(k) => format!("{{\"how\":\"left\",\"from\":[0,0],\"to\":{}}}", pair(k)),
        Right(k) => format!("{{\"how\":\"right\",\"from\":{},\"to\":[0,0]}}", pair(k)),
    }))
}

macro_rules! step {
    ($v:expr, $s:expr, |$w:ident| $e:expr) => {
        match $s {
            Slice(a, b) => {
                let $w = $v.slice(a..b);
                $e
            }
            Unchecked(a, b) => {
                let $w = unsafe { $v.slice_unchecked(a..b) };
                $e
            }
            Left(k) => {
                let $w = $v.split_at(k).0;
                $e
            }
            Right(k) => {
                let $w = $v.split_at(k).1;
                $e
            }
        }
    };
}
macro_rules! step_mut {
    ($v:expr, $s:expr, |$w:ident| $e:expr) => {
        match $s {
            Slice(a, b) => {
                let mut $w = $v.slice_mut(a..b);
                $e
            }
            Unchecked(a, b) => {
                let mut $w = unsafe { $v.slice_unchecked_mut(a..b) };
                $e
            }
            Left(k) => {
                let mut $w = $v.split_at_mut(k).0;
                $e
            }
            Right(k) => {
                let mut $w = $v.split_at_mut(k).1;
                $e
            }
        }
    };
}

/// Gives the expression the window that the chain leads to.
macro_rules! at {
    ($bv:expr, $ch:expr, |$w:ident| $e:expr) => {
        match $ch[..] {
            [] => {
                let $w = $bv.slice(..);
                $e
            }
            [s] => step!($bv, s, |$w| $e),
            [s, t] => step!($bv, s, |v| step!(v, t, |$w| $e)),
            _ => bad_script("chain"),
        }
    };
}
macro_rules! at_mut {
    ($bv:expr, $ch:expr, |$w:ident| $e:expr) => {
        match $ch[..] {
            [] => {
                let mut $w = $bv.slice_mut(..);
                $e
            }
            [s] => step_mut!($bv, s, |$w| $e),
            [s, t] => step_mut!($bv, s, |v| step_mut!(v, t, |$w| $e)),
            _ => bad_script("chain"),
        }
    };
}

fn bits(it: impl Iterator<Item = bool>) -> Res {
    Res::Ints(it.map(|b| b as i64).collect())
}

/// Looks at some places before and after each of `n` changes, which are undone again. Gives the
/// number of changes, and those at which the place itself did not look as it should, or anything else
/// looked different, along with the places that did.
fn each<T: PartialEq, V>(v: &mut V, n: usize, get: impl Fn(&V, usize) -> T, other: impl Fn(&T) -> T, put: impl Fn(&mut V, usize, &T)) -> Res {
    let mut odd = Vec::new();
    // allocated once, since allocating may be slow here
    let (mut at, mut before, mut after, mut again) = (Vec::with_capacity(32), Vec::with_capacity(32), Vec::with_capacity(32), Vec::with_capacity(32));
    for i in 0..n {
        at.clear();
        at.extend([0, n - 1, n / 2, i]);
        for d in [1, 2, 63, 64, 65, 512, 4096, 1 << 16] {
            at.extend(i.checked_sub(d));
            at.extend((d < n - i).then_some(i + d));
        }
        at.sort_unstable();
        at.dedup();
        let look = |v: &V, to: &mut Vec<T>| {
            to.clear();
            to.extend(at.iter().map(|&p| get(v, p)));
        };
        let k = at.binary_search(&i).unwrap_or_else(|_| bad_script("place"));
        look(v, &mut before);
        let new = other(&before[k]);
        put(v, i, &new);
        look(v, &mut after);
        put(v, i, &before[k]);
        look(v, &mut again);
        let moved = |k: &usize| before[*k] != after[*k];
        if after[k] != new || (0..at.len()).filter(moved).count() != 1 || before != again {
            let ps = (0..at.len()).filter(moved).map(|k| pair(at[k]));
            if odd.len() < 100 {
                odd.push(list([pair(i), list(ps)]));
            }
        }
    }
    Res::Raw("each", list([pair(n), list(odd)]))
}

/// Tries `count` places from the end of a window on, and some that are far behind it, with everything
/// that takes a position or a bound. Gives the places at which something was not rejected.
fn rejects<B: BitGet + BitModify>(w: &mut BitSlice<B>, count: usize, own: &mut dyn FnMut(&mut BitSlice<B>, usize) -> bool) -> Res {
    let n = w.len();
    let mut taken = Vec::new();
    let far = (0..64).map(|k| 1usize << k).flat_map(|p| [p - 1, p, p.wrapping_add(n), p.wrapping_neg(), n.wrapping_sub(p)]);
    for p in (n..n + count).chain(far.filter(|&p| p >= n)) {
        fn no<T>(f: impl FnOnce() -> T) -> bool {
            catch_unwind(AssertUnwindSafe(|| drop(f()))).is_err()
        }
        let mut ok = own(w, p)
            && no(|| w.get_bit(p))
            && no(|| w.get(p))
            && no(|| w.set_bit(p, true))
            && no(|| w.set(p, false))
            && no(|| w.flip_bit(p))
            && no(|| w.flip(p))
            && no(|| w.split_at(p).0.len())
            && no(|| w.split_at_mut(p).1.len())
            && no(|| w.slice(..=p).len())
            && no(|| w.slice_mut(..=p).len());
        if p > n {
            ok = ok && no(|| w.slice(..p).len()) && no(|| w.slice_mut(n / 2..p).len()) && no(|| w.slice(p..).len()) && no(|| w.slice_mut(p..).len());
            ok = ok && no(|| w.slice(p..p).len()) && no(|| w.slice_mut(p..p).len()) && no(|| w.slice(p..n).len()) && no(|| w.slice_mut(p..0).len());
        }
        if !ok && taken.len() < 100 {
            taken.push(pair(p));
        }
    }
    // reversed bounds
    for k in 1..n.min(count) {
        let (a, b) = (n - k, (n - k) / 2);
        if a > b && (catch_unwind(AssertUnwindSafe(|| w.slice(a..b).len())).is_ok() || catch_unwind(AssertUnwindSafe(|| w.slice_mut(a..b).len())).is_ok() || catch_unwind(AssertUnwindSafe(|| w.slice(a..a - 1).len())).is_ok())
            && taken.len() < 100
        {
            taken.push(pair(a));
        }
    }
    Res::Raw("each", list([pair(count), list(taken)]))
}

/// Each bit, seen through a wrapper.
fn each_bit<V: BitGet + BitModify>(v: &mut V, n: usize, how: &str, u: bool) -> Res {
    let set = |v: &mut V, i: usize, b: bool| if u { unsafe { v.set_bit_unchecked(i, b) } } else { v.set_bit(i, b) };
    let flip = |v: &mut V, i: usize| if u { unsafe { v.flip_bit_unchecked(i) } } else { v.flip_bit(i) };
    let get = |v: &V, i: usize| if u { unsafe { v.get_bit_unchecked(i) } } else { v.get_bit(i) };
    each(
        v,
        n,
        get,
        |b| !b,
        |v, i, b| if how == "flip" { flip(v, i) } else { set(v, i, *b) },
    )
}

fn each_wrapped<W: BitGet + BitModify>(mut w: W, n: usize, how: &str, route: &str) -> Res {
    let (rt, u) = match route.strip_suffix("_u") {
        Some(r) => (r, true),
        None => (route, route == "unchecked"),
    };
    match rt {
        "mut" => each_bit(&mut &mut w, n, how, u),
        "mutmut" => each_bit(&mut &mut &mut w, n, how, u),
        "box" => each_bit(&mut Box::new(w), n, how, u),
        "boxmut" => each_bit(&mut Box::new(&mut w), n, how, u),
        "mutbox" => each_bit(&mut &mut Box::new(w), n, how, u),
        "dyn" => each_bit(&mut (&mut w as &mut dyn BitAccess), n, how, u),
        "boxdyn" => each_bit(&mut (Box::new(&mut w) as Box<dyn BitAccess + '_>), n, how, u),
        "view" => each_bit(&mut BitSlice::new(&mut w, 0, n), n, how, u),
        "viewbox" => each_bit(&mut BitSlice::new(Box::new(w), 0, n), n, how, u),
        "viewdyn" => each_bit(&mut BitSlice::new(&mut w as &mut dyn BitAccess, 0, n), n, how, u),
        _ => each_bit(&mut w, n, how, u),
    }
}

/// All bits, seen through a wrapper.
fn peek_wrapped<W: BitGet>(w: W, n: usize, route: &str, odd: impl Fn(usize, bool) -> Option<String>) -> Res {
    fn go<V: BitGet>(v: V, n: usize, u: bool, odd: impl Fn(usize, bool) -> Option<String>) -> Res {
        scan((0..n).map(|i| if u { unsafe { v.get_bit_unchecked(i) } } else { v.get_bit(i) }), 0, "", "", odd)
    }
    let (rt, u) = match route.strip_suffix("_u") {
        Some(r) => (r, true),
        None => (route, route == "unchecked"),
    };
    match rt {
        "ref" => go(&w, n, u, odd),
        "refref" => go(&&w, n, u, odd),
        "box" => go(Box::new(w), n, u, odd),
        "rc" => go(Rc::new(w), n, u, odd),
        // shared by many
        "rcs" => {
            let first = Rc::new(w);
            let all = vec![first.clone(); 9];
            let weak = Rc::downgrade(&first);
            let res = go(first, n, u, odd);
            drop((all, weak));
            res
        }
        "rcbox" => go(Rc::new(Box::new(w)), n, u, odd),
        "boxrc" => go(Box::new(Rc::new(w)), n, u, odd),
        "dyn" => go(&w as &dyn BitGet, n, u, odd),
        "boxdyn" => go(Box::new(&w) as Box<dyn BitGet + '_>, n, u, odd),
        "view" => go(BitSlice::new(&w, 0, n), n, u, odd),
        "viewrc" => go(BitSlice::new(Rc::new(w), 0, n), n, u, odd),
        "viewbox" => go(BitSlice::new(Box::new(w), 0, n), n, u, odd),
        _ => go(w, n, u, odd),
    }
}

enum Index<'a> {
    Linear(FlatPopcount<'a, LinearSearch>),
    Binary(FlatPopcount<'a, BinarySearch>),
}

fn asks(ctx: &mut Ctx, idx: Index) {
    while let Some(c) = ctx.next() {
        if !matches!(c[0].as_str(), "hrank" | "hselect") {
            ctx.back();
            return;
        }
        let v = num(&c[1]);
        match c[0].as_str() {
            "hrank" => {
                let b = c[2] == "1";
                ctx.begin_x("hrank", &[], &c[3], &format!("\"n\":{},\"b\":{},", pair(v), b as u8));
                macro_rules! go {
                    ($i:expr) => {
                        match (c[3].as_str(), b) {
                            ("dyn", _) => $i.rank_dyn(v, b),
                            (_, true) => $i.rank::<true>(v),
                            _ => $i.rank::<false>(v),
                        }
                    };
                }
                ctx.call(|| {
                    Res::Raw("pair", pair(match &idx {
                        Index::Linear(i) => go!(i),
                        Index::Binary(i) => go!(i),
                    }))
                });
            }
            "hselect" => {
                ctx.begin_x("hselect", &[], "", &format!("\"n\":{},", pair(v)));
                ctx.call(|| {
                    let r = match &idx {
                        Index::Linear(i) => i.select(v),
                        Index::Binary(i) => i.select(v),
                    };
                    match r {
                        Some(p) => Res::Raw("pair", pair(p)),
                        None => Res::Raw("none", "0".to_string()),
                    }
                });
            }
            _ => bad_script(&c[0]),
        }
    }
}

fn bit_cmd(ctx: &mut Ctx, bv: &mut BitVec, c: &Cmd) {
    match c[0].as_str() {
        "hget" => {
            let (ch, i) = (chain(&c[1]), num(&c[2]));
            ctx.begin_x("hget", &[], &c[3], &format!("\"chain\":{},\"n\":{},", chain_json(&ch), pair(i)));
            ctx.call(|| {
                Res::Bool(match c[3].as_str() {
                    "bv" => bv.get_bit(i),
                    "unchecked" => at!(bv, ch, |w| unsafe { w.get_bit_unchecked(i) }),
                    _ => at!(bv, ch, |w| w.get_bit(i)),
                })
            });
        }
        "hset" => {
            let (ch, i, v) = (chain(&c[1]), num(&c[2]), c[3] == "1");
            ctx.begin_x("hset", &[], &c[4], &format!("\"chain\":{},\"n\":{},\"b\":{},", chain_json(&ch), pair(i), v as u8));
            ctx.call(|| {
                match c[4].as_str() {
                    "bv" => BitModify::set_bit(bv, i, v),
                    "unchecked" => at_mut!(bv, ch, |w| unsafe { w.set_bit_unchecked(i, v) }),
                    _ => at_mut!(bv, ch, |w| w.set_bit(i, v)),
                }
                Res::Ok
            });
        }
        "hflip" => {
            let (ch, i) = (chain(&c[1]), num(&c[2]));
            ctx.begin_x("hflip", &[], &c[3], &format!("\"chain\":{},\"n\":{},", chain_json(&ch), pair(i)));
            ctx.call(|| {
                match c[3].as_str() {
                    "bv" => BitModify::flip_bit(bv, i),
                    "unchecked" => at_mut!(bv, ch, |w| unsafe { w.flip_bit_unchecked(i) }),
                    _ => at_mut!(bv, ch, |w| w.flip_bit(i)),
                }
                Res::Ok
            });
        }
        // every bit of a window is flipped and flipped back, or set to what it is not and set back
        "heach" => {
            let (ch, how, rt) = (chain(&c[1]), c[2].as_str(), c[3].as_str());
            ctx.begin_x("heach", &[], rt, &format!("\"chain\":{},", chain_json(&ch)));
            ctx.call(|| match rt {
                "bv" => {
                    let n = bv.len();
                    each(
                        bv,
                        n,
                        |v, i| v.get_bit(i),
                        |b| !b,
                        |v, i, b| if how == "flip" { BitModify::flip_bit(v, i) } else { BitModify::set_bit(v, i, *b) },
                    )
                }
                // the words themselves
                "words" => {
                    let mut words = bv.raw().to_vec().into_boxed_slice();
                    each_wrapped(&mut words[..], bv.len(), how, "")
                }
                "boxwords" => {
                    let words = bv.raw().to_vec().into_boxed_slice();
                    each_wrapped(words, bv.len(), how, "mut")
                }
                _ => at_mut!(bv, ch, |w| {
                    let n = w.len();
                    each_wrapped(w, n, how, rt)
                }),
            });
        }
        // a bit each of the windows with the same start, or with the same length, or of the two halves
        // of what is right of every position
        "hwin" | "hslide" | "hparts" => {
            let (k, how, rt) = (num(&c[1]), c[2].as_str(), c[3].as_str());
            let (rt, u) = match rt.strip_suffix("_u") {
                Some(r) => (r, true),
                None => (rt, false),
            };
            ctx.begin_x(&c[0], &[], &c[3], &format!("\"k\":{k},\"how\":\"{how}\","));
            let n = bv.len();
            let saved = bv.raw().to_vec();
            let window = |a: usize, b: usize| match rt {
                "unchecked" => vec![Unchecked(a, b)],
                "nested" => vec![Slice(a, n), Slice(0, b - a)],
                "mixed" => vec![Unchecked(a, n), Unchecked(0, b - a)],
                "split" if b < n => vec![Right(a), Left(b - a)],
                "split" => vec![Right(a)],
                _ => vec![Slice(a, b)],
            };
            macro_rules! go {
                ($w:ident, $i:expr) => {{
                    let was = if u { unsafe { $w.get_bit_unchecked($i) } } else { $w.get_bit($i) };
                    match (how, u) {
                        ("flip", true) => unsafe { $w.flip_bit_unchecked($i) },
                        ("flip", _) => $w.flip_bit($i),
                        (_, true) => unsafe { $w.set_bit_unchecked($i, !was) },
                        _ => $w.set_bit($i, !was),
                    }
                    was
                }};
            }
            let back = |bv: &mut BitVec| {
                let other = (0..saved.len()).filter(|&w| bv.raw()[w] != saved[w]);
                let places: Vec<usize> = other.flat_map(|w| w * 64..w * 64 + 64).filter(|p| (bv.raw()[p / 64] ^ saved[p / 64]) >> (p % 64) & 1 == 1).collect();
                places.iter().filter(|&&p| p < n).for_each(|&p| bv.flip_bit(p));
                if bv.raw() != saved {
                    let inner: &mut BitSlice<Box<[usize]>> = bv.as_mut();
                    *inner = BitSlice::new(saved.clone().into_boxed_slice(), 0, n);
                }
                list(places)
            };
            ctx.call(|| {
                let mut out = Vec::new();
                let mut one = |bv: &mut BitVec, a: usize, b: usize, i: usize| {
                    let ch = window(a, b);
                    fn no<T>(f: impl FnOnce() -> T) -> usize {
                        catch_unwind(AssertUnwindSafe(|| drop(f()))).is_ok() as usize
                    }
                    let m = b - a;
                    match how {
                        // what is behind the end is rejected
                        "bad" => {
                            let (len, taken) = at_mut!(bv, ch, |w| {
                                let mut taken = no(|| w.get_bit(m)) + no(|| w.set_bit(m, true)) + no(|| w.flip_bit(m)) + no(|| w.set_bit(m, false));
                                taken += no(|| w.split_at(m).0.len()) + no(|| w.split_at_mut(m).0.len()) + no(|| w.slice(..m + 1).len());
                                taken += no(|| w.slice(m + 1..).len()) + no(|| w.slice_mut(..=m).len()) + no(|| w.slice(m..m - 1).len());
                                (w.len(), taken)
                            });
                            out.push(format!("[{a},{len},0,{taken},{}]", back(bv)));
                            return;
                        }
                        // how long iterators are, how many bits differ from the background, and where
                        "iter" => {
                            let bg = c[4] == "1";
                            let (len, left, it) = at!(bv, ch, |w| {
                                let find = |it: &mut dyn Iterator<Item = bool>| it.enumerate().filter(|x| x.1 != bg).fold((0, 0), |s, x| (s.0 + 1, s.1 + x.0 + 1));
                                let left = if a % 2 == 0 { w.iter().len() } else { w.iter().size_hint().1.unwrap_or(0) };
                                let len = w.len();
                                (len, left, if a % 2 == 0 { find(&mut w.iter()) } else { find(&mut w.into_iter()) })
                            });
                            out.push(format!("[{a},{len},{left},{},[{}]]", it.0, it.1));
                            return;
                        }
                        // compared with the window at the same distance from the end
                        "eq" => {
                            let z = n - m - a;
                            let bv = &*bv;
                            let (eq, ne, len) = at!(bv, ch, |w| {
                                let o = bv.slice(z..z + m);
                                (w == o, w != o, w.len())
                            });
                            out.push(format!("[{a},{len},{},{},[]]", ne as u8, eq as u8));
                            return;
                        }
                        _ => (),
                    }
                    let (was, len) = if how == "get" {
                        at!(bv, ch, |w| (if u { unsafe { w.get_bit_unchecked(i) } } else { w.get_bit(i) }, w.len()))
                    } else {
                        at_mut!(bv, ch, |w| (go!(w, i), w.len()))
                    };
                    out.push(format!("[{a},{len},{i},{},{}]", was as u8, back(bv)));
                };
                match c[0].as_str() {
                    "hwin" => {
                        for b in k + 1..=n {
                            let m = b - k;
                            let mut at = vec![0, m / 2, m - 1];
                            at.dedup();
                            at.into_iter().for_each(|i| one(bv, k, b, i));
                        }
                    }
                    "hslide" => {
                        for a in 0..=n - k {
                            one(bv, a, a + k, if a % 2 == 0 { 0 } else { k - 1 });
                        }
                    }
                    _ => {
                        for a in 0..n - k {
                            let mut at = if rt == "unchecked" { unsafe { bv.slice_unchecked_mut(a..n) } } else { bv.slice_mut(a..) };
                            let (mut l, mut r) = at.split_at_mut(k);
                            let (i, j) = (l.len(), r.len());
                            let x = go!(l, k - 1);
                            let y = go!(r, 0);
                            out.push(format!("[{a},{i},{j},{},{},{}]", x as u8, y as u8, back(bv)));
                        }
                    }
                }
                Res::Raw("wins", list(out))
            });
        }
        // what must be rejected at the end of a window
        "hreject" => {
            let (ch, k) = (chain(&c[1]), num(&c[2]));
            ctx.begin_x("hreject", &[], &c[3], &format!("\"chain\":{},\"n\":{},", chain_json(&ch), pair(k)));
            ctx.call(|| match c[3].as_str() {
                "bv" => {
                    let mut other = bv.clone();
                    let mut own = |_: &mut BitSlice<Box<[usize]>>, p: usize| {
                        catch_unwind(AssertUnwindSafe(|| BitModify::set_bit(&mut other, p, true))).is_err()
                            && catch_unwind(AssertUnwindSafe(|| BitModify::flip_bit(&mut other, p))).is_err()
                    };
                    rejects(&mut **bv, k, &mut own)
                }
                _ => at_mut!(bv, ch, |w| rejects(&mut w, k, &mut |_, _| true)),
            });
        }
        // every bit of a window is flipped, or set to the same value, one after the other
        "hall" => {
            let (ch, how, step, rt) = (chain(&c[1]), c[2].as_str(), num(&c[3]), c[4].as_str());
            ctx.begin_x("hall", &[], rt, &format!("\"chain\":{},\"how\":\"{how}\",", chain_json(&ch)));
            macro_rules! go {
                ($w:expr, $u:expr) => {{
                    let n = $w.len();
                    let mut i = 0;
                    for _ in 0..n {
                        match (how, $u) {
                            ("flip", true) => unsafe { $w.flip_bit_unchecked(i) },
                            ("flip", _) => $w.flip_bit(i),
                            (_, true) => unsafe { $w.set_bit_unchecked(i, how == "1") },
                            _ => $w.set_bit(i, how == "1"),
                        }
                        i = (i + step) % n;
                    }
                }};
            }
            ctx.call(|| {
                match rt {
                    "bv" => go!(bv, false),
                    "unchecked" => at_mut!(bv, ch, |w| go!(w, true)),
                    _ => at_mut!(bv, ch, |w| go!(w, false)),
                }
                Res::Ok
            });
        }
        // every bit of a window is asked for
        "hpeek" => {
            let (ch, b) = (chain(&c[1]), c[3] == "1");
            ctx.begin_x("hpeek", &[], &c[2], &format!("\"chain\":{},\"b\":{},", chain_json(&ch), b as u8));
            let odd = |k, v| (v != b).then(|| pair(k));
            ctx.call(|| match c[2].as_str() {
                // word slices, which have no fixed size, behind pointers
                "refwords" => peek_wrapped(bv.raw(), bv.len(), "", odd),
                "refrefwords" => peek_wrapped(&bv.raw(), bv.len(), "ref", odd),
                "mutwords" => peek_wrapped(&mut bv.raw().to_vec()[..], bv.len(), "", odd),
                "boxwords" => peek_wrapped(bv.raw().to_vec().into_boxed_slice(), bv.len(), "unchecked", odd),
                "dynwords" => peek_wrapped(Box::new(bv.raw()) as Box<dyn BitGet + '_>, bv.len(), "", odd),
                "rcwords" => peek_wrapped(Rc::new(bv.raw()), bv.len(), "ref", odd),
                "viewwords" => peek_wrapped(BitSlice::new(bv.raw(), 0, bv.len()), bv.len(), "", odd),
                "bv" => scan((0..bv.len()).map(|i| bv.get_bit(i)), 0, "", "", odd),
                // from the words
                "raw" => scan((0..bv.len()).map(|i| bv.raw()[i / 64] >> (i % 64) & 1 == 1), 0, "", "", odd),
                "words" => scan((0..bv.len()).map(|i| AsRef::<[usize]>::as_ref(bv)[i / 64] >> (i % 64) & 1 == 1), 0, "", "", odd),
                "get" => at!(bv, ch, |w| scan((0..w.len()).map(|i| w.get(i)), 0, "", "", odd)),
                rt => at!(bv, ch, |w| {
                    let n = w.len();
                    peek_wrapped(w, n, rt, odd)
                }),
            });
        }
        "hlen" => {
            let ch = chain(&c[1]);
            ctx.begin_x("hlen", &[], &c[2], &format!("\"chain\":{},", chain_json(&ch)));
            ctx.call(|| {
                Res::Raw("pair", pair(match c[2].as_str() {
                    "bv" => bv.len(),
                    "iter" => at!(bv, ch, |w| w.iter().len()),
                    "own" => at!(bv, ch, |w| w.into_iter().len()),
                    "hint" => at!(bv, ch, |w| w.iter().size_hint().1.unwrap_or(usize::MAX)),
                    "count" => at!(bv, ch, |w| w.iter().count()),
                    _ => at!(bv, ch, |w| w.len()),
                }))
            });
        }
        "hbits" => {
            let ch = chain(&c[1]);
            ctx.begin_x("hbits", &[], &c[2], &format!("\"chain\":{},", chain_json(&ch)));
            ctx.call(|| match c[2].as_str() {
                "own" => at!(bv, ch, |w| bits(w.into_iter())),
                _ => at!(bv, ch, |w| bits(w.iter())),
            });
        }
        "hscan" => {
            let (ch, skip, b) = (chain(&c[1]), num(&c[2]), c[5] == "1");
            ctx.begin_x("hscan", &[], &c[4], &format!("\"chain\":{},\"n\":{},\"b\":{},", chain_json(&ch), pair(skip), b as u8));
            let odd = |k, v| (v != b).then(|| pair(k));
            ctx.call(|| match c[4].strip_prefix("own") {
                Some(rt) => at!(bv, ch, |w| scan(w.into_iter(), skip, &c[3], rt, odd)),
                _ => at!(bv, ch, |w| scan(w.iter(), skip, &c[3], &c[4], odd)),
            });
        }
        "hlast" => {
            let (ch, skip) = (chain(&c[1]), num(&c[2]));
            ctx.begin_x("hlast", &[], "", &format!("\"chain\":{},\"n\":{},", chain_json(&ch), pair(skip)));
            ctx.call(|| {
                at!(bv, ch, |w| {
                    let mut it = w.iter();
                    if skip > 0 {
                        it.nth(skip - 1);
                    }
                    match it.last() {
                        Some(b) => Res::Bool(b),
                        None => Res::Raw("none", "0".to_string()),
                    }
                })
            });
        }
        "hcount" => {
            let (ch, skip) = (chain(&c[1]), num(&c[2]));
            ctx.begin_x("hcount", &[], "", &format!("\"chain\":{},\"n\":{},", chain_json(&ch), pair(skip)));
            ctx.call(|| {
                at!(bv, ch, |w| {
                    let mut it = w.iter();
                    if skip > 0 {
                        it.nth(skip - 1);
                    }
                    Res::Raw("pair", pair(it.count()))
                })
            });
        }
        "heq" => {
            let (a, b) = (chain(&c[1]), chain(&c[2]));
            ctx.begin_x("heq", &[], "", &format!("\"chain\":{},\"other\":{},", chain_json(&a), chain_json(&b)));
            let view = |c: &[Step]| match *c {
                [] => bv.slice(..),
                [Slice(a, b)] => bv.slice(a..b),
                [Left(k)] => bv.split_at(k).0,
                [Right(k)] => bv.split_at(k).1,
                _ => bad_script("chain"),
            };
            ctx.call(|| Res::Bool(view(&a) == view(&b)));
        }
        "hword" => {
            let k = num(&c[1]);
            ctx.begin_x("hword", &[], "", &format!("\"n\":{},", pair(k)));
            ctx.call(|| {
                let w = bv.raw()[k];
                Res::Ints((0..64).filter(|b| w >> b & 1 == 1).collect())
            });
        }
        "hclone" => {
            let i = num(&c[1]);
            ctx.begin_x("hclone", &[], &c[2], "");
            let made = ctx.make(|| match c[2].as_str() {
                "from" => {
                    let mut b = BitVec::new(bv.len() ^ 1);
                    b.clone_from(bv);
                    b
                }
                _ => bv.clone(),
            });
            if let Some(v) = made {
                bv.flip_bit(i);
                *bv = v;
            }
        }
        "hwords" => {
            ctx.begin_x("hwords", &[], "", "");
            ctx.call(|| Res::Raw("pair", pair(bv.raw().len())));
        }
        _ => bad_script(&c[0]),
    }
}

/// The bits of the words at which integer `i` lies, as a number.
fn packed(v: &IntVec, w: usize, i: usize) -> usize {
    let words = v.raw_data();
    (0..w).filter(|b| words[(i * w + b) / 64] >> ((i * w + b) % 64) & 1 == 1).map(|b| 1 << b).sum()
}

fn int_cmd(ctx: &mut Ctx, iv: &mut IntVec, m: usize, c: &Cmd) {
    match c[0].as_str() {
        "higet" => {
            let i = num(&c[1]);
            ctx.begin_x("higet", &[], &c[2], &format!("\"n\":{},", pair(i)));
            ctx.call(|| Res::Raw("pair", pair(if c[2] == "unchecked" { unsafe { iv.get_unchecked(i) } } else { iv.get(i) })));
        }
        "hiset" => {
            let (i, v) = (num(&c[1]), num(&c[2]));
            ctx.begin_x("hiset", &[], &c[3], &format!("\"n\":{},\"v\":{},", pair(i), pair(v)));
            ctx.call(|| {
                if c[3] == "unchecked" {
                    unsafe { iv.set_unchecked(i, v) }
                } else {
                    iv.set(i, v)
                }
                Res::Ok
            });
        }
        "hipush" => {
            let v = num(&c[1]);
            ctx.begin_x("hipush", &[], "", &format!("\"v\":{},", pair(v)));
            ctx.call(|| {
                iv.push(v);
                Res::Ok
            });
        }
        "hilen" => {
            ctx.begin_x("hilen", &[], &c[1], "");
            ctx.call(|| {
                Res::Raw("pair", pair(match c[1].as_str() {
                    "iter" => iv.iter().len(),
                    "count" => iv.iter().count(),
                    _ => iv.iter().size_hint().0,
                }))
            });
        }
        "hiscan" => {
            let (skip, rt) = (num(&c[1]), c[3].as_str());
            ctx.begin_x("hiscan", &[], rt, &format!("\"n\":{},", pair(skip)));
            let odd = |k, v| (v != k & m).then(|| list([pair(k), pair(v)]));
            if rt.starts_with("own") {
                // consumes the vector
                let v = std::mem::replace(iv, IntVec::new(1));
                ctx.call(|| scan(v.into_iter(), skip, &c[2], &rt[3..], odd));
            } else {
                ctx.call(|| scan(iv.iter(), skip, &c[2], rt, odd));
            }
        }
        // every integer is set to its complement and set back
        "hieach" => {
            let (w, rt) = (num(&c[1]), c[2].as_str());
            ctx.begin_x("hieach", &[], rt, "");
            let ones = usize::MAX >> (64 - w);
            let n = iv.iter().len();
            let u = rt == "unchecked";
            let raw = rt == "raw";
            let get = |v: &IntVec, i| if raw { packed(v, w, i) } else if u { unsafe { v.get_unchecked(i) } } else { v.get(i) };
            ctx.call(|| {
                each(
                    iv,
                    n,
                    get,
                    |x| ones ^ x,
                    |v, i, x| {
                        if u {
                            unsafe { v.set_unchecked(i, *x) }
                        } else {
                            v.set(i, *x)
                        }
                    },
                )
            });
        }
        // every integer is set to a value that does not fit
        "hibad" => {
            let w = num(&c[1]);
            ctx.begin_x("hibad", &[], "", "");
            let n = iv.iter().len();
            let large = if c[2] == "max" { usize::MAX } else { 1 << w };
            ctx.call(|| {
                let taken = (0..n).filter(|&i| catch_unwind(AssertUnwindSafe(|| iv.set(i, large))).is_ok());
                Res::Raw("each", list([pair(n), list(taken.take(100).map(pair))]))
            });
        }
        // every integer is asked for
        "hipeek" => {
            ctx.begin_x("hipeek", &[], &c[1], "");
            let odd = |k, v| (v != k & m).then(|| list([pair(k), pair(v)]));
            let u = c[1] == "unchecked";
            if c[1] == "raw" {
                let w = num(&c[2]);
                ctx.call(|| scan((0..iv.iter().len()).map(|i| packed(iv, w, i)), 0, "", "", odd));
                return;
            }
            ctx.call(|| scan((0..iv.iter().len()).map(|i| if u { unsafe { iv.get_unchecked(i) } } else { iv.get(i) }), 0, "", "", odd));
        }
        "hiwords" => {
            ctx.begin_x("hiwords", &[], "", "");
            ctx.call(|| Res::Raw("pair", pair(iv.raw_data().len())));
        }
        _ => bad_script(&c[0]),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&args[1], &args[2]);
    let mut bv = BitVec::new(0);
    let mut iv = IntVec::new(1);
    let mut m = 1;
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "hnew" => {
                let (n, b) = (num(&c[1]), c[2] == "1");
                ctx.begin_x("hnew", &[], "", &format!("\"n\":{},\"b\":{},", pair(n), b as u8));
                bv = BitVec::new(0);
                if let Some(v) = ctx.make(|| vector(n, b)) {
                    bv = v;
                }
            }
            "hinew" => {
                let (w, n) = (num(&c[1]), num(&c[2]));
                ctx.begin_x("hinew", &[], "", &format!("\"n\":{},\"b\":{w},", pair(n)));
                iv = IntVec::new(1);
                m = low_bits(w);
                let made = ctx.make(|| {
                    let mut v = IntVec::with_capacity(w, n);
                    for i in 0..n {
                        v.push(i & m);
                    }
                    v
                });
                if let Some(v) = made {
                    iv = v;
                }
            }
            // as hinew, but at every length something is tried that must be rejected
            "higrow" => {
                let (w, n) = (num(&c[1]), num(&c[2]));
                ctx.begin_x("higrow", &[], "", &format!("\"n\":{},\"b\":{w},", pair(n)));
                m = low_bits(w);
                iv = IntVec::with_capacity(w, num(&c[3]));
                let v = &mut iv;
                ctx.call(|| {
                    let mut taken = Vec::new();
                    for i in 0..n {
                        let no = |r: std::thread::Result<()>| r.is_err();
                        let rejected = (w == 64 || no(catch_unwind(AssertUnwindSafe(|| v.push(1 << (w % 64))))))
                            && no(catch_unwind(AssertUnwindSafe(|| v.set(i, 0))))
                            && no(catch_unwind(AssertUnwindSafe(|| drop(v.get(i)))));
                        if !rejected && taken.len() < 100 {
                            taken.push(pair(i));
                        }
                        v.push(i & m);
                    }
                    Res::Raw("each", list([pair(n), list(taken)]))
                });
            }
            // questions follow
            "hbuild" => {
                ctx.begin_x("hbuild", &[], &c[1], "");
                let made = ctx.make(|| match c[1].as_str() {
                    "linear" => Index::Linear(FlatPopcount::new(&bv)),
                    _ => Index::Binary(FlatPopcount::new(&bv)),
                });
                match made {
                    Some(i) => asks(&mut ctx, i),
                    // without an index there is nothing to ask
                    None => {
                        while let Some(c) = ctx.next() {
                            if !matches!(c[0].as_str(), "hrank" | "hselect") {
                                ctx.back();
                                break;
                            }
                        }
                    }
                }
            }
            op if op.starts_with("hi") => int_cmd(&mut ctx, &mut iv, m, &c),
            _ => bit_cmd(&mut ctx, &mut bv, &c),
        }
    }
}
