//! Bit vectors, bit slices, word slices and primitive integers.

use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::ops::Bound;
use std::rc::Rc;

use succinct_neo::bit_vec::slice::{BitSlice, Iter};
use succinct_neo::bit_vec::{BitAccess, BitGet, BitModify, BitVec};

use driver::ctx::{enc, list, num, Cmd, Ctx, Res};

pub enum Obj {
    Bv(BitVec),
    Words(Box<[usize]>),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Usize(usize),
}

pub fn kind_code(kind: &str) -> i64 {
    match kind {
        "bv" => 0,
        "words" => 1,
        "u8" => 2,
        "u16" => 3,
        "u32" => 4,
        "u64" => 5,
        _ => 6,
    }
}

fn bound(kind: &str, v: usize) -> Bound<usize> {
    match kind {
        "i" => Bound::Included(v),
        "x" => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}

fn bcode(kind: &str) -> i64 {
    match kind {
        "i" => 0,
        "x" => 1,
        _ => 2,
    }
}

/// Calls the slicing method `$f` with the range written as the native range type where there is one.
macro_rules! with_range {
    ($c:expr, $w:expr, $f:ident) => {{
        let (sk, s, ek, e) = (&$c[3], num(&$c[4]), &$c[5], num(&$c[6]));
        match (sk.as_str(), ek.as_str()) {
            ("i", "x") => $w.$f(s..e),
            ("i", "i") => $w.$f(s..=e),
            ("i", "u") => $w.$f(s..),
            ("u", "x") => $w.$f(..e),
            ("u", "i") => $w.$f(..=e),
            ("u", "u") => $w.$f(..),
            _ => $w.$f((bound(sk, s), bound(ek, e))),
        }
    }};
}

/// Read through the requested route. All routes are specified to give the same answer.
fn get_on<B: BitGet>(b: &B, rt: &str, i: usize) -> bool {
    match rt {
        "unchecked" => unsafe { b.get_bit_unchecked(i) },
        "ref" => <&B as BitGet>::get_bit(&b, i),
        "refref" => <&&B as BitGet>::get_bit(&&b, i),
        "box" => <Box<&B> as BitGet>::get_bit(&Box::new(b), i),
        "rc" => <Rc<&B> as BitGet>::get_bit(&Rc::new(b), i),
        "dyn" => {
            let d: &dyn BitGet = b;
            d.get_bit(i)
        }
        "boxdyn" => {
            let d: Box<dyn BitGet + '_> = Box::new(b);
            d.get_bit(i)
        }
        "rc2" => {
            let r = Rc::new(b);
            let other = r.clone();
            <Rc<&B> as BitGet>::get_bit(&r, i) & <Rc<&B> as BitGet>::get_bit(&other, i)
        }
        "rcbox" => Rc::new(Box::new(b)).get_bit(i),
        "boxrc" => <Box<Rc<&B>> as BitGet>::get_bit(&Box::new(Rc::new(b)), i),
        "boxbox" => <Box<Box<&B>> as BitGet>::get_bit(&Box::new(Box::new(b)), i),
        "refrc" => <&Rc<&B> as BitGet>::get_bit(&&Rc::new(b), i),
        "rcdyn" => {
            let d: Rc<Box<dyn BitGet + '_>> = Rc::new(Box::new(b));
            let e = d.clone();
            <Rc<Box<dyn BitGet + '_>> as BitGet>::get_bit(&e, i)
        }
        "rc2_u" => {
            let r = Rc::new(b);
            let other = r.clone();
            unsafe { <Rc<&B> as BitGet>::get_bit_unchecked(&r, i) & <Rc<&B> as BitGet>::get_bit_unchecked(&other, i) }
        }
        "dyn_u" => {
            let d: &dyn BitGet = b;
            unsafe { d.get_bit_unchecked(i) }
        }
        "boxdyn_u" => {
            let d: Box<dyn BitGet + '_> = Box::new(b);
            unsafe { d.get_bit_unchecked(i) }
        }
        "boxrc_u" => unsafe { <Box<Rc<&B>> as BitGet>::get_bit_unchecked(&Box::new(Rc::new(b)), i) },
        "ref_u" => unsafe { <&B as BitGet>::get_bit_unchecked(&b, i) },
        "box_u" => unsafe { <Box<&B> as BitGet>::get_bit_unchecked(&Box::new(b), i) },
        "rc_u" => unsafe { <Rc<&B> as BitGet>::get_bit_unchecked(&Rc::new(b), i) },
        _ => b.get_bit(i),
    }
}

fn get_on_mut<B: BitGet>(b: &mut B, rt: &str, i: usize) -> bool {
    match rt {
        "mut" => <&mut B as BitGet>::get_bit(&b, i),
        "mut_u" => unsafe { <&mut B as BitGet>::get_bit_unchecked(&b, i) },
        "boxmut" => <Box<&mut B> as BitGet>::get_bit(&Box::new(b), i),
        "mutmut" => <&mut &mut B as BitGet>::get_bit(&&mut &mut *b, i),
        "boxmut_u" => unsafe { <Box<&mut B> as BitGet>::get_bit_unchecked(&Box::new(b), i) },
        _ => get_on(b, rt, i),
    }
}

fn set_on<B: BitModify>(b: &mut B, rt: &str, i: usize, v: bool) {
    match rt {
        "unchecked" => unsafe { b.set_bit_unchecked(i, v) },
        "mut" | "ref" | "rc" | "dyn" => <&mut B as BitModify>::set_bit(&mut &mut *b, i, v),
        "refref" => <&mut &mut B as BitModify>::set_bit(&mut &mut &mut *b, i, v),
        "box" | "boxmut" => <Box<&mut B> as BitModify>::set_bit(&mut Box::new(b), i, v),
        "boxdyn" => {
            let mut d: Box<dyn BitModify + '_> = Box::new(b);
            d.set_bit(i, v)
        }
        "mutbox" => <&mut Box<&mut B> as BitModify>::set_bit(&mut &mut Box::new(b), i, v),
        "boxbox" => <Box<Box<&mut B>> as BitModify>::set_bit(&mut Box::new(Box::new(b)), i, v),
        "mutdyn" => {
            let d: &mut dyn BitModify = b;
            d.set_bit(i, v)
        }
        "dyn_u" => {
            let d: &mut dyn BitModify = b;
            unsafe { d.set_bit_unchecked(i, v) }
        }
        "boxdyn_u" => {
            let mut d: Box<dyn BitModify + '_> = Box::new(b);
            unsafe { d.set_bit_unchecked(i, v) }
        }
        "mut_u" | "ref_u" | "rc_u" => unsafe {
            <&mut B as BitModify>::set_bit_unchecked(&mut &mut *b, i, v)
        },
        "box_u" => unsafe { <Box<&mut B> as BitModify>::set_bit_unchecked(&mut Box::new(b), i, v) },
        _ => b.set_bit(i, v),
    }
}

fn flip_on<B: BitModify>(b: &mut B, rt: &str, i: usize) {
    match rt {
        "unchecked" => unsafe { b.flip_bit_unchecked(i) },
        "mut" | "ref" | "rc" | "dyn" => <&mut B as BitModify>::flip_bit(&mut &mut *b, i),
        "refref" => <&mut &mut B as BitModify>::flip_bit(&mut &mut &mut *b, i),
        "box" | "boxmut" => <Box<&mut B> as BitModify>::flip_bit(&mut Box::new(b), i),
        "boxdyn" => {
            let mut d: Box<dyn BitModify + '_> = Box::new(b);
            d.flip_bit(i)
        }
        "mutbox" => <&mut Box<&mut B> as BitModify>::flip_bit(&mut &mut Box::new(b), i),
        "boxbox" => <Box<Box<&mut B>> as BitModify>::flip_bit(&mut Box::new(Box::new(b)), i),
        "mutdyn" => {
            let d: &mut dyn BitModify = b;
            d.flip_bit(i)
        }
        "dyn_u" => {
            let d: &mut dyn BitModify = b;
            unsafe { d.flip_bit_unchecked(i) }
        }
        "boxdyn_u" => {
            let mut d: Box<dyn BitModify + '_> = Box::new(b);
            unsafe { d.flip_bit_unchecked(i) }
        }
        "mut_u" | "ref_u" | "rc_u" => unsafe {
            <&mut B as BitModify>::flip_bit_unchecked(&mut &mut *b, i)
        },
        "box_u" => unsafe { <Box<&mut B> as BitModify>::flip_bit_unchecked(&mut Box::new(b), i) },
        _ => b.flip_bit(i),
    }
}

#[derive(Clone, Copy)]
enum Access {
    Get,
    Set(bool),
    Flip,
}

/// Access to bit i of something that holds a value directly.
fn look<X: BitGet>(x: X, i: usize, unchecked: bool) -> bool {
    if unchecked {
        unsafe { x.get_bit_unchecked(i) }
    } else {
        x.get_bit(i)
    }
}

fn touch<X: BitGet + BitModify>(x: &mut X, what: Access, i: usize, unchecked: bool) -> bool {
    match (what, unchecked) {
        (Access::Get, u) => return if u { unsafe { x.get_bit_unchecked(i) } } else { x.get_bit(i) },
        (Access::Set(v), false) => x.set_bit(i, v),
        (Access::Set(v), true) => unsafe { x.set_bit_unchecked(i, v) },
        (Access::Flip, false) => x.flip_bit(i),
        (Access::Flip, true) => unsafe { x.flip_bit_unchecked(i) },
    }
    false
}

/// Routes through wrappers of the value itself, instead of wrappers of a reference to it.
trait Held {
    fn held(&mut self, rt: &str, what: Access, i: usize) -> bool;
}

macro_rules! held {
    ($($t:ty)*) => {$(
        impl Held for $t {
            fn held(&mut self, rt: &str, what: Access, i: usize) -> bool {
                let u = rt.ends_with("_u");
                match (rt.trim_end_matches("_u"), what) {
                    ("val_rc", Access::Get) => look(Rc::new(*self), i, u),
                    ("val_ref", Access::Get) => look::<&$t>(self, i, u),
                    ("val_box", _) => {
                        let mut b = Box::new(*self);
                        let res = touch(&mut b, what, i, u);
                        *self = *b;
                        res
                    }
                    ("val_boxmut", _) => touch(&mut Box::new(self), what, i, u),
                    _ => touch::<&mut $t>(&mut &mut *self, what, i, u),
                }
            }
        }
    )*};
}

held! { u8 u16 u32 u64 usize }

impl Held for Box<[usize]> {
    fn held(&mut self, rt: &str, what: Access, i: usize) -> bool {
        let u = rt.ends_with("_u");
        match (rt.trim_end_matches("_u"), what) {
            ("val_rc", Access::Get) => look(Rc::new(self.clone()), i, u),
            ("val_ref", Access::Get) => look::<&[usize]>(self, i, u),
            ("val_box", _) => touch(self, what, i, u),
            ("val_boxmut", _) => touch::<Box<&mut [usize]>>(&mut Box::new(&mut **self), what, i, u),
            _ => touch::<&mut [usize]>(&mut &mut **self, what, i, u),
        }
    }
}

/// The command and its route, if it goes through a wrapper of the value itself.
fn held<T: Held>(ctx: &mut Ctx, c: &[String], t: &mut T) -> bool {
    let rt = c[c.len() - 1].clone();
    let what = match c[0].as_str() {
        "get" => Access::Get,
        "set" => Access::Set(c[3] == "1"),
        "flip" => Access::Flip,
        _ => return false,
    };
    if !rt.starts_with("val_") {
        return false;
    }
    let i = num(&c[2]);
    match what {
        Access::Set(v) => ctx.begin("set", &[0, enc(&c[2]), v as i64], &rt),
        _ => ctx.begin(&c[0], &[0, enc(&c[2])], &rt),
    }
    ctx.call(|| {
        let b = t.held(&rt, what, i);
        if matches!(what, Access::Get) {
            Res::Bool(b)
        } else {
            Res::Ok
        }
    });
    true
}

fn dyn_access(b: &mut dyn BitAccess, op: &str, i: usize, v: bool) -> bool {
    match op {
        "get" => b.get_bit(i),
        "set" => {
            b.set_bit(i, v);
            v
        }
        _ => {
            b.flip_bit(i);
            v
        }
    }
}

fn closing(ctx: &mut Ctx) {
    ctx.begin("close", &[], "");
    ctx.end(&Res::Ok);
}

/// A bit iterator, with its type erased.
trait BitIt {
    fn next(&mut self) -> Option<bool>;
    fn nth(&mut self, n: usize) -> Option<bool>;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn skip_len(&mut self, n: usize) -> usize;
    fn collect(self: Box<Self>) -> Vec<bool>;
    fn fold(self: Box<Self>) -> Vec<bool>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<bool>;
}

impl<I: ExactSizeIterator<Item = bool>> BitIt for I {
    fn next(&mut self) -> Option<bool> {
        Iterator::next(self)
    }
    fn nth(&mut self, n: usize) -> Option<bool> {
        Iterator::nth(self, n)
    }
    fn len(&self) -> usize {
        ExactSizeIterator::len(self)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        Iterator::size_hint(self)
    }
    fn skip_len(&mut self, n: usize) -> usize {
        ExactSizeIterator::len(&self.skip(n))
    }
    fn collect(self: Box<Self>) -> Vec<bool> {
        Iterator::collect(*self)
    }
    fn fold(self: Box<Self>) -> Vec<bool> {
        Iterator::fold(*self, Vec::new(), |mut a, b| {
            a.push(b);
            a
        })
    }
    fn count(self: Box<Self>) -> usize {
        Iterator::count(*self)
    }
    fn last(self: Box<Self>) -> Option<bool> {
        Iterator::last(*self)
    }
}

/// An immutable window, with its type erased.
trait Imm {
    fn get(&self, rt: &str, i: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn iter<'a>(&'a self, rt: &str) -> Box<dyn BitIt + 'a>;
    fn slice<'a>(&'a self, c: &Cmd) -> Box<dyn Imm + 'a>;
    fn split<'a>(&'a self, k: usize) -> [Box<dyn Imm + 'a>; 2];
    fn view<'a>(&'a self, a: usize, b: usize, rt: &str) -> Box<dyn Imm + 'a>;
}

/// A mutable window, with its type erased.
trait Mut {
    fn as_imm(&self) -> &dyn Imm;
    fn get_mut(&mut self, rt: &str, i: usize) -> bool;
    fn set(&mut self, rt: &str, i: usize, v: bool);
    fn flip(&mut self, rt: &str, i: usize);
    fn iter_mut<'a>(&'a mut self) -> Box<dyn BitIt + 'a>;
    fn slice_mut<'a>(&'a mut self, c: &Cmd) -> Box<dyn Mut + 'a>;
    fn split_mut<'a>(&'a mut self, k: usize) -> [Box<dyn Mut + 'a>; 2];
    fn view_mut<'a>(&'a mut self, a: usize, b: usize, rt: &str) -> Box<dyn Mut + 'a>;
}

/// How many scopes may still be nested inside a window. The windows of each depth have different
/// types, so that the depth has to be bounded at compile time.
trait Lvl: 'static {
    fn imm<'a, B: BitGet + 'a>(w: BitSlice<B>) -> Box<dyn Imm + 'a>;
    fn mutable<'a, B: BitGet + BitModify + 'a>(w: BitSlice<B>) -> Box<dyn Mut + 'a>;
}
/// No window at all: beyond the bound.
struct Never;
impl Lvl for Never {
    fn imm<'a, B: BitGet + 'a>(_: BitSlice<B>) -> Box<dyn Imm + 'a> {
        eprintln!("script nests too deeply");
        std::process::exit(2)
    }
    fn mutable<'a, B: BitGet + BitModify + 'a>(_: BitSlice<B>) -> Box<dyn Mut + 'a> {
        eprintln!("script nests too deeply");
        std::process::exit(2)
    }
}
struct Up<L>(PhantomData<L>);
impl<L: Lvl> Lvl for Up<L> {
    fn imm<'a, B: BitGet + 'a>(w: BitSlice<B>) -> Box<dyn Imm + 'a> {
        Box::new(W::<L, B>(w, PhantomData))
    }
    fn mutable<'a, B: BitGet + BitModify + 'a>(w: BitSlice<B>) -> Box<dyn Mut + 'a> {
        Box::new(W::<L, B>(w, PhantomData))
    }
}
type Deep = Up<Up<Up<Never>>>;
type Shallow = Up<Up<Never>>;

/// A window whose nested windows are of level `L`.
#[repr(transparent)]
struct W<L, B>(BitSlice<B>, PhantomData<L>);

impl<L: Lvl, B: BitGet> Imm for W<L, B> {
    fn get(&self, rt: &str, i: usize) -> bool {
        match rt {
            "alias" => self.0.get(i),
            "alias_u" => unsafe { self.0.get_unchecked(i) },
            _ => get_on(&self.0, rt, i),
        }
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn iter<'a>(&'a self, rt: &str) -> Box<dyn BitIt + 'a> {
        let w = &self.0;
        match rt {
            "ref" => Box::new(w.into_iter()),
            "own" => Box::new(w.slice(..).into_iter()),
            "new" => Box::new(Iter::new(w, 0, w.len())),
            _ => Box::new(w.iter()),
        }
    }
    fn slice<'a>(&'a self, c: &Cmd) -> Box<dyn Imm + 'a> {
        let w = &self.0;
        L::imm(if c[7] == "unchecked" {
            unsafe { with_range!(c, w, slice_unchecked) }
        } else {
            with_range!(c, w, slice)
        })
    }
    fn split<'a>(&'a self, k: usize) -> [Box<dyn Imm + 'a>; 2] {
        let (l, r) = self.0.split_at(k);
        [L::imm(l), L::imm(r)]
    }
    fn view<'a>(&'a self, a: usize, b: usize, rt: &str) -> Box<dyn Imm + 'a> {
        let w = &self.0;
        match rt {
            "rc" => {
                let w: Rc<&dyn BitGet> = Rc::new(w);
                L::imm(BitSlice::new(w, a, b))
            }
            "rc2" => {
                // the other owner lives as long as the process
                let w: Rc<&dyn BitGet> = Rc::new(w);
                std::mem::forget(w.clone());
                L::imm(BitSlice::new(w, a, b))
            }
            "box" => {
                let w: Box<dyn BitGet + 'a> = Box::new(w);
                L::imm(BitSlice::new(w, a, b))
            }
            _ => {
                let w: &dyn BitGet = w;
                L::imm(BitSlice::new(w, a, b))
            }
        }
    }
}

impl<L: Lvl, B: BitGet + BitModify> Mut for W<L, B> {
    fn as_imm(&self) -> &dyn Imm {
        self
    }
    fn get_mut(&mut self, rt: &str, i: usize) -> bool {
        get_on_mut(&mut self.0, rt, i)
    }
    fn set(&mut self, rt: &str, i: usize, v: bool) {
        match rt {
            "alias" => self.0.set(i, v),
            "alias_u" => unsafe { self.0.set_unchecked(i, v) },
            _ => set_on(&mut self.0, rt, i, v),
        }
    }
    fn flip(&mut self, rt: &str, i: usize) {
        match rt {
            "alias" => self.0.flip(i),
            "alias_u" => unsafe { self.0.flip_unchecked(i) },
            _ => flip_on(&mut self.0, rt, i),
        }
    }
    fn iter_mut<'a>(&'a mut self) -> Box<dyn BitIt + 'a> {
        Box::new(self.0.slice_mut(..).into_iter())
    }
    fn slice_mut<'a>(&'a mut self, c: &Cmd) -> Box<dyn Mut + 'a> {
        let w = &mut self.0;
        L::mutable(if c[7] == "unchecked" {
            unsafe { with_range!(c, w, slice_unchecked_mut) }
        } else {
            with_range!(c, w, slice_mut)
        })
    }
    fn split_mut<'a>(&'a mut self, k: usize) -> [Box<dyn Mut + 'a>; 2] {
        let (l, r) = self.0.split_at_mut(k);
        [L::mutable(l), L::mutable(r)]
    }
    fn view_mut<'a>(&'a mut self, a: usize, b: usize, rt: &str) -> Box<dyn Mut + 'a> {
        let w = &mut self.0;
        match rt {
            "box" => {
                let w: Box<dyn BitAccess + 'a> = Box::new(w);
                L::mutable(BitSlice::new(w, a, b))
            }
            _ => {
                let w: &mut dyn BitAccess = w;
                L::mutable(BitSlice::new(w, a, b))
            }
        }
    }
}

/// The end of a view that is far too long is represented by a number that is just too long.
fn enc_end(tok: &str) -> i64 {
    if tok.starts_with('H') {
        1 << 30
    } else {
        enc(tok)
    }
}

fn slice_args(c: &Cmd, s: usize, m: i64) -> [i64; 6] {
    [s as i64, m, bcode(&c[3]), enc(&c[4]), bcode(&c[5]), enc(&c[6])]
}

/// Runs the commands of a scope of immutable windows.
fn run_imm(ctx: &mut Ctx, wins: &[Box<dyn Imm + '_>]) {
    while let Some(c) = ctx.next() {
        if c[0] == "close" {
            return closing(ctx);
        }
        let s = num(&c[1]).min(wins.len() - 1);
        step_imm(ctx, &c, s, &*wins[s]);
    }
}

/// Runs the commands of a scope of mutable windows.
fn run_mut(ctx: &mut Ctx, wins: &mut [Box<dyn Mut + '_>]) {
    while let Some(c) = ctx.next() {
        if c[0] == "close" {
            return closing(ctx);
        }
        let s = num(&c[1]).min(wins.len() - 1);
        step_mut(ctx, &c, s, &mut *wins[s]);
    }
}

/// One command on an immutable window.
fn step_imm(ctx: &mut Ctx, c: &Cmd, s: usize, w: &(dyn Imm + '_)) {
    match c[0].as_str() {
        "get" => {
            let (i, rt) = (num(&c[2]), c[3].as_str());
            ctx.begin("get", &[s as i64, enc(&c[2])], rt);
            ctx.call(|| Res::Bool(w.get(rt, i)))
        }
        "len" => {
            ctx.begin("len", &[s as i64], "");
            ctx.call(|| Res::Int(w.len()))
        }
        "empty" => {
            ctx.begin("empty", &[s as i64], "");
            ctx.call(|| Res::Bool(w.is_empty()))
        }
        // reads the whole window bit by bit
        "wsnap" => {
            ctx.begin("wsnap", &[s as i64], "");
            ctx.call(|| {
                let n = w.len().min(1 << 20);
                Res::Raw("bits", format!("[{},{}]", n, list((0..n).filter(|i| w.get("bit", *i)))))
            })
        }
        "iter" => {
            ctx.begin("iter", &[s as i64], &c[2]);
            let it = ctx.make(|| w.iter(&c[2]));
            run_iter(ctx, it)
        }
        "slice" => {
            ctx.begin("slice", &slice_args(c, s, 0), &c[7]);
            match ctx.make(|| w.slice(c)) {
                Some(v) => run_imm(ctx, &[v]),
                None => ctx.skip_closed(),
            }
        }
        "split" => {
            ctx.begin("split", &[s as i64, 0, enc(&c[3])], "");
            match ctx.make(|| w.split(num(&c[3]))) {
                Some(v) => run_imm(ctx, &v),
                None => ctx.skip_closed(),
            }
        }
        "view" => {
            let (a, b) = (num(&c[3]), num(&c[4]));
            ctx.begin("view", &[s as i64, 0, enc(&c[3]), enc_end(&c[4])], &c[5]);
            match ctx.make(|| w.view(a, b, &c[5])) {
                Some(v) => run_imm(ctx, &[v]),
                None => ctx.skip_closed(),
            }
        }
        _ => {}
    }
}

/// One command on a mutable window.
fn step_mut(ctx: &mut Ctx, c: &Cmd, s: usize, w: &mut (dyn Mut + '_)) {
    match c[0].as_str() {
        "get" if c[3].contains("mut") => {
            let (i, rt) = (num(&c[2]), c[3].as_str());
            ctx.begin("get", &[s as i64, enc(&c[2])], rt);
            ctx.call(|| Res::Bool(w.get_mut(rt, i)))
        }
        "set" => {
            let (i, v, rt) = (num(&c[2]), c[3] == "1", c[4].as_str());
            ctx.begin("set", &[s as i64, enc(&c[2]), v as i64], rt);
            ctx.call(|| {
                w.set(rt, i, v);
                Res::Ok
            })
        }
        "flip" => {
            let (i, rt) = (num(&c[2]), c[3].as_str());
            ctx.begin("flip", &[s as i64, enc(&c[2])], rt);
            ctx.call(|| {
                w.flip(rt, i);
                Res::Ok
            })
        }
        "iter" if c[2] == "ownmut" => {
            ctx.begin("iter", &[s as i64], "ownmut");
            let it = ctx.make(|| w.iter_mut());
            run_iter(ctx, it)
        }
        "slice" if c[2] == "1" => {
            ctx.begin("slice", &slice_args(c, s, 1), &c[7]);
            match ctx.make(|| w.slice_mut(c)) {
                Some(v) => run_mut(ctx, &mut [v]),
                None => ctx.skip_closed(),
            }
        }
        "split" if c[2] == "1" => {
            ctx.begin("split", &[s as i64, 1, enc(&c[3])], "");
            match ctx.make(|| w.split_mut(num(&c[3]))) {
                Some(mut v) => run_mut(ctx, &mut v),
                None => ctx.skip_closed(),
            }
        }
        "view" if c[2] == "1" => {
            let (a, b) = (num(&c[3]), num(&c[4]));
            ctx.begin("view", &[s as i64, 1, enc(&c[3]), enc_end(&c[4])], &c[5]);
            match ctx.make(|| w.view_mut(a, b, &c[5])) {
                Some(v) => run_mut(ctx, &mut [v]),
                None => ctx.skip_closed(),
            }
        }
        _ => step_imm(ctx, c, s, w.as_imm()),
    }
}

fn obit(b: Option<bool>) -> Res {
    Res::Int(match b {
        None => 2,
        Some(v) => v as usize,
    })
}

fn bits_res(v: &[bool]) -> Res {
    let ones = list(v.iter().enumerate().filter(|x| *x.1).map(|x| x.0));
    Res::Raw("bits", format!("[{},{}]", v.len(), ones))
}

/// Commands on an iterator over bits.
fn run_iter(ctx: &mut Ctx, it: Option<Box<dyn BitIt + '_>>) {
    let Some(it) = it else { return ctx.skip_closed() };
    let mut slot = Some(it);
    while let Some(c) = ctx.next() {
        if c[0] == "close" {
            return closing(ctx);
        }
        // consumed by an earlier command
        if slot.is_none() {
            continue;
        }
        let arg = c.get(1).map_or("", String::as_str);
        match c[0].as_str() {
            // consuming the iterator
            "drain" | "count" | "last" => {
                ctx.begin(&c[0], &[], arg);
                if arg == "next" {
                    let it = slot.as_mut().unwrap();
                    ctx.call(|| {
                        let mut a = Vec::new();
                        while let Some(b) = it.next() {
                            a.push(b);
                            if a.len() >= 1 << 20 {
                                break;
                            }
                        }
                        bits_res(&a)
                    });
                    continue;
                }
                let it = slot.take().unwrap();
                ctx.call(|| match (c[0].as_str(), arg) {
                    ("drain", "fold") => bits_res(&it.fold()),
                    ("drain", _) => bits_res(&it.collect()),
                    ("count", _) => Res::Int(it.count()),
                    _ => obit(it.last()),
                })
            }
            op => {
                let it = slot.as_mut().unwrap();
                match op {
                    "next" => {
                        ctx.begin("next", &[], "");
                        ctx.call(|| obit(it.next()))
                    }
                    "nth" => {
                        ctx.begin("nth", &[enc(arg)], "");
                        ctx.call(|| obit(it.nth(num(arg))))
                    }
                    "ilen" => {
                        ctx.begin("ilen", &[], "");
                        ctx.call(|| Res::Int(it.len()))
                    }
                    "ihint" => {
                        ctx.begin("ihint", &[], "");
                        ctx.call(|| {
                            let (lo, hi) = it.size_hint();
                            Res::Ints(vec![driver::ctx::val(lo), hi.map_or(-1, driver::ctx::val)])
                        })
                    }
                    "adlen" => {
                        ctx.begin("adlen", &[enc(arg)], "");
                        ctx.call(|| Res::Int(it.skip_len(num(arg))))
                    }
                    _ => {}
                }
            }
        }
    }
}

/// Commands on an object that is not itself a bit slice.
fn run_plain<T: BitGet + BitModify + Held>(ctx: &mut Ctx, t: &mut T) {
    while let Some(c) = ctx.next() {
        if held(ctx, &c, t) {
            continue;
        }
        match c[0].as_str() {
            "close" => {
                return closing(ctx);
            }
            "get" => {
                let (i, rt) = (num(&c[2]), c[3].as_str());
                ctx.begin("get", &[0, enc(&c[2])], rt);
                ctx.call(|| Res::Bool(get_on_mut(t, rt, i)))
            }
            "set" => {
                let (i, v, rt) = (num(&c[2]), c[3] == "1", c[4].as_str());
                ctx.begin("set", &[0, enc(&c[2]), v as i64], rt);
                ctx.call(|| {
                    set_on(t, rt, i, v);
                    Res::Ok
                })
            }
            "flip" => {
                let (i, rt) = (num(&c[2]), c[3].as_str());
                ctx.begin("flip", &[0, enc(&c[2])], rt);
                ctx.call(|| {
                    flip_on(t, rt, i);
                    Res::Ok
                })
            }
            "view" => {
                let (a, b, m) = (num(&c[3]), num(&c[4]), c[2] == "1");
                ctx.begin("view", &[0, m as i64, enc(&c[3]), enc_end(&c[4])], "");
                if m {
                    match ctx.make(|| Shallow::mutable(BitSlice::new(&mut *t, a, b))) {
                        Some(v) => run_mut(ctx, &mut [v]),
                        None => ctx.skip_closed(),
                    }
                } else {
                    match ctx.make(|| Shallow::imm(BitSlice::new(&*t, a, b))) {
                        Some(v) => run_imm(ctx, &[v]),
                        None => ctx.skip_closed(),
                    }
                }
            }
            op if driver::ctx::opens(op) => ctx.skip_closed(),
            _ => {}
        }
    }
}

/// Commands on a bit vector. Those which `BitVec` does not implement itself go to the bit slice it
/// dereferences to.
fn run_bv(ctx: &mut Ctx, bv: &mut BitVec) {
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "set" if c[4].starts_with("bv") || c[4] == "dynacc" => {
                let (i, v, rt) = (num(&c[2]), c[3] == "1", c[4].as_str());
                ctx.begin("set", &[0, enc(&c[2]), v as i64], rt);
                ctx.call(|| {
                    match rt {
                        "bv_u" => unsafe { BitModify::set_bit_unchecked(bv, i, v) },
                        "bv_mut" => <&mut BitVec as BitModify>::set_bit(&mut &mut *bv, i, v),
                        "bv_box" => Box::new(&mut *bv).set_bit(i, v),
                        "dynacc" => {
                            dyn_access(&mut **bv, "set", i, v);
                        }
                        _ => BitModify::set_bit(bv, i, v),
                    }
                    Res::Ok
                })
            }
            "flip" if c[3].starts_with("bv") || c[3] == "dynacc" => {
                let (i, rt) = (num(&c[2]), c[3].as_str());
                ctx.begin("flip", &[0, enc(&c[2])], rt);
                ctx.call(|| {
                    match rt {
                        "bv_u" => unsafe { BitModify::flip_bit_unchecked(bv, i) },
                        "bv_mut" => <&mut BitVec as BitModify>::flip_bit(&mut &mut *bv, i),
                        "bv_box" => Box::new(&mut *bv).flip_bit(i),
                        "dynacc" => {
                            dyn_access(&mut **bv, "flip", i, false);
                        }
                        _ => BitModify::flip_bit(bv, i),
                    }
                    Res::Ok
                })
            }
            "get" if c[3] == "dynacc" => {
                ctx.begin("get", &[0, enc(&c[2])], "dynacc");
                let i = num(&c[2]);
                ctx.call(|| Res::Bool(dyn_access(&mut **bv, "get", i, false)))
            }
            "get" if c[3] == "asref" => {
                ctx.begin("get", &[0, enc(&c[2])], "asref");
                let i = num(&c[2]);
                ctx.call(|| Res::Bool(AsRef::<BitSlice<Box<[usize]>>>::as_ref(bv).get_bit(i)))
            }
            // the vector itself becomes a view of its words, until the scope is closed
            "view" if c[5] == "inner" => {
                let (a, b) = (num(&c[3]), num(&c[4]));
                ctx.begin("view", &[0, 1, enc(&c[3]), enc(&c[4])], "inner");
                let words = bv.backing().clone();
                if ctx.make(|| *bv.as_mut() = BitSlice::new(words, a, b)).is_some() {
                    run_bv(ctx, bv);
                    let words = bv.backing().clone();
                    let n = words.len() * 64;
                    *bv.as_mut() = BitSlice::new(words, 0, n);
                } else {
                    ctx.skip_closed()
                }
            }
            "iter" if c[2] == "bv" => {
                ctx.begin("iter", &[0], "bv");
                let it = ctx.make(|| Box::new((&*bv).into_iter()) as Box<dyn BitIt>);
                run_iter(ctx, it)
            }
            "close" => return closing(ctx),
            _ => {
                let w: &mut BitSlice<Box<[usize]>> = &mut *bv;
                // SAFETY: a transparent wrapper
                let w = unsafe { &mut *(w as *mut BitSlice<_> as *mut W<Deep, Box<[usize]>>) };
                step_mut(ctx, &c, 0, w)
            }
        }
    }
}

fn words_ones(w: &[usize]) -> String {
    list((0..w.len() * 64).filter(|i| w[i / 64] >> (i % 64) & 1 == 1))
}

fn snapshot(o: &Obj) -> Res {
    fn bits(n: usize, f: impl Fn(usize) -> bool) -> Res {
        let n = n.min(1 << 20);
        Res::Raw("bits", format!("[{},{}]", n, list((0..n).filter(|i| f(*i)))))
    }
    match o {
        Obj::Bv(v) => bits(v.len(), |i| v.get_bit(i)),
        Obj::Words(v) => bits(v.len() * 64, |i| v.get_bit(i)),
        Obj::U8(v) => bits(8, |i| v.get_bit(i)),
        Obj::U16(v) => bits(16, |i| v.get_bit(i)),
        Obj::U32(v) => bits(32, |i| v.get_bit(i)),
        Obj::U64(v) => bits(64, |i| v.get_bit(i)),
        Obj::Usize(v) => bits(64, |i| v.get_bit(i)),
    }
}

/// The memory words of an object, as the positions of the ones in them.
fn raw(o: &Obj, rt: &str) -> Res {
    fn words(w: &[usize]) -> Res {
        Res::Raw("words", format!("[{},{}]", w.len(), words_ones(w)))
    }
    match o {
        Obj::Bv(v) if rt == "asref" => words(AsRef::<[usize]>::as_ref(v)),
        Obj::Bv(v) if rt == "backing" => words(v.backing()),
        Obj::Bv(v) => words(v.raw()),
        Obj::Words(v) => words(v),
        Obj::U8(v) => words(&[*v as usize]),
        Obj::U16(v) => words(&[*v as usize]),
        Obj::U32(v) => words(&[*v as usize]),
        Obj::U64(v) => words(&[*v as usize]),
        Obj::Usize(v) => words(&[*v]),
    }
}

/// Compares a window of one object with a window of another one.
fn eq_cmd(ctx: &mut Ctx, slots: &mut BTreeMap<usize, Obj>, c: &Cmd) {
    // eq s1 a1 b1 s2 a2 b2 route
    let n: Vec<usize> = c[1..7].iter().map(|t| num(t)).collect();
    let rt = c[7].as_str();
    let a: Vec<i64> = n.iter().map(|v| *v as i64).collect();
    ctx.begin("eq", &a, rt);
    macro_rules! cmp {
        ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            let (p, q) = (x == y, y == x);
            let (r, s) = (x != y, y != x);
            Res::Ints(vec![p as i64, q as i64, r as i64, s as i64])
        }};
    }
    let (s1, s2) = (n[0], n[3]);
    if s1 == s2 {
        let Some(Obj::Bv(x)) = slots.get(&s1) else { return ctx.end(&Res::Panic) };
        return ctx.call(|| match rt {
            "viewii" => cmp!(BitSlice::new(&**x, n[1], n[2]), BitSlice::new(&**x, n[4], n[5])),
            _ => cmp!(x.slice(n[1]..n[2]), x.slice(n[4]..n[5])),
        });
    }
    let mut o1 = slots.remove(&s1);
    let o2 = slots.get_mut(&s2);
    match (&mut o1, o2) {
        (Some(Obj::Bv(x)), Some(Obj::Bv(y))) => ctx.call(|| match rt {
            "im" => cmp!(x.slice(n[1]..n[2]), y.slice_mut(n[4]..n[5])),
            "mi" => cmp!(x.slice_mut(n[1]..n[2]), y.slice(n[4]..n[5])),
            "mm" => cmp!(x.slice_mut(n[1]..n[2]), y.slice_mut(n[4]..n[5])),
            "deref" => cmp!(&**x, &**y),
            "rcbox" => cmp!(
                BitSlice::new(Rc::new(&**x), n[1], n[2]),
                BitSlice::new(Box::new(&**y), n[4], n[5])
            ),
            "nest" => {
                let (p, q) = (x.slice(n[1]..), y.slice(..n[5]));
                cmp!(p.slice(..n[2] - n[1]), q.slice(n[4]..))
            }
            _ => cmp!(x.slice(n[1]..n[2]), y.slice(n[4]..n[5])),
        }),
        (Some(Obj::Bv(x)), Some(Obj::Words(y))) => {
            ctx.call(|| cmp!(x.slice(n[1]..n[2]), BitSlice::new(&*y, n[4], n[5])))
        }
        (Some(Obj::Words(x)), Some(Obj::Bv(y))) => {
            ctx.call(|| cmp!(BitSlice::new(&*x, n[1], n[2]), y.slice(n[4]..n[5])))
        }
        (Some(Obj::U64(x)), Some(Obj::U16(y))) => {
            ctx.call(|| cmp!(BitSlice::new(*x, n[1], n[2]), BitSlice::new(*y, n[4], n[5])))
        }
        (Some(Obj::Bv(x)), Some(Obj::U32(y))) => {
            ctx.call(|| cmp!(x.slice(n[1]..n[2]), BitSlice::new(*y, n[4], n[5])))
        }
        _ => ctx.end(&Res::Panic),
    }
    if let Some(o) = o1 {
        slots.insert(s1, o);
    }
}

fn parse_ones(toks: &[String]) -> Vec<usize> {
    toks.iter().map(|t| num(t)).collect()
}

/// Runs a script of bit commands.
fn run(ctx: &mut Ctx) {
    let mut slots: BTreeMap<usize, Obj> = BTreeMap::new();
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            // new slot kind size [ones...]: `size` is the number of bits
            "new" => {
                let (s, n) = (num(&c[1]), num(&c[3]));
                let ones = parse_ones(&c[4..]);
                let extra = format!("\"w\":{},", list(&ones));
                ctx.begin_x("new", &[s as i64, kind_code(&c[2]), n as i64], &c[2], &extra);
                let word = ones.iter().fold(0usize, |a, b| a | 1usize.checked_shl(*b as u32).unwrap_or(0));
                let made = ctx.make(|| match c[2].as_str() {
                    "bv" => {
                        let mut v = BitVec::new(n);
                        for o in &ones {
                            v.set_bit(*o, true)
                        }
                        Obj::Bv(v)
                    }
                    "words" => {
                        let mut w = vec![0usize; n / 64];
                        for o in &ones {
                            w[o / 64] |= 1 << (o % 64)
                        }
                        Obj::Words(w.into_boxed_slice())
                    }
                    "u8" => Obj::U8(word as u8),
                    "u16" => Obj::U16(word as u16),
                    "u32" => Obj::U32(word as u32),
                    "u64" => Obj::U64(word as u64),
                    _ => Obj::Usize(word),
                });
                if let Some(o) = made {
                    slots.insert(s, o);
                }
            }
            "clone" => {
                let (s, d) = (num(&c[1]), num(&c[2]));
                let Some(Obj::Bv(v)) = slots.get(&s) else { continue };
                let rt = c.get(3).map_or("", String::as_str);
                ctx.begin("clone", &[s as i64, d as i64], rt);
                let made = ctx.make(|| match rt {
                    "from" => {
                        let mut w = match slots.get(&d) {
                            Some(Obj::Bv(w)) => w.clone(),
                            _ => BitVec::new(3),
                        };
                        w.clone_from(v);
                        w
                    }
                    "owned" => std::borrow::ToOwned::to_owned(v),
                    _ => v.clone(),
                });
                if let Some(o) = made {
                    slots.insert(d, Obj::Bv(o));
                }
            }
            "drop" => {
                let s = num(&c[1]);
                ctx.begin("drop", &[s as i64], "");
                slots.remove(&s);
                ctx.end(&Res::Ok);
            }
            "open" => {
                let s = num(&c[1]);
                let Some(mut o) = slots.remove(&s) else {
                    ctx.skip_closed();
                    continue;
                };
                ctx.begin("open", &[s as i64], "");
                ctx.end(&Res::Ok);
                match &mut o {
                    Obj::Bv(v) => run_bv(ctx, v),
                    Obj::Words(v) => run_plain(ctx, v),
                    Obj::U8(v) => run_plain(ctx, v),
                    Obj::U16(v) => run_plain(ctx, v),
                    Obj::U32(v) => run_plain(ctx, v),
                    Obj::U64(v) => run_plain(ctx, v),
                    Obj::Usize(v) => run_plain(ctx, v),
                }
                slots.insert(s, o);
            }
            "snap" | "raw" | "debug" => {
                let s = num(&c[1]);
                let rt = c.get(2).map_or("", String::as_str);
                let Some(o) = slots.get(&s) else { continue };
                ctx.begin(&c[0], &[s as i64], rt);
                match c[0].as_str() {
                    "snap" => ctx.call(|| snapshot(o)),
                    "raw" => ctx.call(|| raw(o, rt)),
                    _ => ctx.call(|| match o {
                        Obj::Bv(v) => {
                            let text = match rt {
                                "alt" => format!("{v:#?}"),
                                "width" => format!("{v:7?}"),
                                "hex" => format!("{v:02x?}"),
                                "ref" => format!("{:?}", &&v),
                                "prec" => format!("{v:.3?}"),
                                "fill" => format!("{v:*^090?}"),
                                "plus" => format!("{v:+X?}"),
                                // as part of something else
                                "nested" => {
                                    let text = format!("{:?}", Some(v));
                                    text.strip_prefix("Some(").and_then(|t| t.strip_suffix(')')).map_or(text.clone(), str::to_string)
                                }
                                _ => format!("{v:?}"),
                            };
                            Res::Ints(text.bytes().map(i64::from).collect())
                        }
                        _ => Res::Panic,
                    }),
                }
            }
            "eq" => eq_cmd(ctx, &mut slots, &c),
            op if driver::ctx::opens(op) => ctx.skip_closed(),
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run(&mut Ctx::new(&a[1], &a[2]));
}
