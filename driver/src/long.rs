//! Long vectors: all bits are the same but for some, and integer `i` is `i`.

use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::BitVec;

use crate::ctx::{list, Res};

pub fn pair(v: usize) -> String {
    list([v >> 20, v & 0xfffff])
}

pub fn vector(n: usize, bg: bool) -> BitVec {
    let mut bv = BitVec::new(n);
    if bg {
        let mut words = vec![usize::MAX; n.div_ceil(64)];
        if n % 64 > 0 {
            *words.last_mut().unwrap() >>= 64 - n % 64;
        }
        let inner: &mut BitSlice<Box<[usize]>> = bv.as_mut();
        *inner = BitSlice::new(words.into_boxed_slice(), 0, n);
    }
    bv
}

/// What an integer vector of this width has room for when it counts.
pub fn low_bits(w: usize) -> usize {
    if w >= 32 {
        usize::MAX
    } else {
        (1 << w.min(20)) - 1
    }
}

/// What is left of an iterator after the first `skip` elements: how many elements, and those at
/// which `odd` says something, at most 5000 of them.
pub fn scan<T>(mut it: impl ExactSizeIterator<Item = T>, skip: usize, how: &str, route: &str, odd: impl Fn(usize, T) -> Option<String>) -> Res {
    let mut k = skip;
    if how == "nth" && skip > 0 {
        it.nth(skip - 1);
    } else {
        for _ in 0..skip {
            it.next();
        }
    }
    let mut seen = Vec::new();
    let mut see = |v: T| {
        if let Some(s) = odd(k, v) {
            if seen.len() < 5000 {
                seen.push(s);
            }
        }
        k += 1;
    };
    match route {
        "fold" => it.for_each(see),
        "collect" => it.collect::<Vec<T>>().into_iter().for_each(see),
        "nth" => {
            while let Some(v) = it.nth(0) {
                see(v);
            }
        }
        _ => {
            while let Some(v) = it.next() {
                see(v);
            }
        }
    }
    Res::Raw("scan", list([pair(k - skip), list(seen)]))
}
