//! Bit vectors with given ones, produced by different histories.

use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitModify, BitVec};

use crate::ctx::{list, num};

/// start, count, stride
pub type Seg = (usize, usize, usize);

pub fn segs(toks: &[String]) -> Vec<Seg> {
    toks.iter()
        .map(|t| {
            let p: Vec<usize> = t.split(':').map(num).collect();
            (p[0], p[1], p[2])
        })
        .collect()
}

/// The trace fields that describe the ones.
pub fn segs_json(segs: &[Seg]) -> String {
    let s = list(segs.iter().map(|x| list([x.0, x.1, x.2])));
    let mut c = vec![0];
    for x in segs {
        c.push(c[c.len() - 1] + x.1)
    }
    format!("\"s\":{s},\"c\":{},", list(c))
}

fn ones(segs: &[Seg]) -> impl Iterator<Item = usize> + '_ {
    segs.iter().flat_map(|&(start, count, stride)| (0..count).map(move |j| start + j * stride))
}

fn plain(n: usize, segs: &[Seg]) -> BitVec {
    let mut bv = BitVec::new(n);
    for p in ones(segs) {
        bv.set_bit(p, true);
    }
    bv
}

/// Replaces all bits, by setting them or by toggling those that differ.
pub fn overwrite(bv: &mut BitVec, segs: &[Seg], how: &str) {
    let mut next = 0;
    let n = bv.len();
    let mut put = |i: usize, b: bool| match how {
        "flip" => {
            if bv.get(i) != b {
                bv.flip_bit(i)
            }
        }
        "view" => bv.slice_mut(i..).set(0, b),
        _ => bv.set_bit(i, b),
    };
    for p in ones(segs) {
        (next..p).for_each(|i| put(i, false));
        put(p, true);
        next = p + 1;
    }
    (next..n).for_each(|i| put(i, false));
}

/// Makes a vector of n bits with these ones, in one of several ways.
pub fn bits(n: usize, segs: &[Seg], hist: usize) -> BitVec {
    match hist {
        // all ones first, then the zeros are cleared
        1 => {
            let mut bv = BitVec::new(n);
            for i in 0..n {
                bv.set_bit(i, true);
            }
            let mut next = 0;
            for p in ones(segs) {
                (next..p).for_each(|i| bv.flip_bit(i));
                next = p + 1;
            }
            (next..n).for_each(|i| bv.set_bit(i, false));
            bv
        }
        // through the halves of a split
        2 if n > 0 => {
            let mut bv = BitVec::new(n);
            let k = n / 2;
            let (mut a, mut b) = bv.split_at_mut(k);
            for p in ones(segs) {
                if p < k {
                    a.set(p, true)
                } else {
                    b.flip(p - k)
                }
            }
            bv
        }
        // a clone whose original is then destroyed
        3 => {
            let mut bv = plain(n, segs);
            let copy = bv.clone();
            for i in 0..n {
                bv.flip_bit(i);
            }
            copy
        }
        // everything is toggled back and forth through nested slices
        4 => {
            let mut bv = plain(n, segs);
            for _ in 0..2 {
                let mut s = bv.slice_mut(..);
                let mut t = s.slice_mut(n / 3..);
                for i in 0..t.len() {
                    t.flip_bit(i);
                }
            }
            bv
        }
        // the words of another vector, seen from their fourth bit on
        5 => {
            let mut other = BitVec::new(n + 3);
            (0..3).for_each(|i| other.set_bit(i, true));
            for p in ones(segs) {
                other.set_bit(p + 3, true);
            }
            let mut bv = BitVec::new(n);
            *bv.as_mut() = BitSlice::new(other.backing().clone(), 3, n + 3);
            bv
        }
        _ => plain(n, segs),
    }
}
