//! Long vectors that are read by several threads at once.

use std::panic::{catch_unwind, AssertUnwindSafe};

use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};

use driver::ctx::{bad_script, list, num, Ctx, Res};
use driver::long::{low_bits, pair, scan, vector};

/// What several threads saw that did the same at the same time.
fn crowd(f: impl Fn() -> Res + Sync) -> Vec<std::thread::Result<Res>> {
    let start = std::sync::Barrier::new(8);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                s.spawn(|| {
                    start.wait();
                    catch_unwind(AssertUnwindSafe(&f))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().and_then(|r| r)).collect()
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&args[1], &args[2]);
    let mut bv = BitVec::new(0);
    let mut iv = IntVec::new(1);
    let mut m = 1;
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "hnew" => {
                let (n, b) = (num(&c[1]), c[2] == "1");
                ctx.begin_x("hnew", &[], "", &format!("\"n\":{},\"b\":{},", pair(n), b as u8));
                bv = BitVec::new(0);
                if let Some(v) = ctx.make(|| vector(n, b)) {
                    bv = v;
                }
            }
            "hflip" => {
                let i = num(&c[2]);
                ctx.begin_x("hflip", &[], "", &format!("\"chain\":[],\"n\":{},", pair(i)));
                ctx.call(|| {
                    bv.flip_bit(i);
                    Res::Ok
                });
            }
            "hinew" => {
                let (w, n) = (num(&c[1]), num(&c[2]));
                ctx.begin_x("hinew", &[], "", &format!("\"n\":{},\"b\":{w},", pair(n)));
                iv = IntVec::new(1);
                m = low_bits(w);
                let made = ctx.make(|| {
                    let mut v = IntVec::with_capacity(w, n);
                    (0..n).for_each(|i| v.push(i & m));
                    v
                });
                if let Some(v) = made {
                    iv = v;
                }
            }
            // every bit is asked for by several threads at once
            "hpeek" => {
                let b = c[3] == "1";
                let seen = crowd(|| {
                    let odd = |k, v| (v != b).then(|| pair(k));
                    match c[2].as_str() {
                        "parget" => scan((0..bv.len()).map(|i| bv.get(i)), 0, "", "", odd),
                        "pariter" => scan(bv.iter(), 0, "", "", odd),
                        "parview" => scan(bv.slice(..).into_iter(), 0, "", "fold", odd),
                        "parraw" => scan((0..bv.len()).map(|i| bv.raw()[i / 64] >> (i % 64) & 1 == 1), 0, "", "", odd),
                        _ => scan((0..bv.len()).map(|i| bv.get_bit(i)), 0, "", "", odd),
                    }
                });
                for r in seen {
                    ctx.begin_x("hpeek", &[], &c[2], &format!("\"chain\":[],\"b\":{},", b as u8));
                    ctx.call(|| r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
                }
            }
            // every integer is asked for by several threads at once
            "hipeek" => {
                let v = &iv;
                let seen = crowd(|| {
                    let odd = |k, v| (v != k & m).then(|| list([pair(k), pair(v)]));
                    match c[1].as_str() {
                        "pariter" => scan(v.iter(), 0, "", "", odd),
                        "paru" => scan((0..v.iter().len()).map(|i| unsafe { v.get_unchecked(i) }), 0, "", "", odd),
                        _ => scan((0..v.iter().len()).map(|i| v.get(i)), 0, "", "", odd),
                    }
                });
                for r in seen {
                    ctx.begin_x("hipeek", &[], &c[1], "");
                    ctx.call(|| r.unwrap_or_else(|e| std::panic::resume_unwind(e)));
                }
            }
            _ => bad_script(&c[0]),
        }
    }
}
