//! Rank and select.

use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
#[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

use driver::ctx::{enc, list, num, val, Cmd, Ctx, Res};
use driver::make;

/// Losslessly abbreviates a sequence as runs `[index, first value, step, count]`, where the index of
/// the first element is `start`. A run of one value has step 0.
pub fn runs(start: usize, it: impl Iterator<Item = i64>) -> String {
    let mut out: Vec<[i64; 4]> = Vec::new();
    let mut prev = 0;
    for (i, v) in it.enumerate() {
        match out.last_mut() {
            Some(r) if r[3] == 1 && out_step(v - prev) => {
                r[2] = v - prev;
                r[3] = 2;
            }
            Some(r) if r[3] > 1 && v - prev == r[2] => r[3] += 1,
            _ => out.push([(start + i) as i64, v, 0, 1]),
        }
        prev = v;
    }
    list(out.into_iter().map(list))
}

fn out_step(d: i64) -> bool {
    d.abs() < 1 << 30
}

fn rank_of<S>(f: &FlatPopcount<'_, S>, rt: &str, t: bool, i: usize) -> usize {
    match (rt, t) {
        ("dyn", _) => f.rank_dyn(i, t),
        (_, true) => f.rank::<true>(i),
        _ => f.rank::<false>(i),
    }
}

fn osel(v: Option<usize>) -> i64 {
    v.map_or(-1, val)
}

fn common<S>(ctx: &mut Ctx, c: &Cmd, f: &FlatPopcount<'_, S>) -> bool {
    match c[0].as_str() {
        "close" => {
            ctx.begin("close", &[], "");
            ctx.end(&Res::Ok);
            return false;
        }
        "rank" => {
            let (i, t, rt) = (num(&c[1]), c[2] == "1", c[3].as_str());
            ctx.begin("rank", &[enc(&c[1]), t as i64], rt);
            ctx.call(|| Res::Int(rank_of(f, rt, t, i)))
        }
        // every rank from 0 to the length
        "rsweep" => {
            let (t, rt) = (c[1] == "1", c[2].as_str());
            ctx.begin("rsweep", &[t as i64], rt);
            ctx.call(|| {
                let n = f.len();
                Res::Raw("runs", runs(0, (0..=n).map(|i| val(rank_of(f, rt, t, i)))))
            })
        }
        // ranks of the given indices from one window of indices
        "rwin" => {
            let (a, b, t, rt) = (num(&c[1]), num(&c[2]), c[3] == "1", c[4].as_str());
            ctx.begin("rwin", &[a as i64, b as i64, t as i64], rt);
            ctx.call(|| Res::Raw("runs", runs(a, (a..=b).map(|i| val(rank_of(f, rt, t, i))))))
        }
        "rlen" => {
            ctx.begin("rlen", &[], "");
            ctx.call(|| Res::Int(f.len()))
        }
        "rempty" => {
            ctx.begin("rempty", &[], "");
            ctx.call(|| Res::Bool(f.is_empty()))
        }
        _ => {}
    }
    true
}

fn run_rank<S>(ctx: &mut Ctx, f: Option<FlatPopcount<'_, S>>) {
    let Some(f) = f else { return ctx.skip_closed() };
    while let Some(c) = ctx.next() {
        if !common(ctx, &c, &f) {
            return;
        }
    }
}

fn run_select<S: SelectStrategy>(ctx: &mut Ctx, f: Option<FlatPopcount<'_, S>>) {
    let Some(f) = f else { return ctx.skip_closed() };
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "select" => {
                ctx.begin("select", &[enc(&c[1])], "");
                ctx.call(|| Res::Ints(vec![osel(f.select(num(&c[1])))]))
            }
            // select of every rank below the given bound
            "ssweep" => {
                ctx.begin("ssweep", &[enc(&c[1])], "");
                let m = num(&c[1]);
                ctx.call(|| Res::Raw("runs", runs(0, (0..m).map(|k| osel(f.select(k))))))
            }
            "swin" => {
                let (a, b) = (num(&c[1]), num(&c[2]));
                ctx.begin("swin", &[a as i64, b as i64], "");
                ctx.call(|| Res::Raw("runs", runs(a, (a..=b).map(|k| osel(f.select(k))))))
            }
            _ => {
                if !common(ctx, &c, &f) {
                    return;
                }
            }
        }
    }
}

fn find<S: SelectStrategy>(ctx: &mut Ctx, c: &Cmd) {
    // find strat l1 e0 .. e6: looks up every rank from 0 to 4095
    let l1 = num(&c[2]);
    let e: Vec<usize> = c[3..10].iter().map(|t| num(t)).collect();
    let mut entry = (l1 as u128) << 84;
    for (i, v) in e.iter().enumerate() {
        entry |= (*v as u128) << (72 - 12 * i);
    }
    ctx.begin_x("find", &[], &c[1], &format!("\"e\":{},", list(&e)));
    ctx.call(|| {
        // lossless: a new entry whenever the answer changes
        let mut out: Vec<[i64; 4]> = Vec::new();
        for r in 0..4096usize {
            let (i, p) = S::find_l2(entry, r);
            let (i, p) = (val(i), val(p));
            match out.last_mut() {
                Some(o) if o[2] == i && o[3] == p => o[1] = r as i64,
                _ => out.push([r as i64, r as i64, i, p]),
            }
        }
        Res::Raw("segs", list(out.into_iter().map(list)))
    })
}

fn run(ctx: &mut Ctx) {
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            // vec n history start:count:stride ...
            "vec" => {
                let (n, hist) = (num(&c[1]), num(&c[2]));
                let segs = make::segs(&c[3..]);
                ctx.begin_x("vec", &[n as i64], &c[2], &make::segs_json(&segs));
                let Some(mut bv) = ctx.make(|| make::bits(n, &segs, hist)) else {
                    ctx.skip_closed();
                    continue;
                };
                run_vec(ctx, &mut bv);
            }
            "find" => match c[1].as_str() {
                "linear" => find::<LinearSearch>(ctx, &c),
                "binary" => find::<BinarySearch>(ctx, &c),
                #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
                "simd" => find::<SimdSearch>(ctx, &c),
                _ => {}
            },
            op if driver::ctx::opens(op) => ctx.skip_closed(),
            _ => {}
        }
    }
}

fn run_vec(ctx: &mut Ctx, bv: &mut BitVec) {
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "close" => {
                ctx.begin("close", &[], "");
                ctx.end(&Res::Ok);
                return;
            }
            "rbuild" => {
                let skip = c[1] == "simd" && !cfg!(all(target_feature = "ssse3", target_feature = "sse4.1"));
                if skip {
                    ctx.skip_closed();
                    continue;
                }
                ctx.begin("rbuild", &[], &c[1]);
                match c[1].as_str() {
                    "unit" => {
                        let f = ctx.make(|| FlatPopcount::<()>::new(bv));
                        run_rank(ctx, f)
                    }
                    "binary" => {
                        let f = ctx.make(|| FlatPopcount::<BinarySearch>::new(bv));
                        run_select(ctx, f)
                    }
                    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
                    "simd" => {
                        let f = ctx.make(|| FlatPopcount::<SimdSearch>::new(bv));
                        run_select(ctx, f)
                    }
                    "default" => {
                        let f: Option<FlatPopcount<'_>> = ctx.make(|| FlatPopcount::new(bv));
                        run_select(ctx, f)
                    }
                    _ => {
                        let f = ctx.make(|| FlatPopcount::<LinearSearch>::new(bv));
                        run_select(ctx, f)
                    }
                }
            }
            // other contents in the same place
            "vchange" => {
                let segs = make::segs(&c[2..]);
                ctx.begin_x("vchange", &[], &c[1], &make::segs_json(&segs));
                ctx.call(|| {
                    make::overwrite(bv, &segs, &c[1]);
                    Res::Ok
                })
            }
            // the bits of the vector, abbreviated
            "vsnap" => {
                ctx.begin("vsnap", &[], "");
                ctx.call(|| {
                    Res::Raw("runs", runs(0, (0..bv.len()).filter(|i| bv.get(*i)).map(|i| i as i64)))
                })
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run(&mut Ctx::new(&a[1], &a[2]));
}
