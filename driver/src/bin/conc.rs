//! Several threads query shared objects at once.

use std::collections::BTreeMap;
use std::sync::Barrier;

use succinct_neo::bit_vec::{BitGet, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
#[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
use succinct_neo::rank_select::flat_popcount::SimdSearch;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

use driver::ctx::{bad_script, catch, enc, limbs, list, num, val, Cmd, Ctx};
use driver::make;

struct Indexed<'a> {
    bv: &'a BitVec,
    linear: FlatPopcount<'a, LinearSearch>,
    binary: FlatPopcount<'a, BinarySearch>,
    #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
    simd: FlatPopcount<'a, SimdSearch>,
}

fn indexed(bv: &BitVec) -> Indexed<'_> {
    Indexed {
        bv,
        linear: FlatPopcount::new(bv),
        binary: FlatPopcount::new(bv),
        #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
        simd: FlatPopcount::new(bv),
    }
}

fn ones(it: impl Iterator<Item = bool>) -> String {
    format!("[\"list\",{}]", list(it.enumerate().filter(|x| x.1).map(|x| x.0)))
}

/// One query, with its result as JSON text.
fn ask(c: &[String], vecs: &BTreeMap<usize, Indexed<'_>>, ints: &BTreeMap<usize, IntVec>) -> String {
    let n = |k: usize| num(&c[k]);
    let v = || vecs.get(&n(2)).unwrap_or_else(|| bad_script("slot"));
    let i = || ints.get(&n(2)).unwrap_or_else(|| bad_script("slot"));
    let rt = c[1].as_str();
    let r = catch(|| match c[0].as_str() {
        "get" => {
            let b = match rt {
                "bit" => v().bv.get_bit(n(3)),
                "alias" => v().bv.get(n(3)),
                _ => unsafe { v().bv.get_bit_unchecked(n(3)) },
            };
            format!("[\"bool\",{}]", b as u8)
        }
        "rank" => {
            let x = v();
            let r = match (rt, n(4)) {
                ("binary", 1) => x.binary.rank::<true>(n(3)),
                ("binary", _) => x.binary.rank::<false>(n(3)),
                ("dyn", t) => x.linear.rank_dyn(n(3), t == 1),
                #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
                ("simd", 1) => x.simd.rank::<true>(n(3)),
                (_, 1) => x.linear.rank::<true>(n(3)),
                _ => x.linear.rank::<false>(n(3)),
            };
            format!("[\"int\",{}]", val(r))
        }
        "select" => {
            let x = v();
            let r = match rt {
                "binary" => x.binary.select(n(3)),
                #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
                "simd" => x.simd.select(n(3)),
                _ => x.linear.select(n(3)),
            };
            format!("[\"int\",{}]", r.map_or(-1, val))
        }
        // the ones in a window
        "bits" => match rt {
            "iter" => ones(v().bv.slice(n(3)..n(4)).iter()),
            "own" => ones(v().bv.slice(n(3)..n(4)).into_iter()),
            _ => {
                let s = v().bv.slice(n(3)..n(4));
                ones((0..s.len()).map(|k| s.get_bit(k)))
            }
        },
        "len" => format!("[\"int\",{}]", if rt == "index" { v().linear.len() } else { v().bv.len() }),
        "eq" => {
            let w = vecs.get(&n(5)).unwrap_or_else(|| bad_script("slot"));
            let e = v().bv.slice(n(3)..n(4)) == w.bv.slice(n(6)..n(7));
            format!("[\"bool\",{}]", e as u8)
        }
        "debug" => format!("[\"list\",{}]", list(format!("{:?}", v().bv).bytes())),
        // the ones according to the words
        "raw" => {
            let w = v().bv.raw();
            ones(w.iter().flat_map(|x| (0..64).map(move |k| x >> k & 1 == 1)))
        }
        "iget" => {
            let r = if rt == "unchecked" { unsafe { i().get_unchecked(n(3)) } } else { i().get(n(3)) };
            format!("[\"val\",{}]", limbs(r))
        }
        "ivals" => format!("[\"vals\",{}]", list(i().iter().map(limbs))),
        op => bad_script(op),
    });
    r.unwrap_or_else(|| "[\"panic\",0]".to_string())
}

/// Runs the queries of each thread several times over and collects the distinct answers to each.
fn go(
    ctx: &mut Ctx,
    queries: &[(usize, Cmd)],
    reps: usize,
    vecs: &BTreeMap<usize, Indexed<'_>>,
    ints: &BTreeMap<usize, IntVec>,
) {
    let threads = queries.iter().map(|q| q.0).max().map_or(0, |t| t + 1);
    let barrier = Barrier::new(threads);
    let mut answers: Vec<Vec<String>> = vec![Vec::new(); queries.len()];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mine: Vec<usize> = (0..queries.len()).filter(|k| queries[*k].0 == t).collect();
                    let mut out: BTreeMap<usize, Vec<String>> = BTreeMap::new();
                    barrier.wait();
                    for r in 0..reps {
                        for j in 0..mine.len() {
                            // forwards, backwards, and from different starting points
                            let j = if r % 2 == 0 { j } else { mine.len() - 1 - j };
                            let k = mine[(j + r / 2 * 7) % mine.len()];
                            let a = ask(&queries[k].1, vecs, ints);
                            let seen = out.entry(k).or_default();
                            if !seen.contains(&a) {
                                seen.push(a);
                            }
                        }
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            for (k, a) in h.join().unwrap() {
                answers[k] = a;
            }
        }
    });
    for ((t, c), a) in queries.iter().zip(answers) {
        let args: Vec<i64> = c[2..].iter().map(|t| enc(t)).collect();
        ctx.begin_x(&c[0], &args, &c[1], &format!("\"th\":{t},"));
        ctx.end(&driver::ctx::Res::Raw("each", list(a)));
    }
}

/// A query whose arguments have been looked up, so that it can be put many times in a row.
enum Quick<'a> {
    Get(&'a BitVec, usize),
    Linear(&'a FlatPopcount<'a, LinearSearch>, usize),
    Binary(&'a FlatPopcount<'a, BinarySearch>, usize),
    LinearRank(&'a FlatPopcount<'a, LinearSearch>, usize, bool),
    BinaryRank(&'a FlatPopcount<'a, BinarySearch>, usize, bool),
    Int(&'a IntVec, usize),
    Slow(&'a [String]),
}

impl Quick<'_> {
    #[inline]
    fn ask(&self) -> Option<usize> {
        match self {
            Quick::Get(b, i) => Some(b.get(*i) as usize),
            Quick::Linear(x, k) => x.select(*k),
            Quick::Binary(x, k) => x.select(*k),
            Quick::LinearRank(x, i, t) => Some(x.rank_dyn(*i, *t)),
            Quick::BinaryRank(x, i, true) => Some(x.rank::<true>(*i)),
            Quick::BinaryRank(x, i, false) => Some(x.rank::<false>(*i)),
            Quick::Int(v, i) => Some(v.get(*i)),
            Quick::Slow(_) => None,
        }
    }

    fn show(&self, r: Option<usize>) -> String {
        match self {
            Quick::Get(..) => format!("[\"bool\",{}]", r.unwrap()),
            Quick::Int(..) => format!("[\"val\",{}]", limbs(r.unwrap())),
            _ => format!("[\"int\",{}]", r.map_or(-1, val)),
        }
    }
}

/// Like `go`, with as little as possible between the queries.
fn storm(
    ctx: &mut Ctx,
    queries: &[(usize, Cmd)],
    reps: usize,
    vecs: &BTreeMap<usize, Indexed<'_>>,
    ints: &BTreeMap<usize, IntVec>,
) {
    let threads = queries.iter().map(|q| q.0).max().map_or(0, |t| t + 1);
    let barrier = Barrier::new(threads);
    let mut answers: Vec<Vec<String>> = vec![Vec::new(); queries.len()];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mine: Vec<usize> = (0..queries.len()).filter(|k| queries[*k].0 == t).collect();
                    let quick: Vec<Quick> = mine
                        .iter()
                        .map(|k| {
                            let c = &queries[*k].1;
                            let n = |j: usize| num(&c[j]);
                            match (c[0].as_str(), c[1].as_str()) {
                                ("get", _) => Quick::Get(vecs[&n(2)].bv, n(3)),
                                ("select", "binary") => Quick::Binary(&vecs[&n(2)].binary, n(3)),
                                ("select", "linear") => Quick::Linear(&vecs[&n(2)].linear, n(3)),
                                ("rank", "binary") => Quick::BinaryRank(&vecs[&n(2)].binary, n(3), n(4) == 1),
                                ("rank", "linear") => Quick::LinearRank(&vecs[&n(2)].linear, n(3), n(4) == 1),
                                ("iget", _) => Quick::Int(&ints[&n(2)], n(3)),
                                _ => Quick::Slow(c),
                            }
                        })
                        .collect();
                    let mut first: Vec<Option<Option<usize>>> = vec![None; mine.len()];
                    let mut out: Vec<Vec<String>> = vec![Vec::new(); mine.len()];
                    barrier.wait();
                    for r in 0..reps {
                        for j in 0..mine.len() {
                            let q = &quick[j];
                            if let Quick::Slow(c) = q {
                                if r % 500 == 0 {
                                    let a = ask(c, vecs, ints);
                                    if !out[j].contains(&a) {
                                        out[j].push(a);
                                    }
                                }
                                continue;
                            }
                            let a = catch(|| q.ask());
                            if a.is_some() && a == first[j] {
                                continue;
                            }
                            first[j] = a;
                            let a = a.map_or("[\"panic\",0]".to_string(), |a| q.show(a));
                            if !out[j].contains(&a) {
                                out[j].push(a);
                            }
                        }
                    }
                    mine.into_iter().zip(out).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for (k, a) in h.join().unwrap() {
                answers[k] = a;
            }
        }
    });
    for ((t, c), a) in queries.iter().zip(answers) {
        let args: Vec<i64> = c[2..].iter().map(|t| enc(t)).collect();
        ctx.begin_x(&c[0], &args, &c[1], &format!("\"th\":{t},"));
        ctx.end(&driver::ctx::Res::Raw("each", list(a)));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&a[1], &a[2]);
    while let Some(c) = ctx.next() {
        // world: objects up to `begin`, then queries and `go`, up to `end`
        if c[0] != "world" {
            bad_script(&c[0])
        }
        ctx.begin("world", &[], "");
        ctx.end(&driver::ctx::Res::Ok);
        let mut bvs: BTreeMap<usize, BitVec> = BTreeMap::new();
        let mut ints: BTreeMap<usize, IntVec> = BTreeMap::new();
        loop {
            let c = ctx.next().unwrap_or_else(|| bad_script("begin"));
            match c[0].as_str() {
                // cvec slot n history start:count:stride ...
                "cvec" => {
                    let (s, n, h) = (num(&c[1]), num(&c[2]), num(&c[3]));
                    let segs = make::segs(&c[4..]);
                    ctx.begin_x("cvec", &[s as i64, n as i64], &c[3], &make::segs_json(&segs));
                    match ctx.make(|| make::bits(n, &segs, h)) {
                        Some(b) => bvs.insert(s, b),
                        // there is nothing to ask
                        None => return,
                    };
                }
                // cint slot width values
                "cint" => {
                    let (s, w) = (num(&c[1]), num(&c[2]));
                    let vals: Vec<usize> =
                        c[3..].iter().map(|t| usize::from_str_radix(t, 16).unwrap()).collect();
                    let v = list(vals.iter().map(|v| limbs(*v)));
                    ctx.begin_x("cint", &[s as i64, w as i64], "", &format!("\"v\":{v},"));
                    let x = ctx.make(|| {
                        let mut x = IntVec::new(w);
                        vals.iter().for_each(|v| x.push(*v));
                        x
                    });
                    match x {
                        Some(x) => ints.insert(s, x),
                        None => return,
                    };
                }
                "begin" => break,
                op => bad_script(op),
            }
        }
        ctx.begin("build", &[], "");
        let Some(vecs) =
            ctx.make(|| bvs.iter().map(|(s, b)| (*s, indexed(b))).collect::<BTreeMap<_, _>>())
        else {
            return;
        };
        let mut queries: Vec<(usize, Cmd)> = Vec::new();
        loop {
            let c = ctx.next().unwrap_or_else(|| bad_script("end"));
            match c[0].as_str() {
                // q thread op route args
                "q" => queries.push((num(&c[1]), c[2..].to_vec())),
                "go" => {
                    go(&mut ctx, &queries, num(&c[1]), &vecs, &ints);
                    queries.clear();
                }
                "storm" => {
                    storm(&mut ctx, &queries, num(&c[1]), &vecs, &ints);
                    queries.clear();
                }
                "end" => break,
                op => bad_script(op),
            }
        }
    }
}
