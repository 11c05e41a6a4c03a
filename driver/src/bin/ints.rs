//! Integer vectors.

use std::collections::BTreeMap;

use succinct_neo::int_vec::{IntAccess, IntVec};

use driver::ctx::{enc, limbs, list, num, Ctx, Res};

/// A value token: hexadecimal.
fn value(tok: &str) -> usize {
    usize::from_str_radix(tok, 16).unwrap()
}

fn vres(v: usize) -> Res {
    Res::Raw("val", limbs(v))
}

fn ovres(v: Option<usize>) -> Res {
    match v {
        Some(v) => vres(v),
        None => Res::Raw("none", "0".into()),
    }
}

fn vals_res(v: Vec<usize>) -> Res {
    Res::Raw("vals", list(v.into_iter().map(limbs)))
}

/// Commands on an iterator over integers.
fn run_iter(ctx: &mut Ctx, it: Option<impl ExactSizeIterator<Item = usize>>) {
    let Some(it) = it else { return ctx.skip_closed() };
    let mut slot = Some(it);
    while let Some(c) = ctx.next() {
        if c[0] == "close" {
            ctx.begin("close", &[], "");
            ctx.end(&Res::Ok);
            return;
        }
        // consumed by an earlier command
        if slot.is_none() {
            continue;
        }
        let arg = c.get(1).map_or("", String::as_str);
        match c[0].as_str() {
            "drain" | "count" | "last" if arg != "next" => {
                ctx.begin(&c[0], &[], arg);
                let it = slot.take().unwrap();
                ctx.call(|| match (c[0].as_str(), arg) {
                    ("drain", "fold") => vals_res(it.fold(Vec::new(), |mut a, b| {
                        a.push(b);
                        a
                    })),
                    ("drain", _) => vals_res(it.collect()),
                    ("count", _) => Res::Int(it.count()),
                    _ => ovres(it.last()),
                })
            }
            op => {
                let it = slot.as_mut().unwrap();
                match op {
                    "drain" => {
                        ctx.begin("drain", &[], "next");
                        ctx.call(|| {
                            let mut a = Vec::new();
                            while let Some(b) = it.next() {
                                a.push(b);
                                if a.len() >= 1 << 20 {
                                    break;
                                }
                            }
                            vals_res(a)
                        })
                    }
                    "next" => {
                        ctx.begin("next", &[], "");
                        ctx.call(|| ovres(it.next()))
                    }
                    "nth" => {
                        ctx.begin("nth", &[enc(arg)], "");
                        ctx.call(|| ovres(it.nth(num(arg))))
                    }
                    "ilen" => {
                        ctx.begin("ilen", &[], "");
                        ctx.call(|| Res::Int(it.len()))
                    }
                    "ihint" => {
                        ctx.begin("ihint", &[], "");
                        ctx.call(|| {
                            let (lo, hi) = it.size_hint();
                            Res::Ints(vec![driver::ctx::val(lo), hi.map_or(-1, driver::ctx::val)])
                        })
                    }
                    "adlen" => {
                        ctx.begin("adlen", &[enc(arg)], "");
                        ctx.call(|| Res::Int(it.skip(num(arg)).len()))
                    }
                    _ => {}
                }
            }
        }
    }
}

fn run(ctx: &mut Ctx) {
    let mut slots: BTreeMap<usize, IntVec> = BTreeMap::new();
    while let Some(c) = ctx.next() {
        let op = c[0].as_str();
        match op {
            "inew" => {
                let s = num(&c[1]);
                ctx.begin("inew", &[s as i64, enc(&c[2])], "");
                let v = ctx.make(|| IntVec::new(num(&c[2])));
                slots.remove(&s);
                if let Some(v) = v {
                    slots.insert(s, v);
                }
            }
            "icap" => {
                let s = num(&c[1]);
                ctx.begin("icap", &[s as i64, enc(&c[2]), enc(&c[3])], "");
                let v = ctx.make(|| IntVec::with_capacity(num(&c[2]), num(&c[3])));
                slots.remove(&s);
                if let Some(v) = v {
                    slots.insert(s, v);
                }
            }
            _ => {
                let s = num(&c[1]);
                if op == "iiter" && c[2] == "own" {
                    let Some(v) = slots.remove(&s) else {
                        ctx.skip_closed();
                        continue;
                    };
                    ctx.begin("iiter", &[s as i64], "own");
                    let it = ctx.make(|| v.into_iter());
                    run_iter(ctx, it);
                    continue;
                }
                let Some(v) = slots.get_mut(&s) else {
                    if driver::ctx::opens(op) {
                        ctx.skip_closed();
                    }
                    continue;
                };
                match op {
                    "push" => {
                        let x = value(&c[2]);
                        ctx.begin_x("push", &[s as i64], "", &format!("\"v\":{},", limbs(x)));
                        ctx.call(|| {
                            v.push(x);
                            Res::Ok
                        })
                    }
                    // many values, one after the other
                    "pushes" => {
                        let xs: Vec<usize> = c[2..].iter().map(|t| value(t)).collect();
                        let all = list(xs.iter().map(|x| limbs(*x)));
                        ctx.begin_x("pushes", &[s as i64], "", &format!("\"v\":{all},"));
                        ctx.call(|| {
                            for x in xs {
                                v.push(x);
                            }
                            Res::Ok
                        })
                    }
                    "iset" => {
                        let (i, x, rt) = (num(&c[2]), value(&c[3]), c[4].as_str());
                        let extra = format!("\"v\":{},", limbs(x));
                        ctx.begin_x("iset", &[s as i64, enc(&c[2])], rt, &extra);
                        ctx.call(|| {
                            match rt {
                                "unchecked" => unsafe { v.set_unchecked(i, x) },
                                "dyn" => {
                                    let d: &mut dyn IntAccess = v;
                                    d.set(i, x)
                                }
                                _ => v.set(i, x),
                            }
                            Res::Ok
                        })
                    }
                    "iget" => {
                        let (i, rt) = (num(&c[2]), c[3].as_str());
                        ctx.begin("iget", &[s as i64, enc(&c[2])], rt);
                        ctx.call(|| {
                            vres(match rt {
                                "unchecked" => unsafe { v.get_unchecked(i) },
                                "dyn" => {
                                    let d: &dyn IntAccess = v;
                                    d.get(i)
                                }
                                _ => v.get(i),
                            })
                        })
                    }
                    // all elements, read one by one
                    "isnap" => {
                        ctx.begin("isnap", &[s as i64], "");
                        ctx.call(|| {
                            let n = v.iter().len().min(1 << 20);
                            Res::Raw("vals", list((0..n).map(|i| limbs(v.get(i)))))
                        })
                    }
                    "iraw" => {
                        ctx.begin("iraw", &[s as i64], "");
                        ctx.call(|| Res::Raw("vals", list(v.raw_data().iter().map(|w| limbs(*w)))))
                    }
                    "iempty" => {
                        ctx.begin("iempty", &[s as i64], "");
                        ctx.call(|| Res::Bool(v.is_empty()))
                    }
                    "ilenv" => {
                        ctx.begin("ilenv", &[s as i64], "");
                        ctx.call(|| Res::Int(v.iter().len()))
                    }
                    "iiter" => {
                        ctx.begin("iiter", &[s as i64], &c[2]);
                        if c[2] == "ref" {
                            let it = ctx.make(|| (&*v).into_iter());
                            run_iter(ctx, it)
                        } else {
                            let it = ctx.make(|| v.iter());
                            run_iter(ctx, it)
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    run(&mut Ctx::new(&a[1], &a[2]));
}
