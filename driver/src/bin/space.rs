//! Memory use.

use succinct_neo::bit_vec::{BitModify, BitVec};
use succinct_neo::int_vec::IntVec;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch};
use succinct_neo::rank_select::FlatPopcount;

use driver::ctx::{num, Cmd, Ctx, Res};
use driver::mem::{counting, usage, Usage};

/// Runs something and tells by how much it changed what is allocated: bytes, blocks, allocations.
fn measured<T>(f: impl FnOnce() -> T) -> (T, Vec<i64>) {
    let a: Usage = usage();
    counting(true);
    let v = f();
    counting(false);
    let b = usage();
    let d = |x: usize, y: usize| y as i64 - x as i64;
    (v, vec![d(a.bytes, b.bytes), d(a.blocks, b.blocks), d(a.calls, b.calls)])
}

fn drop_measured<T>(ctx: &mut Ctx, v: T) {
    ctx.begin("free", &[], "");
    let (_, m) = measured(|| drop(v));
    ctx.end(&Res::Ints(m));
}

fn bitvec(ctx: &mut Ctx, c: &Cmd) {
    let n = num(&c[1]);
    ctx.begin("bvnew", &[n as i64], "");
    let (v, m) = measured(|| driver::ctx::catch(|| BitVec::new(n)));
    let Some(mut v) = v else {
        counting(false);
        return ctx.end(&Res::Panic);
    };
    ctx.end(&Res::Ints(m));
    let step = (n / 50).max(1);
    for i in (0..n).step_by(step) {
        v.set_bit(i, true);
    }
    ctx.begin("bvclone", &[n as i64], "");
    let (w, m) = measured(|| v.clone());
    ctx.end(&Res::Ints(m));
    drop_measured(ctx, w);
    // a use of it that may not leave anything behind
    ctx.begin("bvuse", &[n as i64], "");
    let (_, m) = measured(|| {
        let mut s = v.slice_mut(..);
        for i in (0..n).step_by(step) {
            s.flip_bit(i);
        }
        drop(s);
        v.iter().filter(|b| *b).count() + v.slice(..).iter().count()
    });
    ctx.end(&Res::Ints(m));
    drop_measured(ctx, v);
}

/// intvec width cap|- count every: pushes count values, reporting after every so many
fn intvec(ctx: &mut Ctx, c: &Cmd) {
    let w = num(&c[1]);
    let cap = (c[2] != "-").then(|| num(&c[2]));
    let (count, every) = (num(&c[3]), num(&c[4]));
    ctx.begin("ivnew", &[w as i64, cap.map_or(-1, |v| v as i64)], "");
    let (mut v, m) = measured(|| match cap {
        Some(k) => IntVec::with_capacity(w, k),
        None => IntVec::new(w),
    });
    ctx.end(&Res::Ints(vec![m[0], m[1], m[2], v.raw_data().len() as i64]));
    let max = usize::MAX >> (64 - w);
    let mut k = 0;
    while k < count {
        let step = every.min(count - k);
        ctx.begin("ivpush", &[step as i64], "");
        let (_, m) = measured(|| {
            for j in 0..step {
                v.push((k + j).wrapping_mul(0x9e37_79b9_7f4a_7c15) & max)
            }
        });
        ctx.end(&Res::Ints(vec![m[0], m[1], m[2], v.raw_data().len() as i64]));
        k += step;
    }
    drop_measured(ctx, v);
}

/// index strategy n start:count:stride ...
fn index(ctx: &mut Ctx, c: &Cmd) {
    let n = num(&c[2]);
    let mut v = BitVec::new(n);
    for t in &c[3..] {
        let p: Vec<usize> = t.split(':').map(num).collect();
        for j in 0..p[1] {
            v.set_bit(p[0] + j * p[2], true);
        }
    }
    ctx.begin("index", &[n as i64], &c[1]);
    macro_rules! go {
        ($t:ty) => {{
            let (f, m) = measured(|| FlatPopcount::<$t>::new(&v));
            ctx.end(&Res::Ints(m));
            drop_measured(ctx, f);
        }};
    }
    match c[1].as_str() {
        "unit" => go!(()),
        "binary" => go!(BinarySearch),
        _ => go!(LinearSearch),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&a[1], &a[2]);
    while let Some(c) = ctx.next() {
        match c[0].as_str() {
            "bitvec" => bitvec(&mut ctx, &c),
            "intvec" => intvec(&mut ctx, &c),
            "index" => index(&mut ctx, &c),
            _ => driver::ctx::bad_script(&c[0]),
        }
    }
}
