//! Two threads work on the two mutable halves of a split.

use std::sync::Barrier;

use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};

use driver::ctx::{bad_script, list, num, Ctx, Res};

/// set i v, flip i, get i
type Prog = Vec<(usize, usize, bool)>;

fn prog(tok: &str) -> Prog {
    tok.split(',')
        .filter(|t| *t != "-")
        .map(|t| {
            let v = num(t[1..].trim_end_matches(['+', '-']));
            match &t[..1] {
                "s" => (0, v, t.ends_with('+')),
                "f" => (1, v, false),
                "g" => (2, v, false),
                _ => bad_script(t),
            }
        })
        .collect()
}

fn json(p: &Prog) -> String {
    list(p.iter().map(|c| list([c.0, c.1, c.2 as usize])))
}

/// Runs the program many times and returns the answers each of its reads ever got.
fn run<B: BitModify + BitGet>(mut half: BitSlice<B>, p: &Prog, reps: usize, b: &Barrier) -> Vec<Vec<usize>> {
    let mut seen = vec![[false; 2]; p.iter().filter(|c| c.0 == 2).count()];
    b.wait();
    for _ in 0..reps {
        let mut r = 0;
        for &(op, i, v) in p {
            match op {
                0 => half.set_bit(i, v),
                1 => half.flip_bit(i),
                _ => {
                    seen[r][half.get_bit(i) as usize] = true;
                    r += 1;
                }
            }
        }
    }
    seen.iter().map(|s| (0..2).filter(|v| s[*v]).collect()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx::new(&a[1], &a[2]);
    // halves n lo hi k reps program1 program2 one,one,...
    while let Some(c) = ctx.next() {
        let v: Vec<usize> = c[1..6].iter().map(|t| num(t)).collect();
        let (n, lo, hi, k, reps) = (v[0], v[1], v[2], v[3], v[4]);
        let (p1, p2) = (prog(&c[6]), prog(&c[7]));
        let ini: Vec<usize> = c[8].split(',').skip(1).map(num).collect();
        let extra = format!("\"p1\":{},\"p2\":{},\"ini\":{},", json(&p1), json(&p2), list(&ini));
        ctx.begin_x("halves", &[n as i64, lo as i64, hi as i64, k as i64], "", &extra);
        ctx.call(|| {
            let mut bv = BitVec::new(n);
            ini.iter().for_each(|p| bv.set_bit(*p, true));
            let mut win = bv.slice_mut(lo..hi);
            let (l, r) = win.split_at_mut(k);
            let b = Barrier::new(2);
            let (r1, r2) = std::thread::scope(|s| {
                let h1 = s.spawn(|| run(l, &p1, reps, &b));
                let h2 = s.spawn(|| run(r, &p2, reps, &b));
                (h1.join().unwrap(), h2.join().unwrap())
            });
            let ones = (0..n).filter(|i| bv.get_bit(*i));
            Res::Raw(
                "halves",
                format!(
                    "{{\"ones\":{},\"r1\":{},\"r2\":{}}}",
                    list(ones),
                    list(r1.iter().map(list)),
                    list(r2.iter().map(list))
                ),
            )
        })
    }
}
