#!/usr/bin/env python3
"""check.py <property>: decides one property against the working tree of /repo."""
import concurrent.futures as cf
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_bits as gb
import gen_conc as gc
import gen_huge as gh
import gen_ints as gi
import gen_rank as gr
from tour import tours
import xtask
from vf import JOBS, Episode, ToolError, build, have_simd, known_findings, main, short

ALL_KINDS = ("bv", "bv", "bv", "bv", "words", "u8", "u16", "u32", "u64", "usize")
KIND_CODE = {"bv": 0, "words": 1, "u8": 2, "u16": 3, "u32": 4, "u64": 5, "usize": 6}
RW = ("debug", "release")


def S(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in sorted(xs)) + "}"


# ------------------------------------------------------------------- state graph tours

class Renderer:
    """Adds to the calls of the specification what it leaves open: the route taken."""

    def __init__(self, rng, kind, n, start, get=("bit", "alias"), set_=("bit", "alias"),
                 unchecked=(), slice_rt=("checked",), view_rt=("ref", "box"), iter_rt=("iter", "ref", "own", "new"),
                 eq_rt=("ii", "im", "mi", "mm"), raw_rt=("", "asref", "backing"), snap_writes=0.1):
        self.__dict__.update(locals())

    def __call__(self, call, tag):
        r = self.rng
        t = call.split(" ")
        op = t[0]
        t = [x for x in t if x != ""]
        if op == "new":
            return [f"new 0 {self.kind} {self.n} " + " ".join(map(str, self.start))]
        if op in ("get", "set", "flip"):
            base = self.get if op == "get" else self.set_
            rts = list(base)
            if tag != "panic":
                rts += self.unchecked
            out = [" ".join(t + [r.choice(rts)])]
            if op != "get" and r.random() < self.snap_writes and self.kind == "bv":
                out.append(f"wsnap {t[1]}")
            return out
        if op == "slice":
            rts = self.slice_rt if tag != "panic" else ("checked",)
            return [" ".join(t + [r.choice(rts)])]
        if op == "view":
            return [" ".join(t + [r.choice(self.view_rt)])]
        if op == "clone":
            return [" ".join(t + [r.choice(["clone", "from", "owned"])])]
        if op == "debug":
            return [" ".join(t + [r.choice(["", "", "alt", "width", "hex", "ref", "prec", "fill", "plus", "nested"])]).strip()]
        if op == "iter":
            return [" ".join(t + [r.choice(self.iter_rt)])]
        if op == "eq":
            return [" ".join(t + [r.choice(self.eq_rt if t[1] != t[4] else ("ii", "viewii"))])]
        if op == "raw":
            return [" ".join(t + ([x] if (x := r.choice(self.raw_rt)) else []))]
        if op == "drain":
            return [call] if t[1] == "next" else [f"drain {r.choice(['collect', 'fold'])}"]
        return [" ".join(t)]


def bit_tour(chk, kind, n, start, pts, bnds, depth, ops, bounds=(1,), slots=(0,), kinds=RW, own=None,
             finish=("snap 0", "raw 0"), **rt):
    """Enumerates the specification's state graph with TLC and replays every transition."""
    es = chk.edges("BitGen", {
        "Slots": S(slots), "Kind": KIND_CODE[kind], "N": n, "Start": S(start), "Pts": S(pts),
        "Bnds": S(bnds), "Depth": depth, "Bounds": S(bounds), "Ops": S(ops)},
        invariants=["StoreTypeOK", "SplitDisjoint"])
    eps, total = tours(chk.rng, es, Renderer(chk.rng, kind, n, start, **rt),
                       finish=lambda: list(finish))
    chk.extra_cov["transitions_toured"] = chk.extra_cov.get("transitions_toured", 0) + total
    chk.samples.append({"kind": "transition of the specification", "call": es[-1][1],
                        "from": es[-1][0][:200], "to": es[-1][2][:200]})
    chk.conform("bits", "BitTrace", eps, kinds=kinds, own=own)


def bit_random(chk, prof, count, kinds=RW, make=gb.episode, own=None, **kw):
    eps = [make(chk.rng, prof) for _ in range(count)]
    chk.conform("bits", "BitTrace", eps, kinds=kinds, own=own, **kw)


def long_ones(chk, make, make_huge, lens, huge, own=None, debug_huge=True):
    """Vectors that are long, and vectors with positions beyond 2^32."""
    eps = [make(n) for n in lens]
    chk.conform("huge", "HugeTrace", eps, own=own, chunk_events=900)
    eps = [make_huge() for _ in range(huge)]
    chk.conform("huge", "HugeTrace", eps, own=own, kinds=RW if debug_huge else ("release",), per_proc=1, guards=("",),
                timeout=200, mem_gb=8)


def long_bits(chk, own=None, calls=150, quick=(12, 2), thorough=(150, 8)):
    a, b = thorough if chk.thorough else quick
    r = chk.rng
    long_ones(chk, lambda n: gh.bits(r, calls, n), lambda: gh.bits(r, 2 * calls), [gh.length(r) for _ in range(a)], b, own)


def everywhere(chk, own=None, lens=None, **kw):
    r = chk.rng
    lens = lens or [r.randrange(1, 200), 4096, 4096 + r.randrange(300), r.randrange(5000, 20000), (1 << 16) + r.randrange(100), (1 << 17) + r.randrange(1000)] * n_of(chk, 1, 8)
    chk.conform("huge", "HugeTrace", [gh.everywhere(r, n, **kw) for n in lens], own=own)
    chk.conform("huge", "HugeTrace", [gh.everywhere(r, (1 << 20) + r.randrange(2000), **kw) for _ in range(n_of(chk, 1, 4))], own=own, kinds=("release",))


def all_windows(chk, own=None, quick=0.2, **kw):
    """All windows of short vectors, and all windows of some lengths of longer ones."""
    r = chk.rng
    g = {"guards": ("",)} if "bad" in kw.get("hows", ()) else {}
    eps = [gh.windows(r, n, share=1.0 if chk.thorough else quick, **kw) for n in [130, 192 + r.randrange(20)] * n_of(chk, 1, 3)]
    eps += [gh.slides(r, n, **kw) for n in [300 + r.randrange(300), 4100 + r.randrange(4200)] * n_of(chk, 1, 5)]
    chk.conform("huge", "HugeTrace", eps, own=own, per_proc=1, **g)


def int_everywhere(chk, own=None, **kw):
    r = chk.rng
    eps = [gh.int_everywhere(r, w, r.choice([70, 130, 4096, 5000, 5000]) + r.randrange(64), **kw) for w in range(1, 65)]
    eps += [gh.int_everywhere(r, r.choice([1, 2, 3, 7, 20, 33, 63, 64]), 66000 + r.randrange(100), **kw) for _ in range(n_of(chk, 2, 30))]
    chk.conform("huge", "HugeTrace", eps, own=own)


def long_sizes(chk, own=None):
    eps = gh.sizes(chk.rng, range(6, 34), n_of(chk, 6, 100))
    chk.conform("huge", "HugeTrace", eps, own=own, per_proc=4, guards=("",), timeout=200, mem_gb=8)


def long_ints(chk, own=None, calls=100):
    r = chk.rng
    long_ones(chk, lambda n: gh.ints(r, calls, r.randrange(1, 65), n), lambda: gh.ints(r, 2 * calls, r.choice([20, 31, 33, 48, 63, 64])),
              [r.choice([65536, 65537, 70000, 300000]) + r.randrange(500) for _ in range(n_of(chk, 8, 80))], n_of(chk, 2, 6), own,
              debug_huge=False)
    if chk.thorough:
        chk.conform("huge", "HugeTrace", [gh.ints(r, 300, 1), gh.ints(r, 300, 2), gh.ints(r, 300, 7)], own=own, kinds=("release",),
                    per_proc=1, guards=("",), timeout=200, mem_gb=8)


def long_ranks(chk, own):
    r = chk.rng
    k = iter(range(10**6))
    long_ones(chk, lambda n: gh.ranks(r, 60, r.randrange(2), n), lambda: gh.ranks(r, 150, next(k) % 2),
              [gh.length(r) for _ in range(n_of(chk, 8, 60))], n_of(chk, 2, 6), own, debug_huge=False)


def ops_in(*ops):
    return lambda ev, ep: ev["op"] in ops


WORDS = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64)]


def every_word(chk, get, set_, look="snap 0", own=None, quick=1.0):
    """Every bit of every kind of word under patterns of the others."""
    eps = gb.word_patterns(chk.rng, WORDS, get, set_, look, 1.0 if chk.thorough else quick)
    for kind, n in [("words", 128), ("bv", 130)]:
        eps += gb.word_patterns(chk.rng, [(kind, n)], get, set_, look, 1.0 if chk.thorough else quick / 6)
    chk.conform("bits", "BitTrace", eps, own=own)


CUTS = [0, 1, 63, 64, 65, 127, 128, 129, 191, 192]


def n_of(chk, quick, thorough):
    return thorough if chk.thorough else quick


# ------------------------------------------------------------------- the properties

SLICES = ("checked", "checked", "unchecked")


def word_model(chk):
    chk.model("WordBits", {"N": n_of(chk, 10, 14), "W": 4}, invariants=["Same", "Padding", "InWord"])


def pack_model(chk):
    chk.model("IntPack", {"B": 3, "MaxLen": n_of(chk, 4, 5)}, invariants=["Sequence", "WordCount", "Packed"])
    chk.model("IntPack", {"B": 4, "MaxLen": n_of(chk, 3, 4)}, invariants=["Sequence", "WordCount", "Packed"])


def c01(chk):
    big = chk.thorough
    word_model(chk)
    for kind, n in [("bv", 129), ("bv", 64), ("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("words", 128)] \
            + ([("bv", 193), ("bv", 1), ("bv", 63), ("usize", 64), ("words", 64)] if big else []):
        pts = sorted({0, n - 1, n // 2, min(63, n - 1), min(64, n - 1)} | ({1, n - 2} if big and n > 2 else set()))
        bit_tour(chk, kind, n, [p for p in pts if p % 2], pts, [0], 1,
                 {"open", "get", "set", "flip", "snap"} | ({"len", "empty"} if kind == "bv" else set()),
                 set_=("bit", "alias", "bv") if kind == "bv" else ("bit",), finish=("snap 0",))
    prof = gb.Profile({"get": 4, "set": 4, "flip": 3, "len": 0.2, "wsnap": 0.5}, kinds=ALL_KINDS,
                      length=120, snap_every=0.05)
    bit_random(chk, prof, n_of(chk, 500, 6000))
    every_word(chk, gb.GET_PLAIN, ["bit"])
    # every position of a vector is toggled and set, with a look at everything in between
    eps = []
    for n in gb.SIZES + ([1000, 4097] if big else []):
        L = [f"new 0 bv {n}", "snap 0", "open 0"]
        for i in range(n):
            L += [f"{'flip 0 %d' % i if i % 3 else 'set 0 %d 1' % i} {chk.rng.choice(['bit', 'alias', 'bv'])}"]
            if i % 17 == 0:
                L.append("wsnap 0")
        for i in range(0, n, 2):
            L.append(f"set 0 {i} 0 {chk.rng.choice(['bit', 'alias', 'bv'])}")
        eps.append(Episode(L + ["wsnap 0", "close", "snap 0"], "every position"))
    chk.conform("bits", "BitTrace", eps)
    long_sizes(chk)
    long_bits(chk)
    everywhere(chk)


def c02(chk):
    t = chk.thorough
    ops = {"open", "get", "set", "flip", "slice", "split", "wsnap", "len", "empty"}
    bit_tour(chk, "bv", 129, [0, 64], [0, 63, 64, 128], [0, 63, 64, 129], 3 if t else 2, ops, bounds=range(9), slice_rt=SLICES)
    bit_tour(chk, "bv", 129, [63], [63, 64, 128], [0, 64, 65, 129], 3, ops, bounds=(1, 5, 6), slice_rt=SLICES)
    if t:
        bit_tour(chk, "bv", 70, [63], [63, 64], [0, 1, 64, 70], 4, ops, bounds=(1,))
    bit_tour(chk, "words", 128, [63, 64], [0, 63, 64, 127], [0, 63, 64, 128], 3, ops - {"slice", "split", "wsnap", "len", "empty"} | {"view"})
    prof = gb.Profile({"get": 3, "set": 3, "flip": 2, "slice": 1.5, "split": 1, "view": 0.7, "len": 0.3,
                       "empty": 0.2, "wsnap": 1}, kinds=("bv", "bv", "bv", "bv", "words", "u64", "u32", "u8"),
                      depth=3, length=90, snap_every=0.15, slice_unchecked=0.25)
    bit_random(chk, prof, n_of(chk, 700, 9000))
    for n in (192, 193) + ((200, 320) if t else ()):
        chk.conform("bits", "BitTrace", gb.cuts(chk.rng, n, CUTS + [n], prof, share=1.0 if t or n == 192 else 0.3, writes=True))
    chk.conform("bits", "BitTrace", gb.long_cuts(chk.rng, (0, 1)))
    long_bits(chk)
    everywhere(chk, eaches=3)
    if not t:
        return
    # all windows of one vector, in all ways to write the bounds
    eps = []
    n = 130
    for a in list(range(0, 8)) + list(range(60, 70)) + list(range(124, 131)):
        for b in range(a, n + 1):
            g = gb.Gen(chk.rng, prof)
            sk, s = g.bound(True, a, n)
            ek, e = g.bound(False, b, n)
            ones = [i for i in range(n) if i * i % 7 < 3]
            L = [f"new 0 bv {n} " + " ".join(map(str, ones)), "open 0",
                 f"slice 0 {chk.rng.randrange(2)} {sk} {s} {ek} {e} checked", "wsnap 0", "len 0", "empty 0", "close", "close"]
            eps.append(Episode(L, "all windows"))
    chk.conform("bits", "BitTrace", eps)
    all_windows(chk)


def c03(chk):
    t = chk.thorough
    ops = {"open", "get", "set", "flip", "slice", "split", "view", "snap"}
    for kind, n in [("bv", 129), ("bv", 64), ("bv", 1)] + ([("bv", 0), ("bv", 128)] if t else []):
        bit_tour(chk, kind, n, [0] if n else [], sorted({0, n - 1} - {-1}), sorted({0, n // 2, n}), 2, ops,
                 bounds=range(9), set_=("bit", "alias", "bv"))
    bit_tour(chk, "bv", 70, [0, 64], [64], [0, 64, 70], 3, ops, bounds=range(9) if t else (0, 1, 4, 5))
    for kind, n in [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("words", 64)]:
        bit_tour(chk, kind, n, [n - 1], [0, n - 1], [0, n], 2, ops - {"slice", "split"}, set_=("bit",))
    prof = gb.Profile({"get": 3, "set": 3, "flip": 3, "slice": 2, "split": 1.5, "view": 1.5, "wsnap": 0.5, "len": 0.2},
                      kinds=ALL_KINDS, routes=("plain", "wrap"), bad=0.45, depth=3, length=90, view_over=0.4,
                      ends=("snap", "raws"))
    bit_random(chk, prof, n_of(chk, 900, 10000))
    chk.conform("bits", "BitTrace", [gb.inner_episode(chk.rng) for _ in range(n_of(chk, 150, 2000))])
    long_bits(chk)
    lens = [1, 2, 63, 64, 65, 127, 128, 129, 192, 512, 4096] + [chk.rng.randrange(1, 700) for _ in range(n_of(chk, 8, 150))]
    chk.conform("huge", "HugeTrace", [gh.rejects(chk.rng, n, chk.rng.choice([70, 200])) for n in lens], chunk_events=60)
    chk.conform("huge", "HugeTrace", [gh.rejects(chk.rng, chk.rng.randrange(1, 70000), 4200) for _ in range(n_of(chk, 2, 12))], chunk_events=20,
                guards=("",))
    all_windows(chk, quick=0.1, accesses=("",), hows=("bad", "bad", "get", "set"))


def c04(chk):
    t = chk.thorough
    it = {"open", "iter", "next", "nth", "ilen", "ihint", "adlen", "drain", "count", "last"}
    own = ops_in("iter", "next", "nth", "ilen", "ihint", "adlen", "drain", "count", "last", "close", "exit",
                 "iiter")
    for n, start in [(5, [0, 2, 3]), (0, []), (1, [0]), (66, [0, 63, 64, 65])] + ([(130, [0, 5, 64, 129])] if t else []):
        bit_tour(chk, "bv", n, start, [0], sorted({0, min(n, 2), n}), 2, it | {"slice", "split"}, own=own,
                 iter_rt=("iter", "ref", "own", "new"))
    prof = gb.Profile({"iter": 5, "set": 1, "slice": 1, "split": 0.6, "view": 0.5}, depth=2, length=25,
                      kinds=("bv", "bv", "words", "u16"), ends=(), view_over=0.1)
    bit_random(chk, prof, n_of(chk, 600, 8000), own=own)
    es = chk.edges("IntGen", int_consts(chk, 5, 3, {"push", "iiter"}), invariants=["IntTypeOK"])
    eps, total = tours(chk.rng, es, int_render(chk.rng), finish=None)
    chk.extra_cov["transitions_toured"] += total
    chk.conform("ints", "IntTrace", eps, own=own)
    eps = [gi.episode(chk.rng, gi.P(iters=0.5, steps=30, snap=0, ends=())) for _ in range(n_of(chk, 500, 6000))]
    chk.conform("ints", "IntTrace", eps, own=own)
    long_bits(chk, own=ops_in("hbits", "hlen", "exit"))
    long_ints(chk, own=ops_in("hilen", "exit"))
    r = chk.rng
    eps = [gh.scans(r, n) for n in [gh.length(r) for _ in range(n_of(chk, 30, 300))] + [r.randrange(4000, 20000) for _ in range(n_of(chk, 20, 200))] if n < 1 << 25]
    eps += [gh.int_scans(r, r.choice([32, 33, 40, 48, 63, 64] + list(range(1, 21))), r.choice([200, 5000, 66000, 300000])) for _ in range(n_of(chk, 30, 300))]
    chk.conform("huge", "HugeTrace", eps, own=ops_in("hscan", "hlast", "hcount", "hiscan", "exit"), chunk_events=200)
    all_windows(chk, hows=("iter",))


def c05(chk):
    own = ops_in("eq", "exit")
    bit_tour(chk, "bv", 66, [0, 63], [63, 64], [0, 1, 2, 64, 66], 1, {"open", "set", "clone", "eq"}, slots=(0, 1),
             finish=(), own=own, eq_rt=("ii", "im", "mi", "mm", "rcbox", "nest", "viewii"))
    prof = gb.Profile({"flip": 1})
    bit_random(chk, prof, n_of(chk, 2500, 25000), make=gb.eq_episode, own=own)
    r = chk.rng
    eps = [gh.compare(r, n) for n in [gh.length(r) for _ in range(n_of(chk, 20, 100))] + [1 << 27]]
    eps += [gh.prefixes(r, n) for n in [gh.length(r) for _ in range(n_of(chk, 20, 100))] + [gh.TWO32 + 5000]]
    chk.conform("huge", "HugeTrace", eps, own=ops_in("heq", "exit"), kinds=("release",))
    all_windows(chk, hows=("eq",))


def c06(chk):
    t = chk.thorough
    word_model(chk)
    own = ops_in("raw", "new", "exit")
    for kind, n in [("bv", 129), ("bv", 128), ("bv", 1), ("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("words", 128)]:
        pts = sorted({0, n - 1, n // 2, min(63, n - 1), min(64, n - 1)})
        bit_tour(chk, kind, n, [], pts, [0], 1, {"open", "set", "flip", "raw"}, own=own,
                 set_=("bit", "alias", "bv") if kind == "bv" else ("bit",), finish=("raw 0",))
    prof = gb.Profile({"set": 3, "flip": 2, "slice": 1, "split": 0.6, "view": 0.5}, kinds=ALL_KINDS,
                      routes=("plain", "wrap", "unch"), depth=2, length=40, bad=0.15, ends=("raws",))
    bit_random(chk, prof, n_of(chk, 900, 10000), own=own)
    every_word(chk, [], ["bit", "unchecked"], "raw 0", own, 0.7)
    eps = []
    for rt in gb.SET_PLAIN + gb.SET_UNCH + gb.ROOT_SET["plain"] + gb.ROOT_SET["wrap"] + gb.ROOT_SET["unch"] + ["mut", "box"]:
        for n in [1, 63, 64, 65, 130, 200] + chk.rng.sample(gb.SIZES, 3 if not t else 20):
            L = [f"new 0 bv {n}"]
            for ops in ([f"flip 0 {i} {rt}" for i in range(n)], [f"set 0 {i} {chk.rng.randrange(2)} {rt}" for i in range(n)],
                        [f"flip 0 {i} {rt}" for i in reversed(range(n))]):
                k = chk.rng.randrange(n + 1)
                L += ["open 0"] + ops[:k] + ["close", "raw 0", "open 0"] + ops[k:] + ["close", "raw 0"]
            eps.append(Episode(L, "every position"))
    chk.conform("bits", "BitTrace", eps, own=own)
    eps = []
    for n in gb.SIZES + list(range(0, 200 if not t else 700)):
        L = [f"new 0 bv {n} " + " ".join(map(str, range(n))), "raw 0", "raw 0 asref", "raw 0 backing",
             f"new 1 bv {n}", "raw 1"]
        eps.append(Episode(L, "every length"))
    chk.conform("bits", "BitTrace", eps, own=own)
    long_bits(chk, own=ops_in("hword", "hwords", "hnew", "exit"))
    long_sizes(chk, ops_in("hwords", "hword", "hnew", "exit"))
    everywhere(chk, lambda ev, ep: ev["op"] in ("hword", "exit") or ev["op"] == "hpeek" and ev["rt"] in ("raw", "words"))


def int_consts(chk, w, size, ops):
    return {"Slots": "{0}", "W": w, "MaxLen": size, "Ops": S(ops)}


def int_render(rng, routes=("checked", "dyn"), unch=False, caps=(0, 1, 5, 100)):
    def f(call, tag):
        t = [x for x in call.split(" ") if x]
        if t[0] == "inew":
            w = t[2]
            return [" ".join(t)] if rng.random() < 0.4 else [f"icap {t[1]} {w} {rng.choice(caps)}"]
        if t[0] in ("iset", "iget"):
            rts = list(routes) + (["unchecked"] if unch and tag != "panic" else [])
            return [" ".join(t + [rng.choice(rts)])]
        if t[0] == "drain" and t[1] != "next":
            return [f"drain {rng.choice(['collect', 'fold'])}"]
        return [" ".join(t)]
    return f


def int_tour(chk, w, size, ops, own=None, finish=("isnap 0", "iraw 0"), **kw):
    es = chk.edges("IntGen", int_consts(chk, w, size, ops), invariants=["IntTypeOK"])
    eps, total = tours(chk.rng, es, int_render(chk.rng, **kw), finish=lambda: list(finish))
    chk.extra_cov["transitions_toured"] = chk.extra_cov.get("transitions_toured", 0) + total
    chk.conform("ints", "IntTrace", eps, own=own)


def c07(chk):
    t = chk.thorough
    pack_model(chk)
    own = lambda ev, ep: ev["op"] != "iraw"
    for w in ((22, 33, 64) if not t else (13, 22, 31, 32, 33, 48, 63, 64)):
        int_tour(chk, w, 4, {"push", "iset", "iget", "isnap", "iempty", "ilenv"}, own=own, finish=("isnap 0",))
    eps = [strip(e, "iraw") for e in gi.every_width(chk.rng, 3 if not t else 6)]
    chk.conform("ints", "IntTrace", eps, own=own)
    eps = [gi.episode(chk.rng, gi.P(snap=0.1), w=(k % 64) + 1) for k in range(n_of(chk, 640, 9600))]
    chk.conform("ints", "IntTrace", eps, own=own)
    many_ints(chk, own=own)
    long_ints(chk, own=lambda ev, ep: ev["op"] != "hiwords")
    int_everywhere(chk)


def many_ints(chk, own=None, look=("isnap",), sets=100):
    eps = gi.long_ones(chk.rng, n_of(chk, 2100, 6000), sets if not chk.thorough else 5 * sets, look=look)
    chk.conform("ints", "IntTrace", eps, own=own, chunk_events=200)


def strip(e, op):
    return Episode([l for l in e.lines if l.split(" ")[0] != op], e.why)


def c08(chk):
    t = chk.thorough
    for w in ((5, 22, 33) if not t else (1, 5, 16, 22, 33, 48, 63)):
        int_tour(chk, w, 3, {"push", "iset", "iget", "isnap", "bad", "widths"}, finish=("isnap 0", "iraw 0"))
    p = gi.P(bad=0.5, raw=0.05, snap=0.1, steps=50)
    eps = [gi.episode(chk.rng, p, w=(k % 64) + 1) for k in range(n_of(chk, 640, 9600))]
    L = []
    for w in list(range(0, 80)) + [127, 128, 129, 1000] + gi.HUGES:
        L += [f"inew 0 {w}", f"icap 1 {w} 10"]
    eps.append(Episode(L, "widths"))
    # the largest value that fits and the smallest one that does not, at every width
    for w in range(1, 65):
        m = (1 << w) - 1
        L = [f"inew 0 {w}", f"push 0 {m:x}", f"push 0 {m:x}", f"push 0 0"]
        if w < 64:
            L += [f"push 0 {m + 1:x}", f"iset 0 1 {m + 1:x} checked", "isnap 0", "iraw 0"]
        L += [f"iset 0 2 {m:x} checked", f"iset 0 3 {m:x} checked", "iget 0 3 checked", "isnap 0", "iraw 0"]
        for h in gi.HUGES:
            L += [f"iget 0 {h} checked", f"iset 0 {h} 0 checked"]
        eps.append(Episode(L + ["isnap 0"], "boundary values"))
    # a value that does not fit and an index that does not exist, at every length
    for w in range(1, 65):
        m = (1 << w) - 1
        L = [f"inew 0 {w}"]
        for k in range(200 if t else 140):
            if w < 64:
                L.append(f"push 0 {chk.rng.choice([m + 1, m + 1, m + 2, 2**64 - 1]):x}")
            L.append(f"iget 0 {k} checked" if k % 2 else f"iset 0 {k} {m:x} checked")
            if w < 64 and k % 5 == 1:
                L.append(f"iset 0 {chk.rng.randrange(k)} {m + 1:x} checked")
            L.append(f"push 0 {chk.rng.choice([0, m, chk.rng.randrange(m + 1)]):x}")
        eps.append(Episode(L + ["isnap 0"], "every length"))
    chk.conform("ints", "IntTrace", eps)
    for base in (300,) if not t else (300, 1100, 4200):
        chk.conform("ints", "IntTrace", gi.one_past(chk.rng, base), chunk_events=400)
    long_ints(chk)
    ws = list(range(1, 21)) + list(range(32, 65))
    eps = [gh.int_rejects(chk.rng, w, chk.rng.choice([150, 600, 1100])) for w in (ws if chk.thorough else chk.rng.sample(ws, 12))]
    eps += [gh.int_rejects(chk.rng, chk.rng.choice(ws), n) for n in (4100, 8200, 17000) + ((66000,) if chk.thorough else ())]
    chk.conform("huge", "HugeTrace", eps, chunk_events=20, guards=("",))


def c09(chk):
    t = chk.thorough
    pack_model(chk)
    own = ops_in("iraw", "inew", "icap", "exit")
    for w in ((22, 33, 64) if not t else (13, 22, 31, 32, 33, 48, 63, 64)):
        int_tour(chk, w, 4, {"push", "iset", "iraw"}, own=own, finish=("iraw 0",))
    eps = gi.every_width(chk.rng, 3 if not t else 6, dense=t)
    chk.conform("ints", "IntTrace", eps, own=own)
    p = gi.P(raw=0.2, snap=0, unch=0.2, bad=0.1, ends=("iraw",))
    eps = [gi.episode(chk.rng, p, w=(k % 64) + 1) for k in range(n_of(chk, 400, 6400))]
    chk.conform("ints", "IntTrace", eps, own=own)
    chk.conform("ints", "IntTrace", gi.last_one(chk.rng, 66 if not t else 200, 0.15), own=own)
    many_ints(chk, own=own, look=("iraw",))
    long_ints(chk, own=ops_in("hiwords", "exit"))
    int_everywhere(chk, lambda ev, ep: ev["op"] in ("hinew", "exit") or ev.get("rt") == "raw", routes=("raw",))


def strats(chk):
    return ["linear", "binary", "default"]


def rank_kinds():
    return RW + (("simd",) if have_simd() else ())


def seg_model(chk):
    chk.model("SegCheck", {"N": n_of(chk, 7, 9), "MaxSegs": n_of(chk, 3, 4)}, invariants=["Agree"])


def flat_model(chk):
    """The index as an algorithm, for all vectors up to some length."""
    inv = ["RankRight", "SelectRight", "InsideIndex", "HintsEarly"]
    t = chk.thorough
    chk.model("FlatPop", {"N": 15 if t else 12, "W": 2, "PerL2": 1, "PerL1": 2, "Rate": 2, "HintDiv": 8}, invariants=inv)
    chk.model("FlatPop", {"N": 14 if t else 11, "W": 1, "PerL2": 2, "PerL1": 3, "Rate": 3, "HintDiv": 12}, invariants=inv)
    # samples that point too far are noticed
    chk.model("FlatPop", {"N": 10, "W": 2, "PerL2": 1, "PerL1": 2, "Rate": 2, "HintDiv": 2}, invariants=["HintsEarly"],
              expect="violation", workers=1)


def inner_view(chk, queries):
    """Vectors whose inner view was replaced by one that does not start at the first bit."""
    known = known_findings(chk.prop).get("inner-view")
    script = ["vec 1000 5 0:10:1 600:5:7", "vsnap", "rbuild linear"] + queries + ["close", "close"]
    if known is None:
        chk.conform("rank", "RankTrace", [Episode(script, "a view of words")])
        return
    res = chk.run_chunk("release", "rank", "RankTrace", [Episode(script)])[0]
    if res is not None and res["event"]["op"] in ("rank", "select"):
        chk.known.append(known)
        chk.extra_cov["known_finding"] = {"key": "inner-view", "script": script, "observed": short(res["event"])}


def layouts(chk, strats, select, own):
    """Every vector that RankGen enumerates, with all ranks and all selects asked for."""
    t, r = chk.thorough, chk.rng
    confs = [(512, [0, 1, 5, 6, 7] if t else [r.choice([4, 5]), 6], 4 if t else 3, ["none", "full", "first", "last", "gap"], [0, 1, 64, 511] if t else [0, r.choice([1, 63, 64, 65, 511])]),
             (4096, [0, 2] if t else [0], 5 if t else 4, ["none", "full", "first", "last"], [0, 1, 600] if t else [0])]
    for block, leads, free, kinds, tails in confs:
        out = chk.model("RankGen", {"Block": block, "Leads": S(leads), "Free": free, "Kinds": S(kinds), "Tails": S(tails)},
                        workers=1, spec="GenSpec", invariants=["WellFormed", "RanksAtBorders", "Inverse"], action_constraints=["Emit"],
                        label={"Block": block, "Leads": leads, "Free": free, "Kinds": kinds, "Tails": tails})
        vs = [x[3:-1].split("|") for x in out.splitlines() if x.startswith('"V|')]
        if not vs:
            raise ToolError("RankGen generated nothing")
        eps = []
        for n, ones, segs in vs:
            L = [f"vec {n} {r.randrange(5)}{segs}", f"rbuild {r.choice(strats)}"]
            if select:
                L += [f"ssweep {int(ones) + 2}"]
            else:
                L += [f"rsweep {k} {r.choice(['const', 'dyn'])}" for k in (1, 0)]
            eps.append(Episode(L + ["close", "close"], f"blocks of {block} bits"))
        chk.extra_cov["layouts"] = chk.extra_cov.get("layouts", 0) + len(eps)
        chk.conform("rank", "RankTrace", eps, own=own, chunk_events=1500)


def c10(chk):
    seg_model(chk)
    flat_model(chk)
    own = ops_in("rank", "rsweep", "rwin", "rlen", "rempty", "rbuild", "vsnap", "exit")
    eps = []
    ss = ["unit", "linear", "binary", "default"]
    for n in gr.EDGES:
        for segs in ([], [(0, n, 1)] if n else [], [(n - 1, 1, 1)] if n else []):
            eps.append(gr.rank_episode(chk.rng, n, segs, chk.rng.choice(ss)))
    for _ in range(n_of(chk, 250, 3000)):
        eps.append(gr.rank_episode(chk.rng, *gr.vector(chk.rng), chk.rng.choice(ss)))
    eps += [gr.rank_episode(chk.rng, n, segs, chk.rng.choice(ss)) for n, segs in gr.runs(chk.rng, None if chk.thorough else 80)]
    eps += [gr.history_episode(chk.rng, ss, select=False) for _ in range(n_of(chk, 60, 600))]
    chk.conform("rank", "RankTrace", eps, own=own, chunk_events=700)
    eps = [gr.rank_episode(chk.rng, *gr.vector(chk.rng, n=chk.rng.randrange(200000, 2000000), noisy=False),
                           chk.rng.choice(ss)) for _ in range(n_of(chk, 8, 60))]
    chk.conform("rank", "RankTrace", eps, own=own, per_proc=2)
    if have_simd():
        eps = [gr.rank_episode(chk.rng, *gr.vector(chk.rng), "simd") for _ in range(n_of(chk, 60, 500))]
        chk.conform("rank", "RankTrace", eps, kinds=("simd",), own=own, chunk_events=700)
    layouts(chk, ss, False, own)
    eps = [gr.rank_episode(chk.rng, n, segs, chk.rng.choice(ss)) for _ in range(n_of(chk, 1, 4)) for n, segs in gr.counts(chk.rng)]
    chk.conform("rank", "RankTrace", eps, own=own, per_proc=2, kinds=("debug", "release") if chk.thorough else ("release",))
    long_ranks(chk, ops_in("hrank", "hbuild", "exit"))
    inner_view(chk, ["rank 11 1 const"])


def c11(chk):
    seg_model(chk)
    flat_model(chk)
    own = ops_in("select", "ssweep", "swin", "rbuild", "vsnap", "exit")
    eps = []
    ss = ["linear", "binary", "default"]
    for n in gr.EDGES:
        for segs in ([], [(0, n, 1)] if n else [], [(n - 1, 1, 1)] if n else []):
            eps.append(gr.select_episode(chk.rng, n, segs, chk.rng.choice(ss)))
    for _ in range(n_of(chk, 250, 3000)):
        eps.append(gr.select_episode(chk.rng, *gr.vector(chk.rng), chk.rng.choice(ss)))
    # ones far apart, and samples in blocks far from the ones
    for _ in range(n_of(chk, 20, 120)):
        n = chk.rng.randrange(100000, 600000)
        ps = {chk.rng.randrange(n) for _ in range(chk.rng.choice([1, 2, 30]))}
        segs = gr.from_positions(ps)
        eps.append(gr.select_episode(chk.rng, n, segs, chk.rng.choice(ss)))
        k = chk.rng.choice([8191, 8192, 8193, 16384, 20000])
        a = chk.rng.randrange(n - 40000)
        eps.append(gr.select_episode(chk.rng, n, [(a, k, 1), (n - 1, 1, 1)], chk.rng.choice(ss)))
    eps += [gr.select_episode(chk.rng, n, segs, chk.rng.choice(ss)) for n, segs in gr.runs(chk.rng, None if chk.thorough else 80)]
    eps += [gr.history_episode(chk.rng, ss, rank=False) for _ in range(n_of(chk, 60, 600))]
    chk.conform("rank", "RankTrace", eps, own=own, chunk_events=700)
    if have_simd():
        eps = [gr.select_episode(chk.rng, *gr.vector(chk.rng), "simd") for _ in range(n_of(chk, 80, 600))]
        chk.conform("rank", "RankTrace", eps, kinds=("simd",), own=own, chunk_events=700)
    layouts(chk, ss, True, own)
    eps = [gr.select_episode(chk.rng, n, segs, s) for s in ss[:2] * n_of(chk, 1, 3) for n, segs in gr.counts(chk.rng)]
    chk.conform("rank", "RankTrace", eps, own=own, per_proc=2, kinds=("debug", "release") if chk.thorough else ("release",))
    long_ranks(chk, ops_in("hselect", "hbuild", "exit"))
    inner_view(chk, ["select 12"])


def c12(chk):
    r = chk.rng
    for vs in ([0, 1, 2, 4094, 4095], [0, 512, 1024, 2048, 3584, 4095], r.sample(range(4096), n_of(chk, 5, 8)),
               [255, 256, 257, 511, r.randrange(4096), 0]):
        chk.conform("rank", "RankTrace", gr.entries_episodes(r, ["linear", "binary"], vs), chunk_events=1500)
        if have_simd():
            chk.conform("rank", "RankTrace", gr.entries_episodes(r, ["simd"], vs), kinds=("simd",), chunk_events=1500)
    steps = [0, 1, r.randrange(2, 600)]
    for st in steps + ([r.randrange(2, 600) for _ in range(8)] if chk.thorough else []):
        eps = [e for s in ("linear", "binary") for e in gr.staircase_episodes(r, [s], st)]
        chk.conform("rank", "RankTrace", eps, chunk_events=2000)
        if have_simd():
            chk.conform("rank", "RankTrace", gr.staircase_episodes(r, ["simd"], st), kinds=("simd",), chunk_events=2000)
    eps = [gr.find_episode(chk.rng, ["linear", "binary"]) for _ in range(n_of(chk, 120, 1200))]
    chk.conform("rank", "RankTrace", eps, chunk_events=2000)
    if have_simd():
        eps = [gr.find_episode(chk.rng, ["simd", "linear", "binary"]) for _ in range(n_of(chk, 120, 1200))]
        chk.conform("rank", "RankTrace", eps, kinds=("simd",), chunk_events=2000)
    else:
        chk.assumptions.append("this machine lacks ssse3/sse4.1: the vectorised strategy was not run")


def c13(chk):
    t = chk.thorough
    chk.model("Growth", {"Widths": "1..64" if t else S([1, 2, 3, 5, 7, 8, 13, 16, 21, 31, 32, 33, 48, 63, 64]),
                         "Caps": "0..40" if t else S([0, 1, 2, 3, 7, 8, 9, 20, 33, 64]),
                         "MaxSize": 200 if t else 150}, invariants=["WithinLimits", "RoomForAll"])
    r = chk.rng
    L = [f"bitvec {n}" for n in list(range(0, 200)) + gb.SIZES + [r.randrange(100000) for _ in range(30)] + [10**6, 10**7 + 1]]
    eps = [Episode(L[k:k + 20], "bit vectors") for k in range(0, len(L), 20)]
    for w in range(1, 65):
        for c in ["-", 0, 1, 8, 9, r.randrange(2, 64), r.randrange(64, 1000), 64 * r.randrange(1, 20)]:
            count = 100 if c == "-" else int(c) + r.choice([0, 1, 5, int(c) * 2 + 70])
            eps.append(Episode([f"intvec {w} {c} {count} {r.choice([1, 1, 3, 7]) if count < 300 else 31}"], "integer vectors"))
        if w % 8 == 3 or t:
            eps.append(Episode([f"intvec {w} - 20000 {r.randrange(50, 150)}", f"intvec {w} 20000 20000 {r.randrange(50, 150)}"],
                               "large integer vectors"))
    # dense vectors of lengths around those where the list of samples has just grown
    for n in gr.EDGES + [r.randrange(10**5) for _ in range(20)] + [r.randrange(10**6) for _ in range(10)] \
            + [2**20, 2**21, 10**6, 3 * 10**6, 5 * 2**20, 2**23] + ([2**26, 10**8] if t else []):
        segs = r.choice([[(0, n, 1)], [(0, n, 1)], [(0, (n + 1) // 2, 2)], []]) if n else []
        if n >= 2**20:
            segs = [(0, n, 1)]
        eps.append(Episode([f"index {r.choice(['linear', 'binary', 'unit'])} {n} "
                            + " ".join(f"{a}:{c}:{d}" for a, c, d in segs)], "indices"))
    chk.conform("space", "SpaceTrace", eps, guards=("",), chunk_events=40)


RACE = "two threads writing through the halves of a split that share a word"


def c14(chk):
    t = chk.thorough
    # the design: where updates can be lost
    chk.model("SplitRace", {"W": 2, "N": 5 + t, "Splits": "{2, 4}", "MaxWrites": 2, "Atomic": "FALSE"}, invariants=["Joined"])
    chk.model("SplitRace", {"W": 2, "N": 5, "Splits": "{1, 2, 3, 4}", "MaxWrites": 2, "Atomic": "TRUE"}, invariants=["Joined"])
    chk.model("SplitRace", {"W": 3, "N": 6, "Splits": "{0, 1, 2, 3, 4, 5}", "MaxWrites": 2, "Atomic": "FALSE"}, invariants=["OnlySharedWordSuffers"])
    chk.model("SplitRace", {"W": 2, "N": 5, "Splits": "{1, 3}", "MaxWrites": 2, "Atomic": "FALSE"}, invariants=["Joined"],
              expect="violation", workers=1)
    # one thread
    ops = {"open", "get", "set", "flip", "split", "wsnap"}
    bit_tour(chk, "bv", 129, [0, 64], [0, 63, 64, 128], [0, 63, 64, 65, 128], 2, ops)
    bit_tour(chk, "bv", 70, [1, 63], [63, 64], [0, 1, 63, 64], 3, ops)
    if t:
        bit_tour(chk, "bv", 70, [1, 63], [63, 64], [1, 63, 64], 4, ops)
    prof = gb.Profile({"get": 3, "set": 4, "flip": 3, "split": 2.5, "slice": 0.4, "wsnap": 1}, depth=3, length=120,
                      snap_every=0.2, ends=("snap", "raws"), routes=("plain", "wrap", "unch"))
    bit_random(chk, prof, n_of(chk, 500, 6000))
    chk.conform("bits", "BitTrace", gb.cuts(chk.rng, 193, CUTS + [193], prof, mut=1, share=1.0 if t else 0.5, writes=True))
    chk.conform("bits", "BitTrace", gb.long_cuts(chk.rng, (1,)))
    long_bits(chk)
    everywhere(chk, routes=("checked", "unchecked"))
    # two threads
    eps = [gb.halves_episode(chk.rng, True) for _ in range(n_of(chk, 300, 3000))]
    chk.conform("halves", "HalvesTrace", eps, guards=("",), chunk_events=60)
    known = known_findings("C14").get("shared-word")
    eps = [gb.halves_episode(chk.rng, False) for _ in range(n_of(chk, 150, 1500))]
    r = chk.rng
    lens = [130, 300 + r.randrange(300), 4100 + r.randrange(200), 8200 + r.randrange(1000)] * n_of(chk, 1, 6)
    chk.conform("huge", "HugeTrace", [gh.parts(r, n) for n in lens] + [gh.slides(r, n, routes=["split"]) for n in lens])
    if known is None:
        chk.conform("halves", "HalvesTrace", eps, guards=("",), chunk_events=60)
        return
    # what the known defect cannot explain is a violation
    chk.conform("halves", "HalvesTrace", eps, guards=("",), chunk_events=60, cfg="HalvesWeak")
    line = "halves 200 0 200 100 20000 s0+,s63+,s98+,f98,g98,s99+ s0+,f0,g0,s1+,f1,g1 x"
    for _ in range(30):
        res = chk.run_chunk("release", "halves", "HalvesTrace", [Episode([line])])[0]
        if res is not None:
            chk.known.append(known)
            chk.extra_cov["known_finding"] = {"key": "shared-word", "script": line, "observed": short(res["event"])}
            break


def odd_task(rng, names):
    """A run of the coverage task with unusual arguments and files."""
    known = ["xml", "cobertura", "lcov", "json", "covdir"]

    def strange(w):
        return rng.choice(["--" + w, "-" + w, w + " ", " " + w, w + "s", w[:-1], w[1:], "." + w, w + "." + w, w + ",xml", "", "=" + w, w * 2,
                           w.upper(), w.capitalize(), w[:2] + w[2:].upper(), w + "\u00e9", w.replace("o", "0")])
    task = rng.choice(["cover"] * 6 + ["cover_only"] * 5 + ["clean"] * 4 + ["test_instr"] * 2
                      + [strange(rng.choice(["cover", "clean", "cover_only", "test_instr", "xml", "lcov"])) or "x"])
    fmt = rng.choice([None, rng.choice(known), strange(rng.choice(known)), strange(rng.choice(known))])
    extra = [rng.choice(known + ["clean", "cover", "--release", "x"]) for _ in range(rng.choice([0, 0, 1, 2]))] if fmt is not None else []
    tree = {"src/main.rs"}
    dirs = ["", "sub/", "sub/deep/", ".hid/", "target/", "target/debug/deps/", "coverage/", "a b/", "src/", "x.d/", "[ab]/", "sub/sub/sub/sub/", "tests/"]
    for _ in range(rng.choice([0, 1, 3, 10, 60])):
        stem = rng.choice(["a", "cargo-test-1-2", "default", "default_0", ".h", "tests", "w.x", "a.profraw", "profraw", "with space", "[a]", "x*y", "q?", "1"])
        ext = rng.choice(["profraw", "profraw", "profraw", "profdata", "prof", "raw", "profra", "profraww", "profraw~", "profraw.gz", "rs", "txt", "json", "xml", "lcov", "Profraw"])
        tree.add(rng.choice(dirs) + stem + "." + ext)
    if rng.random() < 0.2:
        tree |= set(names)
    code = lambda p: rng.choice([1, 2, 101]) if rng.random() < p else 0
    plan = (code(0.15), code(0.1), code(0.15), rng.random() < 0.1)
    return task, fmt, plan, sorted(tree), bool(rng.randrange(2)), extra


def c20(chk):
    tasks = ["cover", "test_instr", "cover_only", "clean", "none", "bogus", "covers", "cleanup", "cover-only", "test", "Cover",
             "clean_all", "cov", "help", "-"]
    fmts = ["none", "xml", "cobertura", "lcov", "json", "covdir", "html", "XML", "Lcov", "CovDir"]
    if not chk.thorough:
        tasks = tasks[:9] + chk.rng.sample(tasks[9:], 1)
        fmts = ["none", "xml", "cobertura", "lcov", "json", "covdir", "html", "LCOV"]
    es = chk.edges("XTaskGen", {"TaskArgs": S(tasks), "FormatArgs": S(fmts), "Trees": "{0, 1, 2}"},
                   properties=["OnlyProfilesVanish", "CleanIsLast", "FailureIsReported"], invariants=["Ends"])
    plans = sorted({tuple(e[:3]) for e in es})
    chk.rng.shuffle(plans)
    exe = xtask.build()
    trees = {"0": ["src/main.rs"],
             "1": ["src/main.rs", "a.profraw", "sub/deep/b.profraw", "c.profdata", "sub/d.profraw.bak", ".h.profraw",
                   ".hid/x.profraw", "target/debug/deps/t.profraw", "profraw", "sub/profraw", "E.PROFRAW", "f.profraws",
                   "with space.profraw", "x.profraw.d/y.txt", "x1/x2/x3/x4/x5/z.profraw", "coverage/old.json",
                   "default_123_0.profraw", "Cargo.toml", "target/debug/xtask", "b.lcov", "a.xml"],
             "2": ["src/main.rs", "ro/stuck.profraw", "a.profraw"]}
    jobs = []
    for k, (task, fmt, text) in enumerate(plans):
        v = text.strip("<>").replace(" ", "").split(",")
        if task == "none" and fmt != "none":
            continue
        code = lambda ok: 0 if ok == "TRUE" else chk.rng.choice([1, 2, 101])
        jobs.append((None if task == "none" else task, None if fmt == "none" else fmt,
                     (code(v[0]), code(v[1]), code(v[2]), v[3] == "TRUE"), trees[v[4]], bool(chk.rng.randrange(2))))
    jobs = jobs[:n_of(chk, 1200, len(jobs))] + [odd_task(chk.rng, trees["1"]) for _ in range(n_of(chk, 250, 3000))]
    box = [xtask.Sandbox(exe) for _ in range(JOBS)]
    try:
        def part(k):
            return [box[k].run(*j) for j in jobs[k::JOBS]]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            runs = [(jobs[k::JOBS][i], ev) for k, rs in enumerate(ex.map(part, range(JOBS))) for i, ev in enumerate(rs)]
    finally:
        for b in box:
            b.close()
    chk.judge("XTaskTrace", runs)


def c15(chk):
    bit_tour(chk, "bv", 66, [0, 63], [63, 65], [0, 66], 1, {"open", "set", "flip", "clone", "drop", "snap", "raw", "eq"},
             slots=(0, 1), finish=())
    prof = gb.Profile({"set": 3, "flip": 2, "slice": 1, "split": 0.5}, depth=2, length=20)
    bit_random(chk, prof, n_of(chk, 700, 8000), make=gb.clone_episode)
    r = chk.rng
    long_ones(chk, lambda n: gh.clones(r, 80, n), lambda: gh.clones(r, 80), [gh.length(r) for _ in range(n_of(chk, 12, 120))],
              n_of(chk, 1, 4))
    lens = [1, 63, 64, 65, 128, 200, 512, 513, 4096] + [r.randrange(1, 20000) for _ in range(n_of(chk, 8, 60))]
    chk.conform("huge", "HugeTrace", [gh.clone_chain(r, n, r.choice([10, 40, 150])) for n in lens], chunk_events=900)


def c16(chk):
    t = chk.thorough
    for kind, n in [("bv", 66), ("u8", 8), ("u64", 64), ("words", 128)] + ([("u16", 16), ("u32", 32), ("usize", 64)] if t else []):
        pts = sorted({0, min(63, n - 1), n - 1})
        root = kind == "bv"
        for k in range(2):
            bit_tour(chk, kind, n, [0], pts, [0, n], 2, {"open", "get", "set", "flip", "view", "snap"},
                     get=gb.GET_WRAP + (["dynacc", "asref"] if root and k else []),
                     set_=gb.SET_WRAP + (["dynacc", "bv_mut", "bv_box"] if root and k else []),
                     unchecked=[x for x in gb.GET_UNCH if x not in ("unchecked", "alias_u")] if not k else [],
                     view_rt=("ref", "box", "rc", "rc2"))
    prof = gb.Profile({"get": 4, "set": 3, "flip": 3, "view": 1.2, "slice": 0.6, "split": 0.3}, kinds=ALL_KINDS,
                      routes=("wrap",), bad=0.2, depth=3, length=60)
    bit_random(chk, prof, n_of(chk, 800, 9000))
    prof = gb.Profile({"get": 4, "set": 3, "flip": 3, "view": 1.2}, kinds=ALL_KINDS,
                      routes=("wrap", "unch"), depth=2, length=60)
    bit_random(chk, prof, n_of(chk, 200, 2000))
    get = gb.GET_WRAP + [x for x in gb.GET_UNCH if x not in ("unchecked", "alias_u")]
    set_ = gb.SET_WRAP + [x for x in gb.SET_UNCH if x not in ("unchecked", "alias_u")]
    val_get, val_set = ([x + u for x in v for u in ("", "_u")] for v in (gb.VAL_GET, gb.VAL_SET))
    every_word(chk, get, set_)
    few = [("u8", 8), ("u16", 16)] + ([("u32", 32), ("words", 64)] if t else [])
    chk.conform("bits", "BitTrace", gb.word_routes(chk.rng, few, get, set_))
    chk.conform("bits", "BitTrace", gb.word_routes(chk.rng, WORDS[:-1] + [("words", 64)], val_get, val_set))
    eps = gb.each_place(chk.rng, "words", 576 if not t else 1216, val_get, val_set)
    eps += gb.each_place(chk.rng, "words", 576, *((get, set_) if t else (chk.rng.sample(get, 8), chk.rng.sample(set_, 4))))
    eps += gb.each_place(chk.rng, "bv", 577, *((get, set_) if t else (chk.rng.sample(get, 6), chk.rng.sample(set_, 3))))
    chk.conform("bits", "BitTrace", eps, chunk_events=1200)
    r = chk.rng
    eps = [gh.wrapped_everywhere(r, n) for n in [r.randrange(300, 3000), 4096 + r.randrange(300), (1 << 16) + r.randrange(300)] * n_of(chk, 1, 8)]
    chk.conform("huge", "HugeTrace", eps)


def c17(chk):
    t = chk.thorough
    ops = {"open", "get", "set", "flip", "slice", "wsnap"}
    unch = ["unchecked", "alias_u", "unchecked", "alias_u"]
    bit_tour(chk, "bv", 129, [0, 64], [0, 63, 64, 128], [0, 63, 64, 129], 2, ops, bounds=range(9), unchecked=unch,
             slice_rt=("unchecked",))
    bit_tour(chk, "bv", 66, [63], [63, 64], [0, 63, 66], 3, ops, bounds=(1, 5, 6), unchecked=unch,
             slice_rt=("unchecked",))
    prof = gb.Profile({"get": 4, "set": 3, "flip": 3, "slice": 1.5, "split": 0.4, "view": 0.5, "wsnap": 0.4},
                      kinds=ALL_KINDS, routes=("unch", "unch", "plain"), depth=3, length=80, slice_unchecked=0.9,
                      snap_every=0.1, ends=("snap", "raws"))
    bit_random(chk, prof, n_of(chk, 700, 4000))
    every_word(chk, ["unchecked"], ["unchecked"])
    chk.conform("bits", "BitTrace", gb.cuts(chk.rng, 193, CUTS + [193], prof, share=1.0 if t else 0.5, writes=True))
    int_tour(chk, 22, 4, {"push", "iset", "iget", "isnap"}, unch=True, routes=("unchecked", "checked"))
    eps = [gi.episode(chk.rng, gi.P(unch=0.9), w=(k % 64) + 1) for k in range(n_of(chk, 320, 1920))]
    chk.conform("ints", "IntTrace", eps)
    many_ints(chk)
    chk.conform("ints", "IntTrace", gi.last_one(chk.rng, 132 if not t else 260, 0.1, "isnap", ["unchecked"]), chunk_events=800)
    long_bits(chk)
    long_ints(chk)
    everywhere(chk, routes=("unchecked",))
    int_everywhere(chk, routes=("unchecked",))
    all_windows(chk, quick=0.3, accesses=("_u",))


def c18(chk):
    path, out = build("release", "conc")
    if path is None and ("cannot be shared between threads safely" in out or "cannot be sent between threads safely" in out):
        if build("release", "rank")[0] and build("release", "bits")[0]:
            chk.report({"property": "C18", "what": "the structures can no longer be shared between threads", "compiler": out[-3000:]})
    ss = ["linear", "binary"]
    eps = [gc.world(chk.rng, threads=chk.rng.choice([2, 4, 8]), strats=ss) for _ in range(n_of(chk, 60, 800))]
    chk.conform("conc", "ReadersTrace", eps, chunk_events=5000)
    if have_simd():
        eps = [gc.world(chk.rng, threads=4, strats=ss + ["simd"]) for _ in range(n_of(chk, 20, 200))]
        chk.conform("conc", "ReadersTrace", eps, kinds=("simd",), chunk_events=5000)
    # one at a time, so that its threads do not wait for those of others
    jobs = [gc.storm(chk.rng, 20000) for _ in range(n_of(chk, 12, 150))]
    chk.conform("conc", "ReadersTrace", jobs, kinds=("release",), per_proc=1, guards=("",), parallel=1)
    chk.extra_cov["threads"] = "2, 4 or 8; each query is repeated 20 times by its thread"
    # what was asked before plays no role, also when the bits have changed since
    eps = [gr.history_episode(chk.rng, ["linear", "binary", "default", "unit"], rounds=6) for _ in range(n_of(chk, 150, 1500))]
    chk.conform("rank", "RankTrace", eps, chunk_events=700)
    # one reader: reads of every kind between two looks at everything, on bits and views
    prof = gb.Profile({"get": 4, "iter": 1.5, "slice": 1, "split": 0.5, "len": 0.3, "wsnap": 0.7, "empty": 0.2},
                      depth=2, length=40, muts=False, ends=("snap", "raws", "debug"), routes=("plain", "wrap"))
    bit_random(chk, prof, n_of(chk, 300, 3000))
    eps = [gb.history_episode(chk.rng, chk.rng.choice([chk.rng.randrange(1, 70), chk.rng.randrange(60, 300), 512, 1100])) for _ in range(n_of(chk, 60, 900))]
    chk.conform("bits", "BitTrace", eps)
    # everything is read by all, more than a million times
    eps = [gh.crowds(chk.rng, 270000 + chk.rng.randrange(5000), chk.rng.choice([1, 7, 20, 33, 64])) for _ in range(n_of(chk, 2, 12))]
    chk.conform("crowd", "HugeTrace", eps, per_proc=1)


def c19(chk):
    own = ops_in("debug", "exit")
    bit_tour(chk, "bv", 3, [1], [0, 1, 2], [0], 1, {"open", "set", "flip", "debug"}, finish=("debug 0",), own=own)
    bit_tour(chk, "bv", 66, [1], [0, 63, 64, 65], [0], 1, {"open", "set", "debug"}, finish=("debug 0",), own=own)
    prof = gb.Profile({"set": 3, "flip": 2, "slice": 0.5}, depth=1, length=15, ends=("debug",))
    bit_random(chk, prof, n_of(chk, 800, 8000), own=own)
    eps = [Episode([f"new 0 bv {n} " + " ".join(str(i) for i in range(n) if chk.rng.random() < 0.5),
                    "debug 0", f"debug 0 {chk.rng.choice(['alt', 'width', 'hex', 'ref', 'prec', 'fill', 'plus', 'nested'])}"], "every length")
           for n in list(range(0, 400 if not chk.thorough else 1500)) + [chk.rng.choice([1000, 2048, 4096, 8192, 16384, 32768]) + chk.rng.randrange(-70, 70)
                                                                         for _ in range(n_of(chk, 6, 30))]
           + [65536 + chk.rng.randrange(1, 70)] + ([131072 + 3] if chk.thorough else [])]
    chk.conform("bits", "BitTrace", eps, own=own)


PLANS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in PLANS:
        print("usage: check.py " + "|".join(sorted(PLANS)))
        sys.exit(2)
    main(sys.argv[1], PLANS[sys.argv[1]])
