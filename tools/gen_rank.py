"""Vectors and scripts for the driver `rank`. A vector is given as disjoint segments
start:count:stride in increasing order."""
from itertools import combinations_with_replacement

from vf import Episode

EDGES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 448, 511, 512, 513, 575, 576, 577, 1023, 1024, 1025,
         3583, 3584, 3585, 4032, 4095, 4096, 4097, 4160, 4607, 4608, 4609, 7679, 7680, 7681, 8191,
         8192, 8193, 8704, 12287, 12288, 12289, 16383, 16384, 16385, 28672, 32767, 32768, 32769]
HUGES = [f"H{k}" for k in range(10)]


def total(segs):
    return sum(s[1] for s in segs)


def fmt(rng, n, segs):
    h = rng.choice([0, 1, 2, 3, 4]) if n < 100000 else rng.choice([0, 0, 3])
    return f"vec {n} {h}" + "".join(f" {a}:{c}:{d}" for a, c, d in segs)


def from_positions(ps):
    """Segments of single positions and runs."""
    segs = []
    for p in sorted(set(ps)):
        if segs and segs[-1][0] + segs[-1][1] == p:
            segs[-1][1] += 1
        else:
            segs.append([p, 1, 1])
    return [tuple(s) for s in segs]


def length(rng, big=40000):
    x = rng.random()
    if x < 0.6:
        return rng.choice(EDGES)
    if x < 0.8:
        return 4096 * rng.randrange(1, max(2, big // 4096)) + rng.choice([-1, 0, 1, 512, 511, 64, rng.randrange(4096)])
    return rng.randrange(big)


def vector(rng, n=None, big=40000, noisy=True):
    n = length(rng, big) if n is None else n
    if n == 0:
        return 0, []
    x = rng.random()
    if x < 0.08:
        return n, []
    if x < 0.2:
        return n, [(0, n, 1)]
    if x < 0.3:
        d = rng.choice([2, 3, 5, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097])
        s = rng.randrange(min(d, n))
        return n, [(s, (n - 1 - s) // d + 1, d)]
    if x < 0.42:
        # positions next to block boundaries only
        ps = [p + o for u in (64, 512, 4096) for p in range(0, n + 1, u if u > 64 else 512)
              for o in (-1, 0, 1) if rng.random() < 0.4]
        ps += [0, n - 1] if rng.random() < 0.7 else []
        return n, from_positions(p for p in ps if 0 <= p < n)
    if x < 0.5:
        # a single one, or a few
        return n, from_positions(rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(rng.choice([1, 1, 2, 5])))
    if x < 0.6:
        # a single zero, or a few
        z = sorted({rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(rng.choice([1, 1, 3]))})
        segs, p = [], 0
        for q in z + [n]:
            if q > p:
                segs.append((p, q - p, 1))
            p = q + 1
        return n, segs
    if x < 0.75 or not noisy:
        # blocks of changing density
        segs, p = [], 0
        while p < n and len(segs) < 4000:
            ln = min(n - p, rng.choice([1, 64, 100, 512, 513, 1000, 4096, 4097, 9000]))
            y = rng.random()
            if y < 0.35:
                pass
            elif y < 0.65:
                segs.append((p, ln, 1))
            else:
                d = rng.choice([2, 3, 7, 31, 64, 100])
                segs.append((p, (ln - 1) // d + 1, d))
            p += ln
        return n, merge(segs)
    d = rng.choice([0.001, 0.01, 0.1, 0.5, 0.9, 0.99])
    m = min(n, 20000)
    o = rng.randrange(n - m + 1)
    return n, from_positions(o + i for i in range(m) if rng.random() < d)


def merge(segs):
    out = []
    for s in segs:
        if out and out[-1][2] == 1 and s[2] == 1 and out[-1][0] + out[-1][1] == s[0]:
            out[-1] = (out[-1][0], out[-1][1] + s[1], 1)
        else:
            out.append(s)
    return out


def runs(rng, count=None):
    """Vectors with one run of ones, or of zeros, between any two of the edges."""
    pairs = [(a, b) for a in EDGES for b in EDGES if a < b]
    for a, b in pairs if count is None else rng.sample(pairs, count):
        n = rng.choice([b, b, b + 1, b + rng.randrange(600), max(b, rng.choice(EDGES))])
        if rng.random() < 0.5:
            yield n, [(a, b - a, 1)]
        else:
            yield n, ([(0, a, 1)] if a else []) + ([(b, n - b, 1)] if b < n else [])


def counts(rng, per=256):
    """Vectors in whose blocks every possible number of ones occurs."""
    cs = rng.sample(range(4097), 4097)
    for k in range(0, len(cs), per):
        segs = [(4096 * i + rng.choice([0, 4096 - c, rng.randrange(4097 - c)]), c, 1) for i, c in enumerate(cs[k:k + per]) if c]
        n = 4096 * len(cs[k:k + per]) + rng.choice([0, rng.randrange(4096)])
        yield n, merge(segs)


def rank_episode(rng, n, segs, strat, sweep=True, why=""):
    L = [fmt(rng, n, segs), f"rbuild {strat}", "rlen", "rempty"]
    rts = ["const", "dyn"]
    # the values of a sweep are abbreviated as runs, of which strided segments give many
    if sweep and sum(2 * c if d > 1 else 2 for _, c, d in segs) < 60000:
        L.append(f"rsweep 1 {rng.choice(rts)}")
        L.append(f"rsweep 0 {rng.choice(rts)}")
    elif n:
        for _ in range(12):
            a = rng.choice([0, n - 1, 4096 * rng.randrange(n // 4096 + 1), rng.randrange(n)])
            a = max(0, a - rng.randrange(3000))
            L.append(f"rwin {a} {min(n, a + 4000)} {rng.randrange(2)} {rng.choice(rts)}")
    for i in [n, n + 1, rng.choice(HUGES), n + rng.randrange(1, 5000), 0]:
        L.append(f"rank {i} {rng.randrange(2)} {rng.choice(rts)}")
    for _ in range(20):
        i = rng.randrange(n + 1)
        if rng.random() < 0.5:
            i = min(n, max(0, rng.choice([64, 512, 4096]) * rng.randrange(n // 64 + 1) + rng.choice([-1, 0, 1])))
        L.append(f"rank {i} {rng.randrange(2)} {rng.choice(rts)}")
    L += ["close", "vsnap", "close"]
    return Episode(L, why or f"rank, {n} bits")


def select_episode(rng, n, segs, strat, sweep=True, why=""):
    t = total(segs)
    L = [fmt(rng, n, segs), f"rbuild {strat}"]
    if sweep and t < 3000000:
        L.append(f"ssweep {t + 3}")
    elif t:
        for _ in range(12):
            a = rng.choice([0, max(t - 1000, 0), 8192 * rng.randrange(t // 8192 + 1), rng.randrange(t)])
            a = max(0, a - rng.randrange(1500))
            L.append(f"swin {a} {a + 2500}")
    for k in [0, t - 1, t, t + 1, rng.choice(HUGES), n, 8191, 8192, 8193]:
        if not isinstance(k, int) or k >= 0:
            L.append(f"select {k}")
    for _ in range(20):
        if t:
            L.append(f"select {rng.randrange(t)}")
    # select and rank are inverse
    for _ in range(5):
        if t:
            i = rng.randrange(n + 1)
            L.append(f"rank {i} 1 const")
    L += ["close", "vsnap", "close"]
    return Episode(L, why or f"select, {n} bits")


def nudge(rng, n, segs):
    """Other ones for the same length: moved by a little, complemented, one more or one less."""
    x = rng.random()
    if x < 0.3:
        return vector(rng, n)[1]
    if x < 0.6:
        d = rng.choice([-65, -64, -1, 1, 1, 64])
        out = []
        for a, c, s in segs:
            while c and a + d < 0:
                a, c = a + s, c - 1
            while c and a + d + (c - 1) * s >= n:
                c -= 1
            if c:
                out.append((a + d, c, s))
        return out
    if x < 0.8 and all(s == 1 for _, _, s in segs):
        out, p = [], 0
        for a, c, _ in segs:
            if a > p:
                out.append((p, a - p, 1))
            p = a + c
        return out + ([(p, n - p, 1)] if p < n else [])
    # without what lies before some place
    p = rng.randrange(n + 1)
    return [s for s in segs if s[0] >= p]


def history_episode(rng, strats, rounds=4, select=True, rank=True):
    """The same places are asked about while the contents change underneath."""
    n = rng.choice([700, 1024, 4096, 4100, 5000, 8192, 9000, 20000, rng.randrange(1, 30000)])
    segs = vector(rng, n)[1]
    qs = []
    for _ in range(rng.randrange(3, 12)):
        if rank:
            qs += [f"rank {i} {rng.randrange(2)} {rng.choice(['const', 'dyn'])}" for i in [rng.choice([n, n // 2, rng.randrange(n + 1)])] * rng.choice([1, 2])]
        if select:
            qs += [f"select {rng.choice([0, rng.randrange(n), rng.randrange(200)])}"] * rng.choice([1, 2])
    L = [fmt(rng, n, segs)]
    for _ in range(rounds):
        s = rng.choice(strats)
        # what was asked last is asked first
        L += [f"rbuild {s}"] + (qs if select and s != "unit" else [q for q in qs if q[0] == "r"]) + ["close"]
        qs = qs[::-1] if rng.random() < 0.7 else rng.sample(qs, len(qs))
        if rng.random() < 0.7:
            segs = nudge(rng, n, segs)
            L.append(f"vchange {rng.choice(['set', 'flip', 'view'])} " + " ".join(f"{a}:{c}:{d}" for a, c, d in segs))
        elif rng.random() < 0.5:
            segs = nudge(rng, n, segs)
            L += ["close", fmt(rng, n, segs)]
    return Episode([l.strip() for l in L] + ["vsnap", "close"], "contents that change")


def entry(rng):
    x = rng.random()
    if x < 0.15:
        e = [rng.choice([0, 4095, 512, 1]) for _ in range(7)]
    elif x < 0.4:
        b = rng.randrange(4090)
        e = [b + rng.randrange(0, 6) for _ in range(7)]
    elif x < 0.6:
        e = [rng.choice([0, 1, 2, 127, 128, 255, 256, 257, 2047, 2048, 4094, 4095]) for _ in range(7)]
    elif x < 0.8:
        # prefix counts of a real block
        c, e = 0, []
        for _ in range(7):
            c += rng.choice([0, 512, rng.randrange(513)])
            e.append(c)
        k = rng.randrange(8)
        e = e[:k] + [4095] * (7 - k)
    else:
        e = [rng.randrange(4096) for _ in range(7)]
    return sorted(e)


def all_entries(values):
    """All non-decreasing sequences of seven of these values."""
    return combinations_with_replacement(sorted(set(values)), 7)


def entries_episodes(rng, strats, values, size=200):
    L, eps = [], []
    for e in all_entries(values):
        l1 = rng.choice([0, (1 << 44) - 1, rng.randrange(1 << 44)])
        for s in strats:
            L.append(f"find {s} {l1} " + " ".join(map(str, e)))
        if len(L) > size:
            eps.append(Episode(L, "all entries over a few values"))
            L = []
    return eps + ([Episode(L, "all entries over a few values")] if L else [])


def staircase_episodes(rng, strats, step, size=200):
    """Every value at every place, along with others that differ from it by multiples of a step."""
    L, eps = [], []
    for c in range(-6 * step, 4096):
        e = [min(max(c + k * step, 0), 4095) for k in range(7)]
        L.append(f"find {rng.choice(strats)} {rng.choice([0, 1 << rng.randrange(44), rng.randrange(1 << 44)])} " + " ".join(map(str, e)))
        if len(L) > size:
            eps.append(Episode(L, f"entries in steps of {step}"))
            L = []
    return eps + ([Episode(L, f"entries in steps of {step}")] if L else [])


def find_episode(rng, strats, count=40):
    L = []
    for _ in range(count):
        e = entry(rng)
        l1 = rng.choice([0, 1, (1 << 44) - 1, 1 << 43, rng.randrange(1 << 44)])
        for s in strats:
            L.append(f"find {s} {l1} " + " ".join(map(str, e)))
    return Episode(L, "block search")
