"""Seeded random scripts for the driver `ints`."""
from vf import Episode

HUGES = [f"H{k}" for k in range(10)]


def val(rng, w):
    m = (1 << w) - 1
    x = rng.random()
    if x < 0.2:
        return m
    if x < 0.3:
        return 0
    if x < 0.4:
        return 1 << (w - 1)
    if x < 0.5:
        return 1
    if x < 0.6:
        return m // 3
    return rng.randrange(m + 1)


def bad_val(rng, w):
    if w == 64:
        return None
    return rng.choice([1 << w, (1 << w) + 1, (1 << 64) - 1, (1 << 63), (1 << w) | val(rng, w),
                       rng.randrange(1 << w, 1 << 64)])


def bad_index(rng, n):
    x = rng.random()
    if x < 0.5:
        return n + rng.choice([0, 0, 1, 2, 63, 64])
    return rng.choice(HUGES) if x < 0.8 else n + rng.randrange(5000)


def index(rng, n, w):
    x = rng.random()
    if x < 0.25:
        return rng.choice([0, n - 1])
    if x < 0.7:
        # an element at the end of a word
        k = (64 * rng.randrange(1, max(2, n * w // 64 + 1))) // w + rng.choice([-1, 0, 0, 1])
        if 0 <= k < n:
            return k
    return rng.randrange(n)


class P:
    def __init__(self, bad=0.0, unch=0.0, raw=0.0, iters=0.0, snap=0.08, steps=60, widths=None,
                 routes=("checked", "dyn"), gets=1.0, ends=("isnap",), grow=0.6):
        self.__dict__.update(locals())


def episode(rng, p, w=None, why=""):
    L = []
    e = lambda *t: L.append(" ".join(str(x) for x in t))
    w = w or rng.choice(p.widths or range(1, 65))
    if rng.random() < 0.4:
        e("inew", 0, w)
    else:
        e("icap", 0, w, rng.choice([0, 0, 1, 2, 7, 8, 9, 63, 64, 65, 100, rng.randrange(500)]))
    n = 0
    if rng.random() < 0.7:
        # a bulk of elements
        for _ in range(rng.choice([1, 3, 64 // w + 1, 130 // w + 2, 200 // w + 3])):
            e("push", 0, f"{val(rng, w):x}")
            n += 1
    for _ in range(rng.randrange(p.steps // 3, p.steps)):
        x = rng.random()
        if x < p.snap:
            e("isnap", 0)
        elif x < p.snap + p.raw:
            e("iraw", 0)
        elif rng.random() < p.bad:
            y = rng.random()
            rt = rng.choice(p.routes)
            b = bad_val(rng, w)
            if y < 0.3 and b is not None:
                e("push", 0, f"{b:x}")
            elif y < 0.5 and n and b is not None:
                e("iset", 0, index(rng, n, w), f"{b:x}", rt)
            elif y < 0.75:
                e("iset", 0, bad_index(rng, n), f"{val(rng, w):x}", rt)
            else:
                e("iget", 0, bad_index(rng, n), rt)
            if rng.random() < 0.5:
                e("isnap", 0)
                if p.raw:
                    e("iraw", 0)
        elif rng.random() < p.iters:
            iterate(rng, e, n, rng.choice(["iter", "ref"]))
        else:
            y = rng.random()
            rt = "unchecked" if rng.random() < p.unch else rng.choice(p.routes)
            if n == 0 or y < p.grow * 0.6:
                e("push", 0, f"{val(rng, w):x}")
                n += 1
            elif y < 0.75:
                i = index(rng, n, w)
                e("iset", 0, i, f"{val(rng, w):x}", rt)
                for j in (i - 1, i, i + 1):
                    if 0 <= j < n and rng.random() < 0.4:
                        e("iget", 0, j, rt)
            elif y < 0.95:
                e("iget", 0, index(rng, n, w), rt)
            else:
                e(rng.choice(["iempty", "ilenv"]), 0)
    for x in p.ends:
        e(x, 0)
    if p.iters:
        iterate(rng, e, n, "own")
    return Episode(L, why or f"width {w}")


def iterate(rng, e, n, rt):
    e("iiter", 0, rt)
    left = n
    for _ in range(rng.randrange(1, 12)):
        x = rng.random()
        if x < 0.3:
            for _ in range(rng.choice([1, 1, 2, 5, 30])):
                e("next")
                if left <= 0:
                    break
                left -= 1
        elif x < 0.5:
            e(rng.choice(["ilen", "ihint"]))
        elif x < 0.62:
            e("adlen", rng.choice([0, 1, left, left + 1, rng.choice(HUGES), rng.randrange(left + 2)]))
        elif x < 0.82:
            k = rng.choice([0, 0, 1, 2, 9, max(left - 1, 0), left, rng.choice(HUGES)])
            e("nth", k)
            left = 0 if isinstance(k, str) else max(0, left - k - 1)
        elif x < 0.86:
            e("drain", "next")
            left = 0
        elif x < 0.92:
            e(*rng.choice([("drain", "collect"), ("drain", "fold"), ("count",), ("last",)]))
            break
    else:
        e("ihint")
    e("close")


def every_width(rng, elements=3, dense=False):
    """For every width: fill three words, overwrite every element with its complement, one by
    one, reading everything and the words as they go."""
    out = []
    for w in range(1, 65):
        L = []
        m = (1 << w) - 1
        n = min(400, 64 * elements // w + 3)
        L.append(f"icap 0 {w} {rng.choice([0, 1, n, 2 * n])}")
        vs = []
        for i in range(n):
            v = m if i % 2 == 0 else rng.randrange(m + 1)
            vs.append(v)
            L.append(f"push 0 {v:x}")
            if dense or i % 16 == 3:
                L.append("iraw 0")
        L.append("isnap 0")
        order = list(range(n))
        rng.shuffle(order)
        for i in order[:60 if not dense else n]:
            vs[i] ^= m
            L.append(f"iset 0 {i} {vs[i]:x} checked")
            L.append("isnap 0" if n <= 40 or rng.random() < 0.1 else f"iget 0 {max(i - 1, 0)} checked")
        L += ["isnap 0", "iraw 0"]
        out.append(Episode(L, f"width {w}"))
    return out


def long_ones(rng, count, sets, widths=range(1, 65), look=("isnap",)):
    """At every width a vector of many elements, of which some get overwritten, some of them in
    runs, and all get looked at."""
    out = []
    for w in widths:
        m = (1 << w) - 1
        n = count + rng.randrange(200)
        L = [f"inew 0 {w}" if rng.random() < 0.5 else f"icap 0 {w} {rng.choice([0, 1, n // 2, n, 2 * n])}"]
        k = 0
        mode = rng.choice(["any", "full", "any"])
        while k < n:
            j = min(n - k, rng.choice([1, 70, 500, 1000]))
            L.append("pushes 0 " + " ".join(f"{m if mode == 'full' else val(rng, w):x}" for _ in range(j)))
            k += j
            if rng.random() < 0.5:
                L += [f"{x} 0" for x in look]
        at = rng.randrange(n)
        for _ in range(sets):
            at = (at + rng.choice([1, 1, 1, 2])) % n if rng.random() < 0.8 else rng.choice([rng.randrange(n), n - 1])
            L.append(f"iset 0 {at} {rng.choice([0, m, val(rng, w)]):x} {rng.choice(['checked', 'dyn', 'unchecked'])}")
            if rng.random() < 0.3:
                L.append(f"iget 0 {max(0, at - rng.randrange(2))} checked")
        out.append(Episode(L + [f"{x} 0" for x in look], f"many integers of {w} bits"))
    return out


def last_one(rng, top, looks=0.5, look="iraw", routes=("checked", "dyn", "unchecked")):
    """At every width and length the last element is overwritten, and the words are looked at."""
    out = []
    for w in range(1, 65):
        m = (1 << w) - 1
        L = [f"inew 0 {w}"]
        for n in range(1, top):
            L.append(f"push 0 {rng.choice([m, m, val(rng, w)]):x}")
            cross = (n - 1) * w // 64 != (n * w - 1) // 64
            vs = rng.sample([0, m, 1, 1 << (w - 1), rng.randrange(m + 1)], 2)
            for v in vs + [0] if cross else vs[:1]:
                L.append(f"iset 0 {n - 1} {v:x} {rng.choice(routes)}")
                if cross and look == "iraw" or rng.random() < looks:
                    L.append(f"{look} 0")
                elif look != "iraw":
                    L += [f"iget 0 {k} {rng.choice(routes)}" for k in (n - 1, max(0, n - 2))]
        out.append(Episode(L, f"the last of integers of {w} bits"))
    return out


def one_past(rng, base):
    """Long vectors: what does not exist and what does not fit, at every alignment of the end."""
    out = []
    for w in range(1, 65):
        m = (1 << w) - 1
        n = base + rng.randrange(64)
        L = [f"inew 0 {w}", "pushes 0 " + " ".join(f"{val(rng, w):x}" for _ in range(n))]
        for k in range(n, n + 65):
            L += [f"iget 0 {k} {rng.choice(['checked', 'dyn'])}", f"iset 0 {k} {rng.choice([0, m]):x} checked", f"iget 0 {k - 1} checked"]
            if w < 64:
                L += [f"push 0 {m + 1:x}", f"iset 0 {k - 1} {rng.choice([m + 1, m + 1, 2**64 - 1]):x} checked"]
            L.append(f"push 0 {val(rng, w):x}")
        out.append(Episode(L + ["isnap 0", "iraw 0"], f"the end of integers of {w} bits"))
    return out
