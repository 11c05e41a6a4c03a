"""Seeded random scripts for the driver `bits`. The generator only keeps track of lengths, so that
it can aim at interesting positions; it does not know any result."""
from vf import Episode

PRIM = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
SIZES = [0, 1, 2, 3, 7, 8, 9, 15, 31, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 160,
         191, 192, 193, 255, 256, 257, 300, 319, 320, 321]
HUGES = [f"H{k}" for k in range(10)]

GET_PLAIN = ["bit", "alias"]
GET_WRAP = ["ref", "refref", "box", "rc", "dyn", "boxdyn", "mut", "boxmut", "rc2", "rcbox", "boxrc", "boxbox", "refrc",
            "rcdyn", "mutmut"]
GET_UNCH = ["unchecked", "alias_u", "ref_u", "box_u", "rc_u", "mut_u", "rc2_u", "dyn_u", "boxdyn_u", "boxrc_u", "boxmut_u"]
SET_PLAIN = ["bit", "alias"]
SET_WRAP = ["mut", "refref", "box", "boxdyn", "mutbox", "boxbox", "mutdyn"]
SET_UNCH = ["unchecked", "alias_u", "mut_u", "box_u", "dyn_u", "boxdyn_u"]
# wrappers of the word or of the words themselves
VAL_GET = ["val_ref", "val_rc", "val_box", "val_boxmut", "val_mut"]
VAL_SET = ["val_box", "val_boxmut", "val_mut"]
ROOT_GET = {"plain": [], "wrap": ["dynacc", "asref"], "unch": []}
ROOT_SET = {"plain": ["bv"], "wrap": ["dynacc", "bv_mut", "bv_box"], "unch": ["bv_u"]}


class Profile:
    """What an episode may contain."""

    def __init__(self, ops, kinds=("bv",), routes=("plain",), bad=0.0, depth=0, sizes=None,
                 length=60, muts=True, view_over=0.0, slice_unchecked=0.0, snap_every=0.0,
                 iter_routes=("iter", "ref", "own", "new", "ownmut", "bv"), ends=("snap",)):
        self.__dict__.update(locals())


class Win:
    __slots__ = ("a", "b", "lim")

    def __init__(self, a, b, lim):
        self.a, self.b, self.lim = a, b, lim

    @property
    def n(self):
        return self.b - self.a


class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof
        self.lines = []

    def emit(self, *toks):
        self.lines.append(" ".join(str(t) for t in toks))

    # -- choices

    def size(self, kind):
        r = self.r
        if kind in PRIM:
            return PRIM[kind]
        if kind == "words":
            return 64 * r.choice([0, 1, 1, 2, 2, 3, 4, 8, 9, 16, 17])
        if self.p.sizes:
            return r.choice(self.p.sizes)
        return r.choice(SIZES) if r.random() < 0.8 else r.randrange(0, 700)

    def index(self, n, base=0):
        """A valid index of a window of length n that starts at position `base` of its root."""
        r = self.r
        x = r.random()
        if x < 0.2:
            return r.choice([0, n - 1, n // 2, min(1, n - 1), max(0, n - 2)])
        if x < 0.6:
            # close to a word boundary of the root
            k = 64 * r.randrange((base // 64), (base + n) // 64 + 1) + r.choice([-1, 0, 1])
            if base <= k < base + n:
                return k - base
        return r.randrange(n)

    def bad_index(self, n):
        r = self.r
        x = r.random()
        if x < 0.45:
            return n + r.choice([0, 0, 1, 2, 63, 64, 65])
        if x < 0.6:
            return n + r.randrange(1, 5000)
        return r.choice(HUGES)

    def ones(self, n):
        r = self.r
        d = r.choice([0, 0.02, 0.3, 0.5, 0.9, 1])
        if d == 1:
            return list(range(n))
        out = [i for i in range(n) if r.random() < d]
        return out

    # -- objects

    def new(self, slot, kind=None, n=None, ones=None):
        kind = kind or self.r.choice(self.p.kinds)
        n = self.size(kind) if n is None else n
        ones = self.ones(n) if ones is None else ones
        self.emit("new", slot, kind, n, *ones)
        return kind, n

    def routes(self, op, root, valid, kind):
        out = []
        plain, wrap, unch = (GET_PLAIN, GET_WRAP, GET_UNCH) if op == "get" else (SET_PLAIN, SET_WRAP, SET_UNCH)
        tab = ROOT_GET if op == "get" else ROOT_SET
        bvroot = root and kind == "bv"
        held = [] if not root or kind == "bv" else VAL_GET if op == "get" else VAL_SET
        if "plain" in self.p.routes:
            out += plain + (tab["plain"] * 2 if bvroot else [])
        if "wrap" in self.p.routes:
            out += wrap + (tab["wrap"] if bvroot else held)
        if "unch" in self.p.routes and valid:
            out += unch + (tab["unch"] * 2 if bvroot else [x + "_u" for x in held])
        return out or ["bit"]

    def session(self, slot, kind, n):
        self.emit("open", slot)
        # windows of plain words and integers begin with an explicitly constructed view
        depth = self.p.depth
        self.scope([Win(0, n, n)], True, depth, True, kind, self.p.length)
        self.emit("close")

    def scope(self, wins, mut, depth, root, kind, budget):
        r, p = self.r, self.p
        budget = max(2, int(budget * r.uniform(0.3, 1)))
        ops = list(p.ops.items())
        while budget > 0:
            budget -= 1
            x = r.random() * sum(w for _, w in ops)
            for op, w in ops:
                x -= w
                if x <= 0:
                    break
            sd = r.randrange(len(wins))
            w = wins[sd]
            plain_root = root and kind != "bv"
            if op in ("get", "set", "flip"):
                if op != "get" and not mut:
                    continue
                live = max(0, min(w.n, w.lim - w.a))
                valid = live > 0 and r.random() >= p.bad
                if not valid and p.bad == 0:
                    continue
                if valid:
                    i = self.index(live, w.a)
                else:
                    i = self.bad_index(live)
                rt = r.choice(self.routes(op, root, valid, kind))
                if op == "set":
                    self.emit("set", sd, i, r.randrange(2), rt)
                else:
                    self.emit(op, sd, i, rt)
                if op != "get" and r.random() < p.snap_every and not plain_root and w.b <= w.lim:
                    self.emit("wsnap", sd)
            elif op in ("len", "empty"):
                if not plain_root and w.n < 1 << 29:
                    self.emit(op, sd)
            elif op == "wsnap":
                if not plain_root and w.n < 5000:
                    self.emit("wsnap", sd)
            elif op == "slice":
                if depth > 0 and not plain_root:
                    self.slice(wins, sd, mut, depth, kind, budget)
                    budget = int(budget * 0.7)
            elif op == "split":
                if depth > 0 and not plain_root:
                    self.split(wins, sd, mut, depth, kind, budget)
                    budget = int(budget * 0.7)
            elif op == "view":
                if depth > 0:
                    self.view(wins, sd, mut, depth, kind, budget, plain_root)
                    budget = int(budget * 0.7)
            elif op == "iter":
                if not plain_root and w.n < 5000:
                    self.iter(sd, w, mut, root and kind == "bv")

    def submut(self, mut):
        return mut and self.p.muts and self.r.random() < 0.7

    def bound(self, left, v, n):
        """A way to write the bound v: kind and number."""
        r = self.r
        c = []
        if left:
            c.append(("i", v))
            if v > 0:
                c.append(("x", v - 1))
            if v == 0:
                c.append(("u", 0))
        else:
            c.append(("x", v))
            if v > 0:
                c.append(("i", v - 1))
            if v == n:
                c.append(("u", 0))
        return r.choice(c)

    def cut(self, w):
        """A position in 0..n, with a preference for the word boundaries of the root."""
        r = self.r
        if w.n == 0:
            return 0
        x = r.random()
        if x < 0.2:
            return r.choice([0, w.n])
        if x < 0.6:
            k = 64 * r.randrange(w.a // 64, w.b // 64 + 1) + r.choice([-1, 0, 0, 1]) - w.a
            if 0 <= k <= w.n:
                return k
        return r.randrange(w.n + 1)

    def slice(self, wins, sd, mut, depth, kind, budget):
        r, w = self.r, wins[sd]
        m = self.submut(mut)
        if w.n < 1 << 29 and r.random() < self.p.bad:
            n = w.n
            x = r.random()
            if x < 0.3:        # reversed
                if n < 1:
                    return
                e = r.randrange(n)
                s = r.randrange(e + 1, n + 1)
                sk, s = self.bound(True, s, n)
                ek, e = self.bound(False, e, n)
            elif x < 0.6:      # too long
                s = r.randrange(n + 1)
                sk, s = self.bound(True, s, n)
                ek, e = r.choice([("x", n + 1 + r.randrange(70)), ("i", n + r.randrange(70)),
                                  ("x", r.choice(HUGES)), ("i", r.choice(HUGES))])
            elif x < 0.8:      # starts too late
                sk, s = r.choice([("i", n + 1 + r.randrange(70)), ("x", n + r.randrange(70)),
                                  ("i", r.choice(HUGES)), ("x", r.choice(HUGES))])
                ek, e = r.choice([("u", 0), ("x", n), ("x", r.choice(HUGES))])
            else:
                sk, s = r.choice(["i", "x"]), r.choice(HUGES)
                ek, e = r.choice(["i", "x"]), r.choice(HUGES)
            self.emit("slice", sd, int(m), sk, s, ek, e, "checked")
            self.emit("close")
            return
        if w.n >= 1 << 29:
            s, e = sorted((r.randrange(200), r.randrange(200)))
        else:
            s, e = sorted((self.cut(w), self.cut(w)))
        sk, sv = self.bound(True, s, w.n)
        ek, ev = self.bound(False, e, w.n)
        rt = "unchecked" if r.random() < self.p.slice_unchecked else "checked"
        self.emit("slice", sd, int(m), sk, sv, ek, ev, rt)
        self.scope([Win(w.a + s, w.a + e, w.lim)], m, depth - 1, False, kind, budget // 2)
        self.emit("close")

    def split(self, wins, sd, mut, depth, kind, budget):
        r, w = self.r, wins[sd]
        m = self.submut(mut)
        if w.n == 0 or r.random() < self.p.bad:
            if self.p.bad == 0:
                return
            if w.n >= 1 << 29:
                return
            self.emit("split", sd, int(m), self.bad_index(w.n))
            self.emit("close")
            return
        k = min(self.cut(w), w.n - 1) if w.n < 1 << 29 else r.randrange(300)
        self.emit("split", sd, int(m), k)
        self.scope([Win(w.a, w.a + k, w.lim), Win(w.a + k, w.b, w.lim)], m, depth - 1, False, kind,
                   budget // 2)
        self.emit("close")

    def view(self, wins, sd, mut, depth, kind, budget, plain_root):
        r, w = self.r, wins[sd]
        m = self.submut(mut)
        rt = r.choice(["ref", "box"] if m else ["ref", "box", "rc", "rc2"])
        if r.random() < self.p.bad:
            a = r.randrange(1, 200)
            self.emit("view", sd, int(m), a, r.randrange(a), rt)
            self.emit("close")
            return
        if w.n < 1 << 29:
            a, b = sorted((self.cut(w), self.cut(w)))
        else:
            a, b = 0, 100
        be = b
        if r.random() < self.p.view_over:
            if r.random() < 0.3:
                be, b = r.choice(HUGES), 1 << 30
            else:
                be = b = max(b, w.n) + r.randrange(1, 200)
        self.emit("view", sd, int(m), a, be, rt)
        # views of views lose one level, and plain objects have less of them
        d = min(depth - 1, 1) if plain_root else depth - 1
        self.scope([Win(w.a + a, w.a + b, min(w.lim, w.b))], m, d, False, kind, budget // 2)
        self.emit("close")

    def iter(self, sd, w, mut, bvroot):
        r = self.r
        rts = [x for x in self.p.iter_routes if (x != "bv" or bvroot) and (x != "ownmut" or mut)]
        self.emit("iter", sd, r.choice(rts))
        over = w.b > w.lim
        left = w.n
        for _ in range(r.randrange(1, 14)):
            x = r.random()
            if x < 0.3:
                for _ in range(r.choice([1, 1, 2, 5, 70])):
                    self.emit("next")
                    if left <= 0:
                        break
                    left -= 1
            elif x < 0.45:
                self.emit(r.choice(["ilen", "ihint"]))
            elif x < 0.6:
                k = r.choice([0, 1, left, left + 1, r.choice(HUGES), r.randrange(left + 2)])
                self.emit("adlen", k)
            elif x < 0.8 and not over:
                k = r.choice([0, 0, 1, 2, 63, 64, max(left - 1, 0), left, r.choice(HUGES)])
                self.emit("nth", k)
                left = max(0, left - k - 1) if not isinstance(k, str) else 0
            elif x < 0.85:
                self.emit("drain", "next")
                left = 0 if not over else left
            elif x < 0.9 and not over:
                self.emit(*r.choice([("drain", "collect"), ("drain", "fold"), ("count",), ("last",)]))
                break
        else:
            self.emit("ihint")
        self.emit("close")


def episode(rng, prof, why=""):
    g = Gen(rng, prof)
    kind, n = g.new(0)
    g.session(0, kind, n)
    for e in prof.ends:
        g.emit(*(e + " 0").split(" ")) if e != "raws" else raws(g, 0, kind)
    return Episode(g.lines, why)


def raws(g, slot, kind):
    for rt in (["", "asref", "backing"] if kind == "bv" else [""]):
        g.emit(*(["raw", slot] + ([rt] if rt else [])))


def patterns(n, i, r):
    """Contents of a word that an operation on bit i could get wrong."""
    return [[], list(range(n)), [i], [k for k in range(n) if k != i], list(range(i)), list(range(i + 1)),
            list(range(i, n)), list(range(i + 1, n)), [k for k in range(n) if r.random() < 0.5]]


def word_patterns(rng, kinds, get, set_, look="snap 0", share=1.0):
    """Every position of a word under each pattern: read, set to either value and flipped."""
    eps = []
    for kind, n in kinds:
        for i in range(n):
            L = []
            for ones in patterns(n, i, rng):
                for op in ("get", "flip", "set 0", "set 1"):
                    if rng.random() >= share or op == "get" and not get:
                        continue
                    o = op.split(" ")
                    rt = rng.choice(get if op == "get" else set_)
                    L += [f"new 0 {kind} {n} " + " ".join(map(str, ones)), "open 0",
                          " ".join([o[0], "0", str(i)] + o[1:] + [rt]), "close"]
                    if op != "get":
                        L.append(look)
            eps.append(Episode(L, f"bit {i} of {kind}"))
    return eps


def word_routes(rng, kinds, get, set_):
    """Every position of a word through each route, with the bit set and not set."""
    eps = []
    for kind, n in kinds:
        for i in range(n):
            L = []
            pats = patterns(n, i, rng)
            for op in ("get", "flip", "set 0", "set 1"):
                o = op.split(" ")
                for rt in get if op == "get" else set_:
                    for has in (True, False):
                        ones = rng.choice([p for p in pats if (i in p) == has] or pats)
                        L += [f"new 0 {kind} {n} " + " ".join(map(str, ones)), "open 0",
                              " ".join([o[0], "0", str(i)] + o[1:] + [rt]), "close"]
                        if op != "get":
                            L.append("snap 0")
            eps.append(Episode([l.strip() for l in L], f"bit {i} of {kind}"))
    return eps


def each_place(rng, kind, n, get, set_):
    """Every position, read, flipped and set through each of these routes."""
    eps = []
    for rt in list(get) + [None]:
        ones = [i for i in range(n) if rng.random() < 0.5]
        eps.append(Episode([f"new 0 {kind} {n} " + " ".join(map(str, ones)), "open 0"]
                           + [f"get 0 {i} {rt or 'bit'}" for i in range(n)] + ["close"], "every position"))
    for rt in set_:
        L = [f"new 0 {kind} {n}", "open 0"]
        places = list(range(n))
        for op in ("flip", "set", "flip"):
            rng.shuffle(places)
            L += [f"flip 0 {i} {rt}" if op == "flip" else f"set 0 {i} {rng.randrange(2)} {rt}" for i in places]
            L += ["close", "snap 0", "open 0"]
        eps.append(Episode(L[:-1], "every position"))
    return eps


def cuts(rng, n, points, prof, mut=None, share=1.0, writes=False):
    """A window and a cut in it at all combinations of these points."""
    g = Gen(rng, prof)
    eps = []
    ones = [i for i in range(n) if i * i % 7 < 3]
    for a in points:
        for b in points:
            for k in points:
                if not a <= k < b <= n:
                    continue
                for m in (0, 1):
                    for sm in (0, 1) if m else (0,):
                        if mut is not None and sm != mut or rng.random() >= share:
                            continue
                        sk, s = g.bound(True, a, n)
                        ek, e = g.bound(False, b, n)
                        L = [f"new 0 bv {n} " + " ".join(map(str, ones)), "open 0",
                             f"slice 0 {m} {sk} {s} {ek} {e} {'unchecked' if rng.random() < prof.slice_unchecked else 'checked'}",
                             f"split 0 {sm} {k - a}", "len 0", "len 1", "wsnap 0", "wsnap 1"]
                        if writes and sm:
                            for sd, w in ((0, k - a), (1, b - k)):
                                for i in sorted({0, w - 1, w // 2} & set(range(w))):
                                    L.append(rng.choice([f"flip {sd} {i} bit", f"set {sd} {i} 0 bit", f"set {sd} {i} 1 alias"]))
                                L += ["wsnap 0", "wsnap 1"]
                        eps.append(Episode(L + ["close", "wsnap 0", "close", "wsnap 0", "close"], "all cuts"))
    return eps


def long_cuts(rng, muts):
    """Cuts close to powers of two in longer vectors."""
    eps = []
    for e in range(3, 14):
        for d in (-1, 0, 1):
            k = (1 << e) + d
            for m in muts:
                n = k + rng.choice([1, 2, 63, 64, 65, 1000, rng.randrange(1, 5000)])
                a = rng.choice([0, 0, 1, 64, rng.randrange(100)])
                ones = sorted({rng.randrange(n + a) for _ in range(20)})
                L = [f"new 0 bv {n + a} " + " ".join(map(str, ones)), "open 0", f"slice 0 1 i {a} u 0 checked" if a else f"slice 0 1 u 0 x {n} checked",
                     f"split 0 {m} {k}", "len 0", "len 1"]
                for _ in range(2):
                    for sd, i in ((0, k - 1), (1, 0), (0, 0), (1, n - k - 1), (0, rng.randrange(k)), (1, rng.randrange(n - k))):
                        rt = rng.choice(["bit", "alias", "unchecked"])
                        L.append(rng.choice([f"flip {sd} {i} {rt}", f"set {sd} {i} 1 {rt}", f"set {sd} {i} 0 {rt}"]) if m and rng.random() < 0.6
                                 else f"get {sd} {i} {rt}")
                L += [f"get 0 {k} bit", f"get 1 {n - k} bit", "close"]
                L += [f"get 0 {i} bit" for i in (k - 1, k, min(k + 1, n - 1), 0, n - 1)]
                eps.append(Episode(L + ["close", "close", "snap 0"], "cuts at powers of two"))
    return eps


def inner_episode(rng):
    """A vector that has been turned into a view of its words, possibly a view that is too long."""
    n = 64 * rng.randrange(0, 5)
    ones = [i for i in range(n) if rng.random() < 0.4]
    L = [f"new 0 bv {n} " + " ".join(map(str, ones)), "open 0"]
    for _ in range(rng.randrange(1, 4)):
        a = rng.choice([0, 0, 1, 3, 63, 64, rng.randrange(n + 2)])
        b = max(0, rng.choice([n, n, n + 1, n + 64, n + 5000, a, a - 1, n + 10**6, rng.randrange(a, max(a, n) + 2)]))
        L.append(f"view 0 1 {a} {b} inner")
        if a > b:
            L.append("close")
            continue
        places = [0, b - a - 1, b - a, n - a - 1, n - a, n - a + 1, n - a + 63, n - a + 64, n - a + 4000]
        for _ in range(rng.randrange(3, 15)):
            i = rng.choice(places + [rng.randrange(b - a + 1)])
            if i < 0:
                continue
            x = rng.random()
            rt = rng.choice(["bit", "alias", "bv", "bv", "bv_mut", "bv_box"])
            if x < 0.3:
                L.append(f"set 0 {i} {rng.randrange(2)} {rt}")
            elif x < 0.6:
                L.append(f"flip 0 {i} {rt}")
            elif x < 0.8:
                L.append(f"get 0 {i} {rng.choice(['bit', 'alias', 'asref'])}")
            elif x < 0.9:
                L += [f"slice 0 {rng.randrange(2)} i {min(i, b - a)} u 0 checked", "len 0", f"get 0 {rng.randrange(3)} bit", "close"]
            else:
                L += ["len 0", "empty 0"]
        L.append("close")
    return Episode([l.strip() for l in L] + ["close", "snap 0", "raw 0"], "a vector turned into a view")


def clone_episode(rng, prof):
    """Several copies of vectors, written through any view, dropped in any order."""
    g = Gen(rng, prof)
    live = {0: g.new(0, "bv")[1]}
    for k in range(1, rng.choice([1, 2, 3])):
        live[k] = g.new(k, "bv", n=max(0, live[0] + rng.choice([-64, -3, -1, 0, 1, 2, 60, 64])))[1]
    for _ in range(rng.randrange(3, 12)):
        x = rng.random()
        s = rng.choice(list(live))
        if x < 0.4:
            d = rng.choice([k for k in range(4) if k != s])
            g.emit("clone", s, d, rng.choice(["clone", "clone", "from", "from", "owned"]))
            live[d] = live[s]
            g.emit("snap", d)
            g.emit("raw", d)
            n = live[s]
            g.emit("eq", s, 0, n, d, 0, n, rng.choice(["ii", "mm", "deref"]))
        elif x < 0.85:
            g.session(s, "bv", live[s])
        elif len(live) > 1:
            g.emit("drop", s)
            del live[s]
        for k in live:
            g.emit("snap", k)
    for k in live:
        g.emit("raw", k)
    return Episode(g.lines, "clones")


def history_episode(rng, n, rounds=6):
    """The same questions again and again while the contents change, also those of a new vector that
    may lie where an older one was."""
    def fill():
        return [i for i in range(n) if rng.random() < rng.choice([0.1, 0.5, 0.9])]

    def new(s, ones):
        return f"new {s} bv {n} " + " ".join(map(str, ones))
    ones = fill()
    L = [new(0, ones).strip(), new(1, ones).strip()]
    for _ in range(rounds):
        a, b = sorted([rng.randrange(n + 1), rng.randrange(n + 1)])
        asks = ["debug 0", "snap 0", "raw 0", f"eq 0 0 {n} 1 0 {n} {rng.choice(['ii', 'deref', 'mm'])}", f"eq 0 {a} {b} 1 {a} {b} ii",
                f"eq 0 {a} {b} 0 {n - b} {n - a} ii", "debug 1", "raw 1"]
        L += rng.sample(asks, len(asks)) + rng.sample(asks, 4)
        s = rng.choice([0, 0, 1])
        x = rng.random()
        if x < 0.2:
            L += [f"drop {s}", new(s, fill()).strip()]
        elif x < 0.3:
            L += ["drop 1", "clone 0 1 clone"]
        elif n:
            L += [f"open {s}", f"flip 0 {rng.choice([0, n - 1, rng.randrange(n)])} {rng.choice(['bit', 'alias'])}", "close"]
    return Episode(L + ["debug 0", "debug 1", "snap 0", "raw 0"], "contents that change")


def eq_episode(rng, prof):
    """Two objects with related contents, compared at many windows."""
    g = Gen(rng, prof)
    combo = rng.choice([("bv", "bv")] * 5 + [("bv", "words"), ("words", "bv"), ("u64", "u16"), ("bv", "u32")])
    n1 = g.size(combo[0])
    n2 = g.size(combo[1])
    ones1 = g.ones(n1)
    x = rng.random()
    off = 0
    if x < 0.7:
        # the second one is a shifted copy
        off = rng.choice([0, 0, 1, 3, 63, 64, 65, rng.randrange(0, 130)])
        if combo[1] in ("bv",):
            n2 = max(0, n1 - off) + rng.choice([0, 0, 1, 5, 64])
        ones2 = [i - off for i in ones1 if 0 <= i - off < n2]
        if n2 and rng.random() < 0.4:
            k = rng.choice([0, n2 - 1, rng.randrange(n2)])
            ones2 = sorted(set(ones2) ^ {k})
    else:
        ones2 = g.ones(n2)
    g.new(0, combo[0], n1, ones1)
    g.new(1, combo[1], n2, ones2)
    routes = ["ii", "im", "mi", "mm", "rcbox", "nest", "viewii"]
    for _ in range(rng.randrange(5, 25)):
        if combo == ("bv", "bv") and rng.random() < 0.15:
            # within one object
            a = [rng.randrange(n1 + 1) for _ in range(2)]
            ln = rng.randrange(max(1, n1 + 1 - max(a)))
            g.emit("eq", 0, a[0], a[0] + ln, 0, a[1], a[1] + ln, rng.choice(["ii", "viewii"]))
            continue
        if combo == ("bv", "bv") and rng.random() < 0.1:
            g.emit("eq", 0, 0, n1, 1, 0, n2, "deref")
            continue
        # aligned windows of equal length, with a preference for those that agree
        a2 = rng.randrange(n2 + 1)
        a1 = a2 + off
        if a1 > n1 or rng.random() < 0.1:
            a1 = rng.randrange(n1 + 1)
        m = min(n1 - a1, n2 - a2)
        ln = rng.choice([0, m, m, rng.randrange(m + 1), min(m, 64), min(m, 1)])
        l1 = l2 = ln
        if rng.random() < 0.25:
            # one is a prefix of the other
            if rng.random() < 0.5 and a1 + l1 < n1:
                l1 += rng.choice([1, n1 - a1 - l1])
            elif a2 + l2 < n2:
                l2 += rng.choice([1, n2 - a2 - l2])
        g.emit("eq", 0, a1, a1 + l1, 1, a2, a2 + l2, rng.choice(routes))
        if rng.random() < 0.2 and n1 and combo[0] == "bv":
            g.emit("open", 0)
            g.emit("flip", 0, g.index(n1), "bit")
            g.emit("close")
    return Episode(g.lines, "equality")


def halves_line(rng, aligned):
    """Two programs for the two halves of a split. Every bit is set before it is used otherwise."""
    n = rng.choice([65, 127, 128, 130, 192, 200, 256, 320, 500])
    lo = rng.choice([0, 0, rng.randrange(n // 2)])
    hi = rng.choice([n, n, rng.randrange(n // 2 + 2, n + 1)])
    if aligned:
        cut = [p for p in range(0, n, 64) if lo <= p < hi]
        if not cut:
            lo, hi, cut = 0, n, list(range(0, n, 64))
        k = rng.choice([c for c in cut if c > lo] or cut) - lo if rng.random() < 0.95 else cut[0] - lo
    else:
        k = rng.randrange(hi - lo)

    def prog(ln, near):
        if ln == 0:
            return "-"
        used, out = [], []
        for _ in range(rng.randrange(3, 25)):
            if not used or rng.random() < 0.4:
                i = rng.choice([near, 0, ln - 1, rng.randrange(ln), min(ln - 1, max(0, near + rng.randrange(-70, 70)))])
                out.append(f"s{i}{rng.choice('+-')}")
                used.append(i)
            else:
                i = rng.choice(used)
                out.append(rng.choice([f"f{i}", f"g{i}", f"s{i}{rng.choice('+-')}"]))
        return ",".join(out + [f"g{i}" for i in set(used)])

    m = hi - lo
    p1, p2 = prog(k, k - 1), prog(m - k, 0)
    ini = ["x"] + [str(i) for i in range(n) if rng.random() < 0.3]
    return f"halves {n} {lo} {hi} {k} {rng.choice([500, 3000, 10000])} {p1} {p2} {','.join(ini)}"


def halves_episode(rng, aligned):
    return Episode([halves_line(rng, aligned)], "two threads")
