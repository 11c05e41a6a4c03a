"""Scripts for vectors that are much longer than what is compared bit by bit elsewhere, among them
vectors whose positions do not fit into 32 bits."""
from vf import Episode

TWO32 = 1 << 32
# around these sizes a narrower type overflows
STEPS = [1 << 12, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 26]


def length(rng):
    s = rng.choice(STEPS)
    return s + rng.choice([-1, 0, 1, 63, 64, rng.randrange(s)])


def near(n):
    """The powers of two at which positions below n lose their upper part."""
    return [s for s in (1 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31, TWO32) if s < n]


def point(rng, n, used):
    """A position, often one that equals a used one except for its upper bits."""
    r = rng.random()
    ns = near(n) or [1]
    if used and r < 0.5:
        p = rng.choice(used) ^ rng.choice([ns[-1], ns[-1], rng.choice(ns), 0, 64])
    elif r < 0.8:
        p = rng.choice([ns[-1], rng.choice(ns), n]) + rng.randrange(-70, 70)
    else:
        p = rng.randrange(n)
    return p if 0 <= p < n else rng.randrange(n)


def chain(rng, p, n, kinds="SLRU"):
    """Steps that lead to a window with position p in it; the steps and the index there."""
    out, off = [], 0
    for _ in range(rng.randrange(3)):
        a = rng.choice([p, max(off, p - rng.randrange(1, 200)), max(off, p - (near(n) or [1])[-1]), rng.randrange(off, p + 1)])
        b = rng.choice([n, min(n, p + rng.randrange(1, 300)), rng.randrange(p + 1, n + 1)])
        k = rng.choice(kinds)
        if k == "L" and b < n:
            out.append(f"L{b - off}")
            n = b
        elif k == "R":
            out.append(f"R{a - off}")
            off = a
        else:
            out.append(f"{'U' if k == 'U' else ''}{a - off}:{b - off}")
            off, n = a, b
    return ",".join(out) or "-", p - off


def bits(rng, calls, n=None, slow=True):
    n = TWO32 + rng.randrange(1, 1 << 20) if n is None else n
    used = []
    L = [f"hnew {n} {int(rng.random() < 0.3)}", "hlen - bv", "hwords"]
    for _ in range(calls):
        p = point(rng, n, used)
        ch, i = chain(rng, p, n)
        rt = rng.choice(["checked", "checked", "unchecked"]) if ch != "-" else rng.choice(["checked", "unchecked", "bv"])
        r = rng.random()
        if r < 0.3:
            L.append(f"hset {ch} {i} {int(rng.random() < 0.6)} {rt}")
            used.append(p)
        elif r < 0.5:
            L.append(f"hflip {ch} {i} {rt}")
            used.append(p)
        elif r < 0.75:
            L.append(f"hget {ch} {i} {rt}")
        elif r < 0.8:
            L.append(f"hlen {ch} {rng.choice(['len', 'iter', 'own', 'hint'])}")
        elif r < 0.86:
            a = max(0, p - rng.randrange(100))
            L.append(f"hbits {a}:{min(n, p + rng.randrange(1, 100))} {rng.choice(['iter', 'own'])}")
        elif r < 0.92:
            q = point(rng, n, used)
            k = rng.choice([rng.randrange(1, 100), min(n, 5000)])
            if max(p, q) + k <= n:
                L.append(f"heq {p}:{p + k} {q}:{q + k}")
        elif r < 0.97:
            L.append(f"hword {p // 64}")
        else:
            far = n + rng.choice([0, 1, 63, 64, TWO32])
            L.append(rng.choice([f"hget - {far} checked", f"hset - {far} 1 bv", f"hflip - {far} checked", f"hget {p}:{n} {far - p} checked"]))
        if used and rng.random() < 0.5:
            q = rng.choice(used)
            for s in near(n)[-3:]:
                if q & s:
                    L.append(f"hget - {q ^ s} checked")
            L.append(f"hget - {q} checked")
    return Episode(L, f"vector of {n} bits")


def clones(rng, calls, n=None):
    """The vector is replaced by its clone now and then; the original is written to before it goes."""
    e = bits(rng, calls, n)
    n = int(e.lines[0].split(" ")[1])
    L = []
    for l in e.lines:
        L.append(l)
        if rng.random() < 0.1 or len(L) == len(e.lines) // 2:
            L.append(f"hclone {point(rng, n, [])} {rng.choice(['clone', 'from'])}")
    return Episode(L, f"clones of {n} bits")


def clone_chain(rng, n, count=40):
    """Clones of clones of clones, with a look at everything each time."""
    bg = 0
    L = [f"hnew {n} 0"]
    for _ in range(count):
        if rng.random() < 0.5:
            L.append(f"hflip - {rng.choice([0, n - 1, rng.randrange(n)])} {rng.choice(['checked', 'bv'])}")
        if rng.random() < 0.3:
            L.append(f"hall - flip {coprime(rng, n)} {rng.choice(['checked', 'unchecked', 'bv'])}")
            bg = 1 - bg
        L.append(f"hclone {rng.choice([0, n - 1, rng.randrange(n)])} {rng.choice(['clone', 'clone', 'from'])}")
        L += [f"hpeek - {rng.choice(['checked', 'raw', 'words', 'bv', 'unchecked'])} {bg}", f"hword {(n - 1) // 64}", "hwords", "hlen - bv"]
    return Episode(L, f"a chain of clones of {n} bits")


def sizes(rng, exponents, per):
    """Lengths around the powers of two: the number of words, and the bits at the end."""
    out = []
    for e in exponents:
        L = []
        for d in (-65, -64, -63, -1, 0, 1, 2, 3, 4, 5, 63, 64, 65) + tuple(rng.randrange(1 << (e - 1)) for _ in range(per)):
            n = (1 << e) + d
            if n < 1:
                continue
            L += [f"hnew {n} 0", "hwords", f"hlen - {rng.choice(['bv', 'len'])}", f"hset - {n - 1} 1 {rng.choice(['checked', 'bv'])}",
                  f"hget - {n - 1} {rng.choice(['checked', 'unchecked', 'bv'])}", f"hword {(n - 1) // 64}", f"hget - {n} checked"]
        out.append(Episode(L, f"lengths around 2^{e}"))
    return out


def scans(rng, n, calls=12):
    """Long windows run through by iterators, from the beginning or from somewhere within."""
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    used = []
    for _ in range(rng.choice([3, 40])):
        p = point(rng, n, used)
        used.append(p)
        L.append(f"hflip - {p} checked")
    for _ in range(calls):
        a = rng.choice([0, 1, 63, 64, 65, rng.randrange(n)])
        a = min(a, n)
        b = rng.choice([n, n, n - 1, max(a, n - 64), max(a, n - rng.randrange(200)), rng.randrange(a, n + 1)])
        b = max(a, b)
        m = b - a
        k = rng.choice([0, 0, 0, 1, 2, 63, 64, min(m, 4096), m // 2, max(0, m - 1), m, m + 1, rng.randrange(m + 1)])
        ch = rng.choice([f"{a}:{b}", f"U{a}:{b}", f"{a}:{n},0:{m}", "-" if m == n else f"{a}:{b}"])
        x = rng.random()
        if x < 0.1:
            L.append(f"hlast {ch} {k}")
        elif x < 0.2:
            L.append(f"hcount {ch} {k}")
        else:
            L.append(f"hscan {ch} {k} {rng.choice(['next', 'nth'])} {rng.choice(['', 'own'])}{rng.choice(['next', 'fold', 'fold', 'collect', 'nth'])} {bg}")
    return Episode(L, f"iterators over {n} bits")


def coprime(rng, n):
    from math import gcd
    while True:
        s = rng.choice([1, 1, n - 1, 63, 64, 65, 511, 4097, rng.randrange(1, n + 1)])
        if s > 0 and gcd(s, n) == 1:
            return s


WRAPPED = ["mut", "mutmut", "box", "boxmut", "mutbox", "dyn", "boxdyn", "view", "viewbox", "viewdyn", "words", "boxwords"]
WRAPPED_READ = ["ref", "refref", "box", "rc", "rcs", "rcbox", "boxrc", "dyn", "boxdyn", "view", "viewrc", "viewbox"]

WORDS_READ = ["refwords", "refrefwords", "mutwords", "boxwords", "dynwords", "rcwords", "viewwords"]


def wrapped_everywhere(rng, n):
    """Every position through every wrapper."""
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    for p in {rng.randrange(n) for _ in range(rng.choice([0, 3, 40]))}:
        L.append(f"hflip - {p} checked")
    a = rng.choice([0, 1, 63, 64, rng.randrange(200)])
    for ch in ("-", f"{a}:{n}", f"R{a}"):
        for rt in WRAPPED:
            if "words" in rt and ch != "-":
                continue
            L.append(f"heach {ch} {rng.choice(['flip', 'set'])} {rt}{rng.choice(['', '_u']) if 'words' not in rt else ''}")
        for rt in WRAPPED_READ:
            L.append(f"hpeek {ch} {rt}{rng.choice(['', '_u'])} {bg}")
    for rt in WORDS_READ:
        L.append(f"hpeek - {rt} {bg}")
    return Episode(L, f"every position of {n} bits through wrappers")


def everywhere(rng, n, routes=("checked", "unchecked", "bv"), eaches=2, alls=4, windows=True):
    """Every position of a vector is written to: alone and undone again, and in some order."""
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    for p in {rng.randrange(n) for _ in range(rng.choice([0, 3, 40]))}:
        L.append(f"hflip - {p} checked")

    def window(rt):
        if rt == "bv" or not windows or rng.random() < 0.2:
            return "-"
        a, b = rng.choice([0, 1, 63, 64, 65, rng.randrange(200)]), rng.choice([0, 1, 63, 64, rng.randrange(200)])
        if a + b >= n:
            return "-"
        m = n - a - b
        return rng.choice([f"{a}:{n - b}", f"U{a}:{n - b}"] + ([f"R{a}"] if b == 0 else []) + ([f"L{n - b}"] if b and a == 0 else [])
                          + [f"{a}:{n},0:{m}"] + ([f"R{a},L{m}"] if b else []))

    def length_of(w):
        m = n
        for s in w.split(","):
            if s[0] in "LR":
                m = int(s[1:]) if s[0] == "L" else m - int(s[1:])
            elif s != "-":
                a, b = map(int, s.lstrip("U").split(":"))
                m = b - a
        return m
    for _ in range(eaches):
        rt = rng.choice(routes)
        L.append(f"heach {window(rt)} {rng.choice(['flip', 'set'])} {rt}")
    for _ in range(alls):
        rt = rng.choice(routes)
        how = rng.choice(["flip", "flip", "0", "1"])
        bg = {"flip": 1 - bg, "0": 0, "1": 1}[how]
        w = window(rt)
        L.append(f"hall {w} {how} {coprime(rng, length_of(w))} {rt}")
        rt = rng.choice(["get"] + list(routes))
        L.append(f"hpeek {window(rt)} {rt} {bg}")
        L += [f"hpeek - {rng.choice(['raw', 'words'])} {bg}", f"hword {(n - 1) // 64}"]
    L += [f"hscan - 0 next next {bg}", f"hword {(n - 1) // 64}"]
    return Episode(L, f"every position of {n} bits")


def start(rng, n):
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    for p in {rng.randrange(n) for _ in range(rng.choice([3, n // 3 if n < 300 else 60]))}:
        L.append(f"hflip - {p} checked")
    return L, bg


ROUTES = ["slice", "unchecked", "nested", "mixed", "split"]


def windows(rng, n, routes=ROUTES, accesses=("", "_u"), hows=("get", "flip", "set"), share=1.0):
    """All windows of a short vector."""
    L, bg = start(rng, n)
    for a in range(n):
        for rt in routes:
            if rng.random() < share:
                L.append(f"hwin {a} {rng.choice(hows)} {rt}{rng.choice(accesses)} {bg}")
        if a % 64 in (0, 1, 63):
            L += [f"hwin {a} {how} {rng.choice(routes)}{rng.choice(accesses)} {bg}" for how in hows]
    return Episode(L, f"all windows of {n} bits")


def slides(rng, n, routes=ROUTES, accesses=("", "_u"), hows=("get", "flip", "set"), count=20):
    """All windows of some lengths."""
    L, bg = start(rng, n)
    lengths = [rng.choice([rng.randrange(1, 200), 512, 4096, n, n // 2, rng.randrange(1, n)]) for _ in range(count)]
    for m, how in [(m, how) for m in (1, 2, 63, 64, 65, 128) for how in hows] + [(m, rng.choice(hows)) for m in lengths]:
        if m <= (min(n, 600) if how in ("iter", "eq") else n):
            L.append(f"hslide {m} {how} {rng.choice(routes)}{rng.choice(accesses)} {bg}")
    return Episode(L, f"windows of the same length in {n} bits")


def parts(rng, n, accesses=("", "_u"), count=12):
    """Splits of everything that lies right of a position, for all positions."""
    L, _ = start(rng, n)
    for k in [1, 2, 63, 64, 65] + [rng.choice([rng.randrange(1, 200), 512, 4096, rng.randrange(1, n)]) for _ in range(count)]:
        if k < n:
            L.append(f"hparts {k} {rng.choice(['flip', 'set'])} {rng.choice(['slice', 'unchecked'])}{rng.choice(accesses)}")
    return Episode(L, f"splits of {n} bits")


def int_everywhere(rng, w, n, routes=("checked", "unchecked")):
    L = [f"hinew {w} {n}"]
    for rt in routes:
        L += [f"hieach {w} {rt}", f"hipeek {rt} {w}"]
    return Episode(L, f"every one of {n} integers of {w} bits")


def crowds(rng, n, w):
    """Everything is read by several threads at once, again and again."""
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    for p in {rng.randrange(n) for _ in range(rng.choice([3, 40]))}:
        L.append(f"hflip - {p} checked")
    for rt in rng.sample(["par", "parget", "pariter", "parview", "parraw"], 5):
        L.append(f"hpeek - {rt} {bg}")
    L.append(f"hpeek - par {bg}")
    L.append(f"hinew {w} {n // 4}")
    L += [f"hipeek {rt}" for rt in rng.sample(["par", "pariter", "paru"], 3)]
    return Episode(L, f"several readers of all of {n} bits")


def rejects(rng, n, count):
    bg = rng.randrange(2)
    L = [f"hnew {n} {bg}"]
    for p in {rng.choice([0, n - 1, rng.randrange(n)]) for _ in range(rng.choice([0, 3, 20]))}:
        L.append(f"hflip - {p} checked")
    a, b = sorted([rng.randrange(n + 1), rng.choice([n, rng.randrange(n + 1)])])
    for ch in ["-", f"{a}:{b}", f"U{a}:{b}", f"{a}:{n},0:{b - a}"] + ([f"L{b}"] if b < n else []) + ([f"R{a}"] if a < n else []):
        L.append(f"hreject {ch} {count} checked")
    L += [f"hreject - {count} bv", f"hscan - 0 next next {bg}", f"hpeek - raw {bg}", f"hword {(n - 1) // 64}"]
    return Episode(L, f"rejections behind the end of {n} bits")


def int_rejects(rng, w, n):
    """At every length, and at every index, something is rejected."""
    L = [f"higrow {w} {n} {rng.choice([0, 1, 8, n, rng.randrange(2 * n)])}", "hilen len", "hiwords", f"hipeek {rng.choice(['checked', 'unchecked'])}"]
    if w < 64:
        L += [f"hibad {w} {rng.choice(['max', 'one'])}", "hipeek checked", "hiwords", f"hiset {rng.randrange(n)} 1 checked", f"hibad {w} one"]
    return Episode(L + ["hiscan 0 next next"], f"rejections of {n} integers of {w} bits")


def int_scans(rng, w, n, calls=8):
    L = [f"hinew {w} {n}"]
    big = (1 << min(w, 50)) - 1
    for _ in range(30):
        L.append(f"hiset {rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])} {rng.choice([0, big, rng.randrange(big + 1)])} checked")
    for c in range(calls):
        k = rng.choice([0, 0, 0, 1, 2, 63, 64, n // 2, n - 1, n, n + 1, rng.randrange(n)])
        L.append(f"hiscan {k} {rng.choice(['next', 'nth'])} {'own' if c == calls - 1 else ''}{rng.choice(['next', 'fold', 'collect', 'nth'])}")
    return Episode(L, f"iterators over {n} integers of {w} bits")


def prefixes(rng, n):
    """Windows that agree as far as they go, but have different lengths."""
    L = [f"hnew {n} {rng.randrange(2)}"]
    for s in [x for x in (1 << 6, 1 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31, TWO32) if x < n]:
        for _ in range(2):
            k = rng.choice([0, 1, 5, 64, 100, rng.randrange(1, 2000)])
            d = s * rng.choice([1, 1, max(1, (n - k) // s)])
            if k + d > n:
                continue
            a = rng.choice([0, 0, rng.randrange(n - k - d + 1)])
            b = rng.choice([0, a, rng.randrange(n - k + 1)])
            L += rng.choice([[f"heq {a}:{a + k + d} {b}:{b + k}"], [f"heq {b}:{b + k} {a}:{a + k + d}"]])
        if len(L) > 1 and rng.random() < 0.3:
            L.append(f"hflip - {rng.randrange(n)} bv")
    L += [f"heq - 0:{n - 1}", f"heq 0:{n - 1} -"]
    return Episode(L, f"windows of different lengths in {n} bits")


def compare(rng, n):
    """Windows that are equal, and then differ in one bit."""
    L = [f"hnew {n} {rng.randrange(2)}"]
    k = rng.choice([n // 2, n // 2 - rng.randrange(1, 200), n // 3])
    d = n - k
    for p in {rng.randrange(k) for _ in range(10)}:
        L.append(f"hflip - {p} checked")
        if d > 0:
            L.append(f"hflip - {p + d} checked")
    L.append(f"heq 0:{k} {d}:{n}")
    for p in [0, k - 1, k // 2, rng.randrange(k), (near(k) or [0])[-1]]:
        q = p + rng.choice([0, d])
        L += [f"hflip - {q} bv", f"heq 0:{k} {d}:{n}", f"heq {d}:{n} 0:{k}", f"hflip - {q} bv"]
    L += [f"heq 0:{k} {d}:{n}", f"heq 0:{k} {d}:{n - 1}", f"heq - 0:{n}", f"heq L{k} R{d}"]
    return Episode(L, f"windows of {k} bits")


def ranks(rng, calls, bg, n=None, strat=None):
    n = TWO32 + rng.randrange(1, 1 << 20) if n is None else n
    L = [f"hnew {n} {bg}"]
    used = []
    for _ in range(30):
        p = point(rng, n, used)
        used.append(p)
        L.append(f"hset - {p} {1 - bg} checked")
    exc = sorted(set(used))
    L.append(f"hbuild {strat or rng.choice(['linear', 'binary'])}")
    for _ in range(calls):
        p = min(n, max(0, rng.choice([rng.choice(used) + rng.randrange(-2, 3), point(rng, n, used), n])))
        if rng.random() < 0.6:
            L.append(f"hrank {p} {rng.randrange(2)} {rng.choice(['const', 'dyn'])}")
        elif bg:
            L.append(f"hselect {p}")
        else:
            L.append(f"hselect {rng.randrange(len(exc) + 3)}")
    L += [f"hrank {n} 1 const", f"hrank {n} 0 dyn", f"hrank {n + 1} 1 const", f"hrank {n + TWO32} 0 const",
          f"hselect {n}", f"hselect {n - len(exc) if bg else len(exc)}", f"hselect {(n if bg else 0) + TWO32}"]
    return Episode(L, f"index of {n} bits")


def ints(rng, calls, w, n=None):
    n = TWO32 // w + rng.randrange(1, 5000) if n is None else n
    L = [f"hinew {w} {n}", "hiwords", "hilen len"]
    used = []
    big = (1 << min(w, 50)) - 1
    ns = [s for x in (1 << 16, 1 << 20, 1 << 31, TWO32) for s in (x // w, x) if s < n] or [1]
    for _ in range(calls):
        i = rng.choice(ns + [n - 1]) + rng.randrange(-40, 40)
        if used and rng.random() < 0.4:
            i = rng.choice(used) + rng.choice([-1, 0, 1, -rng.choice(ns)])
        i = min(n - 1, max(0, i))
        r = rng.random()
        if r < 0.4:
            L.append(f"hiset {i} {rng.choice([0, big, rng.randrange(big + 1)])} {rng.choice(['checked', 'unchecked'])}")
            used.append(i)
        elif r < 0.85:
            L.append(f"higet {i} {rng.choice(['checked', 'unchecked'])}")
        elif r < 0.9:
            far = n + rng.choice([0, 1, 64, TWO32, 1 << 16])
            L.append(rng.choice([f"higet {far} checked", f"hiset {far} 0 checked"]))
        elif r < 0.95:
            L.append(f"hilen {rng.choice(['len', 'iter'])}")
        else:
            L += [f"hipush {rng.randrange(big + 1)}", "hiwords"]
            n += 1
        if used:
            q = rng.choice(used)
            L.append(f"higet {q} checked")
            for s in ns:
                if q >= s:
                    L.append(f"higet {q - s} checked")
    return Episode(L, f"{n} integers of {w} bits")
