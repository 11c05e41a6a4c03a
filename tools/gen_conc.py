"""Scripts for the driver `conc`: shared objects and the queries several threads put to them."""
import gen_rank as gr
from vf import Episode


def world(rng, threads=4, per_thread=60, reps=20, big=20000, strats=("linear", "binary")):
    L = ["world"]
    vecs, ints = {}, {}
    slot = 0
    for _ in range(rng.randrange(1, 4)):
        n, segs = gr.vector(rng, big=big)
        if len(segs) > 1500:
            segs = segs[:1500]
        # equal vectors with different histories
        for h in rng.sample(range(5), rng.randrange(1, 4)):
            L.append(f"cvec {slot} {n} {h}" + "".join(f" {a}:{c}:{d}" for a, c, d in segs))
            vecs[slot] = (n, segs)
            slot += 1
    for _ in range(rng.randrange(1, 3)):
        w = rng.randrange(1, 65)
        k = rng.randrange(0, 80)
        L.append(f"cint {slot} {w}" + "".join(f" {rng.getrandbits(w):x}" for _ in range(k)))
        ints[slot] = k
        slot += 1
    L.append("begin")

    def edge(t):
        """A number below t, often next to where blocks and samples end."""
        if rng.random() < 0.5:
            return rng.randrange(t)
        s = rng.choice([512, 4096, 8192])
        return min(t - 1, max(0, rng.randrange(t // s + 1) * s + rng.randrange(-2, 3)))

    def query():
        x = rng.random()
        if x < 0.1:
            s = rng.choice(list(ints))
            if rng.random() < 0.2:
                return f"ivals iter {s}"
            i = rng.randrange(ints[s] + 1)
            rt = rng.choice(["checked", "unchecked"]) if i < ints[s] else "checked"
            return f"iget {rt} {s} {i}"
        s = rng.choice(list(vecs))
        n, segs = vecs[s]
        t = gr.total(segs)
        if x < 0.4:
            return f"rank {rng.choice(list(strats) + ['dyn'])} {s} {edge(n + 2)} {rng.randrange(2)}"
        if x < 0.7:
            return f"select {rng.choice(strats)} {s} {edge(t + 2)}"
        if x < 0.8:
            i = rng.randrange(n + 1)
            return f"get {rng.choice(['bit', 'alias', 'unchecked']) if i < n else 'bit'} {s} {i}"
        if x < 0.9:
            a = rng.randrange(n + 1)
            b = rng.randrange(a, min(n, a + 150) + 1)
            return f"bits {rng.choice(['iter', 'own', 'get'])} {s} {a} {b}"
        if x < 0.93:
            return f"len {rng.choice(['index', 'vec'])} {s}"
        if x < 0.98 or n > 300:
            u = rng.choice(list(vecs))
            m = vecs[u][0]
            a = rng.randrange(n + 1)
            k = rng.randrange(min(n - a, 150) + 1)
            c = a if a + k <= m and rng.random() < 0.7 else rng.randrange(m + 1)
            d = min(m, c + k)
            return f"eq win {s} {a} {a + k} {u} {c} {d}"
        return f"debug fmt {s}"

    for round_ in range(2):
        hot = [query() for _ in range(8)]
        for t in range(threads):
            for _ in range(per_thread):
                L.append(f"q {t} " + (rng.choice(hot) if rng.random() < 0.3 else query()))
        L.append(f"go {reps}")
        # everything is as before
        for s in vecs:
            n, segs = vecs[s]
            if gr.total(segs) < 3000:
                L.append(f"q 0 raw words {s}")
                L.append(f"q 0 bits iter {s} 0 {n}")
        L.append("go 1")
    L.append("end")
    return Episode(L, "shared objects")


def storm(rng, reps, threads=8, per_thread=12):
    """Few queries put very often, most of them to one structure, from all threads."""
    n = rng.choice([60000, 100000, 400000]) + rng.randrange(5000)
    segs = rng.choice([[(0, n, 1)], [(0, (n + 1) // 2, 2)], [(0, (n + 6) // 7, 7)],
                       [(0, n // 4, 1), (n // 2, n // 4, 1)], gr.vector(rng, n, noisy=False)[1]])
    t = gr.total(segs)
    text = "".join(f" {a}:{c}:{d}" for a, c, d in segs)
    L = ["world", f"cvec 0 {n} {rng.choice([0, 3])}{text}", f"cvec 1 {n} 0{text}"]
    w = rng.randrange(1, 65)
    L += ["cint 2 %d" % w + "".join(f" {rng.getrandbits(w):x}" for _ in range(200)), "begin"]
    for _ in range(3):
        st = rng.choice(["linear", "binary"])
        kind = rng.choice(["select", "select", "rank", "both", "mixed"])
        for th in range(threads):
            for _ in range(per_thread):
                x = rng.random()
                k = kind if kind in ("select", "rank") else rng.choice(["select", "rank"])
                if kind == "mixed" and x < 0.5:
                    a = rng.randrange(n - 100)
                    L.append(f"q {th} " + rng.choice([f"get alias 0 {rng.randrange(n)}", f"iget checked 2 {rng.randrange(200)}",
                                                      f"bits {rng.choice(['iter', 'own'])} 0 {a} {a + 70}", f"len index {rng.randrange(2)}",
                                                      f"eq win 0 {a} {a + 90} 1 {a} {a + 90}"]))
                elif k == "select":
                    L.append(f"q {th} select {st} 0 {rng.randrange(t + 1)}")
                else:
                    L.append(f"q {th} rank {st} 0 {rng.randrange(n + 1)} {rng.randrange(2)}")
        L.append(f"storm {reps}")
    return Episode(L + ["end"], "many queries at once")
