#!/usr/bin/env python3
"""Shows that the trace specifications are bound to what is recorded: takes traces recorded from the
unchanged library, changes one observed value at a time and expects TLC to reject the trace at
exactly this call. Also lists which kinds of calls the traces contain.

Left out are: changes that give a tuple another size, which the drivers cannot produce; numbers of
allocations where no limit is stated; and what stand-ins of the coverage task were told to do, since
that is input.

usage: selftest.py [changes per kind of call]"""
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import vf

# which property's traces to take, and from which trace specifications
SOURCES = [("C02", "BitTrace"), ("C03", "BitTrace"), ("C04", "BitTrace"), ("C04", "IntTrace"), ("C05", "BitTrace"),
           ("C06", "BitTrace"), ("C08", "IntTrace"), ("C09", "IntTrace"), ("C10", "RankTrace"), ("C11", "RankTrace"),
           ("C12", "RankTrace"), ("C01", "HugeTrace"), ("C10", "HugeTrace"), ("C08", "HugeTrace"), ("C13", "SpaceTrace"),
           ("C14", "HalvesTrace"), ("C15", "BitTrace"), ("C15", "HugeTrace"), ("C18", "ReadersTrace"), ("C19", "BitTrace"),
           ("C20", "XTaskTrace"), ("C04", "HugeTrace"), ("C05", "HugeTrace"), ("C18", "RankTrace"),
           ("C02", "HugeTrace"), ("C03", "HugeTrace"), ("C07", "HugeTrace"), ("C09", "HugeTrace"), ("C14", "HugeTrace"), ("C16", "HugeTrace"),
           ("C18", "HugeTrace"), ("C18", "BitTrace")]
PREFIX = 1200
# lists that may be made longer or shorter, by tag; others are tuples
LISTS = {"bits": [(1,)], "words": [(1,)], "runs": [()], "segs": [()], "each": [()], "list": [()], "vals": [()],
         # what was odd
         "HugeTrace each": [(1,)]}
# measurements with a limit
LIMITED = {"index": 1}
INPUTS = {"tests": ["ok"], "probe": ["ok"], "report": ["ok"], "end": ["missing"]}


class Enough(Exception):
    pass


class Recorder(vf.Check):
    """Keeps traces instead of validating them."""

    def __init__(self, prop, module, wanted):
        super().__init__(prop)
        self.module, self.wanted, self.kept, self.chunks = module, wanted, {}, 0

    def model(self, module, *a, **k):
        if k.get("spec") == "GenSpec":
            return super().model(module, *a, **k)
        return ""

    def validate(self, module, trace, cfg=None):
        n = sum(1 for _ in open(trace))
        if module != self.module:
            return n, n, "", 0, 0
        with self._lock:
            self.chunks += 1
            new = set()
            lines = []
            for i, l in enumerate(open(trace)):
                if i >= PREFIX:
                    break
                lines.append(l)
                op = json.loads(l)["op"]
                if sum(1 for o, _ in self.kept if o == op) < self.wanted:
                    new.add((op, i))
            for op, i in random.Random(self.chunks).sample(sorted(new), len(new)):
                if sum(1 for o, _ in self.kept if o == op) < self.wanted:
                    self.kept[(op, (self.chunks, i))] = lines[:i + 1]
        return n, n, "", 0, 0

    def evidence(self):
        pass


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path + ("#",)
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path


def changed(rng, value, tag):
    """The value with one change somewhere, and where it was made."""
    v = copy.deepcopy(value)
    ps = [p for p in leaves(v) if not p or p[-1] != "#" or tag == "" or p[:-1] in LISTS.get(tag, [])]
    # a run of one element has no step
    ps = [p for p in ps if not (tag == "runs" and len(p) == 2 and p[1] == 2 and v[p[0]][3] == 1)]
    p = rng.choice(ps)
    if not p:
        if isinstance(v, bool):
            return not v, p
        if tag == "bool":
            return 1 - v, p
        return (v + rng.choice([1, 2, 64]) if isinstance(v, int) else v + "x"), p
    at = v
    for k in p[:-1]:
        at = at[k]
    if p[-1] == "#":
        if at and rng.random() < 0.5:
            at.pop()
        else:
            at.append(copy.deepcopy(at[-1]) if at else 0)
    else:
        x = at[p[-1]]
        at[p[-1]] = (not x) if isinstance(x, bool) else x + rng.choice([1, 2]) if isinstance(x, int) else x + "x"
    return v, p


def corrupt(rng, ev, module):
    """A changed copy of the event; what was changed."""
    e = copy.deepcopy(ev)
    if module == "XTaskTrace":
        ks = [k for k in e if k not in ["op", "ln", "new"] + INPUTS.get(e["op"], [])]
        if e["op"] == "start" or not ks:
            return None, "input"
        k = rng.choice(ks)
        e[k], p = changed(rng, e[k], "")
        return e, f"{k}{p}"
    tag, val = e["res"]
    if module == "SpaceTrace":
        i = rng.randrange(LIMITED.get(e["op"], 2))
        e["res"][1][i] = val[i] * 4 + 100000
        return e, f"measurement {i}"
    if tag in ("ok", "none") or rng.random() < 0.2:
        e["res"] = ["panic", 0] if tag != "panic" else ["ok", 0]
        return e, f"{tag} -> {e['res'][0]}"
    if tag == "panic":
        e["res"] = ["ok", 0]
        return e, "panic -> ok"
    e["res"][1], p = changed(rng, val, f"{module} {tag}" if (module, tag) == ("HugeTrace", "each") else tag)
    # these are compared as a set
    while tag == "wins" and {json.dumps(x) for x in e["res"][1]} == {json.dumps(x) for x in val}:
        e["res"][1], p = changed(rng, val, tag)
    return e, f"{tag}{p}"


def main():
    per = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ["VERIF_TIER"] = "quick"
    rng = random.Random(int(os.environ["VERIF_SEED"]))
    jobs = []
    seen = {}
    for prop, module in SOURCES:
        r = Recorder(prop, module, per)
        try:
            check.PLANS[prop](r)
        except vf.Violation:
            print(f"{prop}: violation while recording")
            sys.exit(1)
        finally:
            shutil.rmtree(r.work, ignore_errors=True)
        for (op, where), lines in sorted(r.kept.items()):
            seen.setdefault(module, {}).setdefault(op, 0)
            seen[module][op] += 1
            e, what = corrupt(rng, json.loads(lines[-1]), module)
            if e is not None:
                jobs.append((prop, module, op, what, lines[:-1], e, lines[-1]))
        print(f"{prop} {module}: {len(r.kept)} calls of {len({o for o, _ in r.kept})} kinds", flush=True)
    host = vf.Check("C01")
    missed = shapes = 0

    def one(job):
        prop, module, op, what, before, e, orig = job
        out = []
        for last in (orig, json.dumps(e) + "\n"):
            t = host.path("self.ndjson")
            with open(t, "w") as f:
                f.writelines(before + [last])
            try:
                acc, total, _, _, _ = host.validate(module, t)
            except vf.ToolError:
                # the change gave a value of another shape, which TLC cannot compare
                acc, total = "error", len(before) + 1
            os.remove(t)
            out.append((acc, total))
        return out

    try:
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            for job, (a, b) in zip(jobs, ex.map(one, jobs)):
                prop, module, op, what, before, e, orig = job
                shapes += b[0] == "error"
                good = a[0] == a[1] and b[0] in ("error", b[1] - 1)
                if not good:
                    missed += 1
                    print(f"NOT REJECTED {prop} {module} {op} {what}: recorded {a}, changed {b}")
                    print("   " + orig.strip()[:300])
                    print("   " + json.dumps(e)[:300], flush=True)
    finally:
        shutil.rmtree(host.work, ignore_errors=True)
    for m in sorted(seen):
        print(m, " ".join(f"{o}:{n}" for o, n in sorted(seen[m].items())))
    print(f"{len(jobs)} changed calls, {missed} not rejected as expected, {shapes} rejected for their shape")
    sys.exit(1 if missed else 0)


main()
