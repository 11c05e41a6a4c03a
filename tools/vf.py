"""Common machinery of the checks: building the driver from the current working tree, running
scripts with it, letting TLC judge the recorded traces, exhaustive TLC runs, evidence, reports."""
import concurrent.futures as cf
import fcntl
import hashlib
import itertools
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(ROOT), "repo")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
TARGET = os.path.join(ROOT, "target")
JOBS = max(2, min(8, os.cpu_count() or 2))
# seconds after which a check begins nothing new, as it has 900
BUDGET = 700

SIMD_FLAGS = "-C target-feature=+ssse3,+sse4.1"


class ToolError(Exception):
    pass


def have_simd():
    try:
        t = open("/proc/cpuinfo").read()
        return " ssse3 " in t and " sse4_1 " in t
    except OSError:
        return False


# ------------------------------------------------------------------------------- building

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def cargo(args, env_extra, target, cwd, timeout=800):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", **env_extra)
    env.pop("RUSTC_WRAPPER", None)
    if "RUSTFLAGS" not in env_extra:
        env.pop("RUSTFLAGS", None)
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


# build kind -> (target directory, cargo arguments, environment, subdirectory)
KINDS = {
    "debug": (TARGET, [], {}, "debug"),
    "release": (TARGET, ["--release"], {}, "release"),
    "simd": (os.path.join(TARGET, "simd"), ["--release"], {"RUSTFLAGS": SIMD_FLAGS}, "release"),
}


# what is built by the setup command
BINS = {
    "debug": ["bits", "ints", "rank", "space", "conc", "halves", "huge", "crowd"],
    "release": ["bits", "ints", "rank", "space", "conc", "halves", "huge", "crowd"],
    "simd": ["rank", "conc"],
}


def build(kind, bin_name, crate="driver"):
    """Builds one binary of the driver against the working tree of /repo. Returns its path, or
    None and the compiler's output if it does not compile."""
    target, args, env, sub = KINDS[kind]
    os.makedirs(target, exist_ok=True)
    cdir = os.path.join(ROOT, crate)
    want = tree_hash([os.path.join(REPO, "succinct_neo"), os.path.join(REPO, "Cargo.toml"), cdir])
    path = os.path.join(target, sub, bin_name)
    with open(os.path.join(target, ".lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, f".stamp-{kind}-{bin_name}")
        if os.path.exists(stamp) and os.path.exists(path) and open(stamp).read() == want:
            return path, ""
        # cargo goes by modification times, which need not change when the contents do
        last = os.path.join(target, f".tree-{kind}")
        if not os.path.exists(last) or open(last).read() != want:
            fp = os.path.join(target, sub, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("succinct_neo-", crate + "-")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            with open(last, "w") as f:
                f.write(want)
        if os.path.exists(stamp):
            os.remove(stamp)
        r = cargo(["build", "--offline", "--locked", "--bin", bin_name] + args, env, target, cdir)
        if r.returncode != 0:
            return None, r.stdout
        with open(stamp, "w") as f:
            f.write(want)
        return path, r.stdout


# ------------------------------------------------------------------------------- running

def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def run_driver(binary, script, trace, timeout, mem_gb=6, guard=""):
    """Runs a script. Whatever the code under test does to the process is part of the trace: an
    unfinished call is completed as a crash. Returns the number of recorded calls."""
    if os.path.exists(trace):
        os.remove(trace)
    p = subprocess.Popen([binary, script, trace], stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, preexec_fn=limits(mem_gb), text=True,
                         errors="replace", env=dict(os.environ, GUARD=guard))
    hung = False
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
    if not os.path.exists(trace):
        raise ToolError(f"driver did not start: {err[-500:]}")
    if p.returncode == 2:
        raise ToolError(f"driver rejected its script: {err[-500:]}")
    data = open(trace, "rb").read()
    tag = "hang" if hung else "crash"
    if data and not data.endswith(b"\n"):
        # the call is complete up to its result; a result is written in one piece
        data += f'["{tag}",0]}}\n'.encode()
        open(trace, "wb").write(data)
    elif p.returncode != 0:
        ln = 0
        if data:
            ln = json.loads(data.rstrip(b"\n").split(b"\n")[-1])["ln"]
        data += (json.dumps({"ln": ln, "op": "exit", "a": [], "rt": "", "res": [tag, 0]}) + "\n").encode()
        open(trace, "wb").write(data)
    return data.count(b"\n")


def tlc_env(heap="3g"):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:ParallelGCThreads=2"
    return e


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, meta, workers=1, env_extra=None, timeout=600, heap="3g", extra=()):
    """Runs TLC. Returns (exit code, output, generated, distinct)."""
    os.makedirs(meta, exist_ok=True)
    cmd = ["tlc", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
    env = tlc_env(heap)
    env["JAVA_TOOL_OPTIONS"] += f" -Djava.io.tmpdir={meta} -XX:-UsePerfData"
    env.update(env_extra or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    g = d = 0
    for m in STATS.finditer(r.stdout):
        g, d = int(m.group(1)), int(m.group(2))
    return r.returncode, r.stdout, g, d


# ------------------------------------------------------------------------------- a check

class Episode:
    """A self-contained piece of a script."""
    __slots__ = ("lines", "why")

    def __init__(self, lines, why=""):
        self.lines = lines
        self.why = why


class Violation(Exception):
    pass


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.by_op = {}
        self.by_build = {}
        self.samples = []
        self.models = []
        self.notes = []
        self.known = []
        self.others = []
        self.assumptions = []
        self.violations = 0
        self.hangs = 0
        self.left_out = 0
        self.level = "model_checking"
        self.extra_cov = {}
        self._n = itertools.count(1)
        self._lock = threading.Lock()

    def elapsed(self):
        return time.time() - self.t0

    def path(self, name):
        return os.path.join(self.work, f"{next(self._n)}-{name}")

    # -- model checking ---------------------------------------------------------------

    def model(self, module, consts, workers=None, expect="ok", spec="Spec", invariants=(),
              properties=(), constraints=(), action_constraints=(), view=None, post=None,
              timeout=700, heap="6g", label=None):
        """An exhaustive TLC run over a bounded instance. Returns TLC's output."""
        cfg = self.path(module + ".cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            if consts:
                f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items()))
            for kw, xs in (("INVARIANT", invariants), ("PROPERTY", properties),
                           ("CONSTRAINT", constraints), ("ACTION_CONSTRAINT", action_constraints)):
                for x in xs:
                    f.write(f"{kw} {x}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if post:
                f.write(f"POSTCONDITION {post}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        rc, out, g, d = tlc(module, cfg, self.path("meta"), workers or JOBS, timeout=timeout,
                            heap=heap)
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "instance": label or consts, "states": d,
                            "transitions": g, "outcome": "no error" if rc == 0 else f"exit {rc}"})
        if expect == "ok" and rc != 0:
            raise ToolError(f"TLC on {module}: exit {rc}\n{out[-3000:]}")
        if expect == "violation" and rc not in (12, 13):
            raise ToolError(f"TLC on {module}: expected a violation, got exit {rc}\n{out[-3000:]}")
        return out

    def edges(self, module, consts, **kw):
        """All transitions of the bounded state graph of a generator module."""
        out = self.model(module, consts, workers=1, spec="GenSpec", view="GenView",
                         action_constraints=["Emit"], **kw)
        es = []
        for line in out.splitlines():
            if line.startswith('"E|'):
                f, call, t, tag = line[3:-1].replace("|->", ":").split("|")
                es.append([canon(f), call, canon(t), tag])
        if not es:
            raise ToolError(f"{module} generated nothing")
        return es

    # -- trace validation -------------------------------------------------------------

    def validate(self, module, trace, cfg=None):
        rc, out, g, d = tlc(module, os.path.join(SPEC, (cfg or module) + ".cfg"), self.path("meta"),
                            1, {"TRACE": trace}, timeout=800)
        m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
        if not m:
            if rc in (12, 13) or "is violated" in out:
                raise ToolError(f"{module}: the specification's own invariants fail on a trace\n{out[-3000:]}")
            raise ToolError(f"{module}: TLC failed\n{out[-3000:]}")
        acc, total = int(m.group(1)), int(m.group(2))
        exp = re.search(r'<<\s*"EXPECTED",(.*?)>>\s*\n(?=[A-Z<])', out, re.S)
        return acc, total, (re.sub(r"\s+", " ", exp.group(1)).strip() if exp else ""), g, d

    def run_chunk(self, kind, bin_name, module, episodes, timeout=120, mem_gb=6, guard="",
                  cfg=None):
        """Runs episodes in one process and validates the trace. Returns None, or a description
        of the first call that is not a behaviour of the specification."""
        name = f"{kind}-{bin_name}"
        script = self.path(name + ".txt")
        trace = self.path(name + ".ndjson")
        owner = []
        with open(script, "w") as f:
            for k, e in enumerate(episodes):
                for ln in e.lines:
                    f.write(ln + "\n")
                    owner.append(k)
        binary, _ = build(kind, bin_name)
        n = run_driver(binary, script, trace, timeout, mem_gb, guard)
        if n == 0:
            raise ToolError("empty trace")
        acc, total, expected, g, d = self.validate(module, trace, cfg)
        res = None
        ops = {}
        with open(trace) as f:
            for i, line in enumerate(f):
                if i >= acc:
                    if i == acc:
                        ev = json.loads(line)
                        k = owner[min(max(ev["ln"] - 1, 0), len(owner) - 1)]
                        res = {"event": ev, "episode": k, "expected": expected}
                    break
                if i < 3 or len(line) < 200:
                    last = line
                j = line.find('"op":"') + 6
                op = line[j:line.index('"', j)]
                ops[op] = ops.get(op, 0) + 1
        os.remove(trace)
        os.remove(script)
        return res, acc, total, ops, g, d

    def conform(self, bin_name, module, episodes, kinds=("debug", "release"), own=None,
                chunk_events=12000, timeout=120, mem_gb=6, per_proc=None,
                guards=("end", "start", "end", ""), cfg=None, parallel=JOBS):
        """Replays episodes into the real code in each build and validates every trace."""
        for kind in kinds:
            path, out = build(kind, bin_name)
            if path is None:
                raise ToolError(f"the driver does not compile ({kind}):\n{out[-3000:]}")
        jobs = []
        modes = itertools.cycle(guards)
        for kind in kinds:
            cur, size = [], 0
            for e in episodes:
                cur.append(e)
                size += len(e.lines)
                if size >= chunk_events or (per_proc and len(cur) >= per_proc):
                    jobs.append((kind, cur, next(modes)))
                    cur, size = [], 0
            if cur:
                jobs.append((kind, cur, next(modes)))
        bad = []
        stop = threading.Event()

        def one(job):
            kind, eps, guard = job
            found = []
            if self.elapsed() > BUDGET:
                with self._lock:
                    self.left_out += 1
                return found
            while eps and not stop.is_set():
                # once something hangs, others may well do so, too
                limit = min(timeout, 40) if self.hangs else timeout
                res, acc, total, ops, g, d = self.run_chunk(kind, bin_name, module, eps, limit, mem_gb, guard, cfg)
                self.account(kind, ops, g, d, len(eps) if res is None else res["episode"])
                if res is None:
                    break
                ep = eps[res["episode"]]
                if res["event"]["res"][0] == "hang":
                    # it may have been slow only: it gets another chance, alone
                    alone = self.run_chunk(kind, bin_name, module, [ep], max(limit, 60), mem_gb, guard, cfg)
                    if alone[0] is None:
                        self.account(kind, alone[3], alone[4], alone[5], 1)
                        eps = eps[res["episode"] + 1:]
                        continue
                    res = dict(alone[0], episode=res["episode"])
                    self.hangs += res["event"]["res"][0] == "hang"
                found.append((kind, ep, dict(res, guard=guard, cfg=cfg)))
                if own is None or own(res["event"], ep):
                    stop.set()
                    break
                # what fails for other reasons leaves little to see, if it is that much
                if res["event"]["res"][0] == "hang" or len(found) > 40 or self.elapsed() > 400:
                    break
                eps = eps[res["episode"] + 1:]
            return found

        with cf.ThreadPoolExecutor(parallel) as ex:
            for found in ex.map(one, jobs):
                bad += found
        if episodes and len(self.samples) < 6:
            e = self.rng.choice(episodes)
            self.samples.append({"kind": "replayed episode", "driver": bin_name, "spec": module,
                                 "script": e.lines[:40], "of_length": len(e.lines)})
        for kind, ep, res in bad:
            if own is None or own(res["event"], ep):
                self.violate(bin_name, module, kind, ep, res, timeout, mem_gb)
            else:
                self.others.append({"build": kind, "event": short(res["event"]),
                                    "expected": res["expected"][:200]})

    def judge(self, module, runs):
        """Validates traces recorded elsewhere: [(how it was made, events)]."""
        trace = self.path("trace.ndjson")
        owner = []
        with open(trace, "w") as f:
            for k, (how, ev) in enumerate(runs):
                for e in ev:
                    f.write(json.dumps(e) + "\n")
                    owner.append(k)
        acc, total, _, g, d = self.validate(module, trace)
        ops = {}
        for k, (how, ev) in enumerate(runs):
            for e in ev:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        good = len(runs) if acc == total else owner[acc]
        if acc < total:
            ops = {"accepted": acc}
        self.account("debug", ops, g, d, good)
        how, ev = self.rng.choice(runs)
        self.samples.append({"kind": "recorded run", "made_by": how, "events": ev})
        if acc < total:
            how, ev = runs[owner[acc]]
            self.report({"property": self.prop, "spec": module, "made_by": how, "events": ev,
                         "first_rejected_event": acc - owner.index(owner[acc])})

    def account(self, kind, ops, g, d, traces):
        with self._lock:
            self.states += d
            self.transitions += g
            self.traces += traces
            for k, v in ops.items():
                self.by_op[k] = self.by_op.get(k, 0) + v
                self.events += v
                self.by_build[kind] = self.by_build.get(kind, 0) + v

    def violate(self, bin_name, module, kind, ep, res, timeout, mem_gb):
        """Shortens the episode, writes the replay file and ends the check."""
        lines = list(ep.lines)
        again = None
        hung = res["event"]["res"][0] == "hang"
        try:
            # a call that hangs has been tried twice already
            r = None if hung else self.run_chunk(kind, bin_name, module, [ep], timeout, mem_gb, res["guard"], res["cfg"])[0]
            if hung:
                again, lines = res, well_nested(lines[:res["event"]["ln"]])
            elif r:
                again = r = dict(r, guard=res["guard"], cfg=res["cfg"])
                lines = shrink(self, kind, bin_name, module, lines, r, timeout, mem_gb)
        except ToolError:
            pass
        self.report({
            "property": self.prop, "driver": bin_name, "build": kind, "spec": module,
            "guard": res["guard"], "script": lines, "reproduced_alone": again is not None,
            "first_rejected_call": (again or res)["event"],
            "specification_demands": (again or res)["expected"],
            "why": ep.why,
        })

    def report(self, replay):
        path = os.path.join(EVID, f"replay-{self.prop}.json")
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations += 1
        self.evidence()
        print(json.dumps(replay)[:1500])
        print(f"VIOLATION property={self.prop} replay={path}")
        sys.stdout.flush()
        raise Violation()

    # -- evidence ---------------------------------------------------------------------

    def evidence(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "calls_validated": self.events,
            "calls_by_operation": dict(sorted(self.by_op.items())),
            "calls_by_build": self.by_build,
            "models": self.models[:40],
            "samples": self.samples or [{"none": "stopped before any trace was validated"}],
        }
        if self.others:
            cov["episodes_cut_short_by_other_failures"] = len(self.others)
            cov["other_failures"] = self.others[:5]
        if self.left_out:
            cov["batches_left_out_for_time"] = self.left_out
        cov.update(self.extra_cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(self.elapsed(), 2),
              "assumptions": self.assumptions, "violations": self.violations}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def canon(state):
    """TLC prints sets of numbers in whatever order they are represented."""
    def sub(m):
        xs = {int(x) for x in m.group(1).replace(" ", "").split(",") if x}
        return "{" + ",".join(map(str, sorted(xs))) + "}"
    return re.sub(r"\{([\d, ]*)\}", sub, state)


def short(ev):
    s = json.dumps(ev)
    return s if len(s) < 300 else s[:300] + "..."


def well_nested(lines):
    """Closes what is left open, so that the script remains well formed when cut."""
    depth = 0
    for l in lines:
        op = l.split(" ")[0]
        if op in OPENERS:
            depth += 1
        elif op == "close":
            depth -= 1
    return lines + ["close"] * max(depth, 0)


OPENERS = ("open", "slice", "split", "view", "iter", "iiter", "rbuild", "vec")


def shrink(chk, kind, bin_name, module, lines, res, timeout, mem_gb, budget=25):
    """Removes calls that are not needed for the rejection (a bounded effort)."""
    t_end = time.time() + budget

    def fails(cand):
        if time.time() > t_end:
            return False
        try:
            r = chk.run_chunk(kind, bin_name, module, [Episode(cand)], min(timeout, 30), mem_gb,
                              res["guard"], res["cfg"])[0]
        except (ToolError, ValueError, KeyError):
            return False
        return r is not None and r["event"]["op"] == res["event"]["op"]

    cut = well_nested(lines[:res["event"]["ln"]])
    if fails(cut):
        lines = cut
    size = max(1, len(lines) // 2)
    while size >= 1 and time.time() < t_end:
        i = 0
        while i < len(lines) and time.time() < t_end:
            seg = lines[i:i + size]
            d = 0
            ok = True
            for l in seg:
                op = l.split(" ")[0]
                d += (op in OPENERS) - (op == "close")
                ok &= d >= 0
            if ok and d == 0 and len(seg) < len(lines) and fails(lines[:i] + lines[i + size:]):
                lines = lines[:i] + lines[i + size:]
            else:
                i += size
        size //= 2
    return lines


def known_findings(prop):
    """The known findings of a property: lines `known: property=<id> key=<key> <text>`."""
    out = {}
    p = os.path.join(ROOT, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main(prop, plan):
    chk = Check(prop)
    try:
        plan(chk)
        chk.evidence()
        print(f"{prop}: held; {chk.traces} traces, {chk.events} calls validated, "
              f"{chk.states} states, {chk.elapsed():.1f} s")
        for k in chk.known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        for o in chk.others[:3]:
            print(f"{prop}: note: cut short by a failure outside of this property: {o}")
        rc = 0
    except Violation:
        rc = 1
    except ToolError as e:
        print(f"{prop}: error: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        print(f"{prop}: error: the check itself failed")
        rc = 2
    finally:
        shutil.rmtree(chk.work, ignore_errors=True)
        try:
            os.rmdir(os.path.join(ROOT, "work"))
        except OSError:
            pass
    sys.exit(rc)
