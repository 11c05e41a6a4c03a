"""Runs the real xtask program in a scratch directory as an unprivileged user, with stand-ins for
cargo and grcov that record how they were called."""
import json
import os
import shutil
import stat
import subprocess
import tempfile

from vf import ROOT, REPO, TARGET, ToolError, cargo, tree_hash

import fcntl

NOBODY = 65534

CARGO = r"""#!/bin/sh
# stand-in for cargo
{
  printf 'cargo'
  for a in "$@"; do printf '\t%s' "$a"; done
  printf '\tRUSTFLAGS=%s\tLLVM_PROFILE_FILE=%s\n' "$RUSTFLAGS" "$LLVM_PROFILE_FILE"
} >> "$STUB_LOG"
f=$(printf '%s' "$LLVM_PROFILE_FILE" | tr '%' '_')
[ -n "$f" ] && : > "$f"
printf 'new\t%s\n' "$f" >> "$STUB_LOG"
exit "$STUB_TESTS"
"""

GRCOV = r"""#!/bin/sh
# stand-in for grcov
if [ "$1" = --version ]; then
  printf 'probe\n' >> "$STUB_LOG"
  exit "$STUB_PROBE"
fi
out=
prev=
{
  printf 'grcov'
  for a in "$@"; do printf '\t%s' "$a"; done
  printf '\n'
  find . -name '*.profraw' | while read -r p; do printf 'seen\t%s\n' "$p"; done
} >> "$STUB_LOG"
for a in "$@"; do
  [ "$prev" = -o ] && out=$a
  prev=$a
done
if [ "$STUB_PROBE" = 0 ] && [ "$STUB_REPORT" = 0 ]; then
  [ -n "$out" ] && : > "$out"
  exit 0
fi
exit "$((STUB_REPORT + STUB_PROBE))"
"""


def build():
    """Builds xtask from the working tree."""
    target = os.path.join(TARGET, "xtask")
    os.makedirs(target, exist_ok=True)
    want = tree_hash([os.path.join(REPO, "xtask"), os.path.join(REPO, "Cargo.toml")])
    path = os.path.join(target, "debug", "xtask")
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".stamp")
        if os.path.exists(stamp) and os.path.exists(path) and open(stamp).read() == want:
            return path
        if os.path.exists(stamp):
            os.remove(stamp)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("xtask-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = cargo(["build", "--offline", "--locked", "-p", "xtask"], {}, target, REPO)
        if r.returncode != 0:
            raise ToolError("xtask does not compile:\n" + r.stdout[-3000:])
        with open(stamp, "w") as f:
            f.write(want)
    return path


def triple(path):
    """<<directory, stem, extension>>"""
    d, b = os.path.split(path)
    stem, dot, ext = b.rpartition(".")
    return [d, stem, ext] if dot else [d, b, ""]


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for f in fs:
            out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


class Sandbox:
    def __init__(self, binary):
        self.top = tempfile.mkdtemp(prefix="xtask-")
        os.chmod(self.top, 0o755)
        self.bin = os.path.join(self.top, "bin")
        os.mkdir(self.bin)
        for name, text in (("cargo", CARGO), ("grcov", GRCOV), ("my-grcov", GRCOV)):
            p = os.path.join(self.bin, name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
        self.exe = os.path.join(self.top, "xtask")
        shutil.copy(binary, self.exe)
        os.chmod(self.exe, 0o755)
        # profiles that are not below the current directory
        self.above = os.path.join(self.top, "above")
        os.mkdir(self.above)
        self.n = 0

    def close(self):
        for d, ds, fs in os.walk(self.top):
            os.chmod(d, 0o755)
        shutil.rmtree(self.top, ignore_errors=True)

    def run(self, task, fmt, plan, tree, env_grcov, extra=()):
        """One run; returns its trace. plan: exit codes of tests, probe and report, and whether
        the report program is missing. tree: files to begin with; those in `ro` cannot be deleted.
        extra: further arguments, which have no meaning."""
        self.n += 1
        area = os.path.join(self.above, str(self.n))
        cwd = os.path.join(area, "work")
        os.makedirs(cwd)
        with open(os.path.join(area, "outside.profraw"), "w"):
            pass
        for f in tree:
            p = os.path.join(cwd, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write("x")
        log = os.path.join(area, "log")
        with open(log, "w"):
            pass
        for d, ds, fs in os.walk(area):
            os.chown(d, NOBODY, NOBODY)
            for f in fs:
                os.chown(os.path.join(d, f), NOBODY, NOBODY)
        ro = os.path.join(cwd, "ro")
        stuck = os.path.isdir(ro)
        if stuck:
            os.chown(ro, 0, 0)
            os.chmod(ro, 0o755)
        tests, probe, report, missing = plan
        env = {"PATH": self.bin + ":/usr/bin:/bin", "STUB_LOG": log, "STUB_TESTS": str(tests),
               "STUB_PROBE": str(probe), "STUB_REPORT": str(report), "HOME": area}
        if missing:
            env["GRCOV"] = os.path.join(self.top, "no-such-program")
        elif env_grcov:
            env["GRCOV"] = os.path.join(self.bin, "my-grcov")
        before = listing(cwd)
        args = [self.exe] + ([task] if task is not None else []) + ([fmt] if fmt is not None else []) + list(extra)
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.getuid() == 0 else {}
        try:
            r = subprocess.run(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=30, **kw)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = "hang"
        ev = [{"op": "start", "task": task if task is not None else "none",
               "format": fmt.lower() if fmt is not None else "none",
               "files": [triple(f) for f in before], "stuck": stuck}]
        for line in open(log, errors="replace"):
            c = line.rstrip("\n").split("\t")
            if c[0] == "cargo":
                e = dict(x.split("=", 1) for x in c if x.startswith(("RUSTFLAGS=", "LLVM_PROFILE_FILE=")))
                args = [x for x in c[1:] if not x.startswith(("RUSTFLAGS=", "LLVM_PROFILE_FILE="))]
                ev.append({"op": "tests" if "test" in args[:2] or "nextest" in args[:2] else "other-cargo",
                           "ok": tests == 0, "new": [],
                           "instrumented": "instrument-coverage" in e["RUSTFLAGS"]})
            elif c[0] == "new":
                if c[1]:
                    ev[-1]["new"].append(triple(os.path.normpath(c[1])))
            elif c[0] == "probe":
                ev.append({"op": "probe", "ok": probe == 0})
            elif c[0] == "grcov":
                def opt(*names):
                    for k in range(1, len(c) - 1):
                        if c[k] in names:
                            return c[k + 1]
                    return ""
                ev.append({"op": "report", "ok": probe == 0 and report == 0, "format": opt("-t", "--output-type", "--output-types"),
                           "file": triple(os.path.normpath(opt("-o", "--output-path", "--output-file"))), "seen": []})
            elif c[0] == "seen":
                ev[-1]["seen"].append(triple(os.path.normpath(c[1])))
        outside = os.path.exists(os.path.join(area, "outside.profraw"))
        ev.append({"op": "end" if code != "hang" else "hang", "ok": code == 0, "files": [triple(f) for f in listing(cwd)],
                   "missing": bool(missing), "outside": outside})
        if stuck:
            os.chown(ro, NOBODY, NOBODY)
        shutil.rmtree(area, ignore_errors=True)
        return ev
