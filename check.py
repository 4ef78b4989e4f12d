#!/usr/bin/env python3
"""Driver of the monitors: check.py PROPERTY [quick|thorough]   (check.py build: prebuild everything)

Builds the monitors from /repo's working tree, runs the phases of one property, writes
evidence/<property>.json. Exit 0: held on everything explored. Exit 1 and VIOLATION lines: broken.
Exit 2: the check could not do its work (build failure, tool failure)."""
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RATELMON_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVID, "replays")
FINDINGS = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, HERE)


class Fail(Exception):
    """The check itself failed (exit 2)."""


def env(nightly=False):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0",
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu" if nightly else "stable-x86_64-unknown-linux-gnu",
    )
    e.pop("RUSTFLAGS", None)
    return e


# ------------------------------------------------------------------ building

def tree_hash():
    """Contents of everything the build reads from /repo (mtimes in a copied tree prove nothing)."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def forget(target):
    """Make cargo rebuild the crates under test."""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in dirs:
                if d.startswith("ratel"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []


def cargo(crate, args, sub="", rustflags=None, nightly=False, timeout=800, more=None):
    """Build a crate of the harness; TARGET/<sub> is its target directory."""
    target = os.path.join(TARGET, sub) if sub else TARGET
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-" + (sub or "main").replace("/", "_")), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".repo-hash-" + crate)
        now = tree_hash()
        try:
            was = open(stamp).read()
        except OSError:
            was = ""
        if was != now:
            forget(target)
            if os.path.exists(stamp):
                os.remove(stamp)
        e = env(nightly)
        e.update(more or {})
        e["CARGO_TARGET_DIR"] = target
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        p = subprocess.run(["cargo"] + args, cwd=os.path.join(HERE, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            raise Fail("build of %s failed:\n%s" % (crate, p.stdout[-4000:]))
        with open(stamp, "w") as f:
            f.write(now)
    return target


def build_native():
    t = cargo("harness", ["build", "--release", "--offline", "--bin", "ratelmon"])
    return os.path.join(t, "release", "ratelmon")


# ------------------------------------------------------------------ running a worker

def limits(cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run(cmd, timeout, cpu=None, e=None, cwd=None, stdin=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin or subprocess.DEVNULL,
                         preexec_fn=limits(cpu), start_new_session=True, env=e or env(), cwd=cwd or HERE)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return "timeout", out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def read_slots(path):
    """Cases that were running when the worker ended: [(idx, why)]"""
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    res = {}
    for s in range(64):
        n = int.from_bytes(b[s * 8:s * 8 + 8].ljust(8, b"\0"), "little")
        if n:
            res[n - 1] = ""
    for s in range(64):
        r = b[4096 + s * 32:4096 + s * 32 + 32].strip(b"\0 ")
        if r:
            w = r.split()
            res[int(w[-1])] = w[0].decode()
    return sorted(res.items(), key=lambda x: x[1] == "")


def worker(binary, name, opts, e=None, wrap=(), one_cpu=60, timeout=None, extra=()):
    """Run a monitor to its time limit. Crashes and hangs are attributed to a case by running the
    cases that were open again, alone, under a limit on processor time."""
    secs = opts["secs"]
    with tempfile.TemporaryDirectory(prefix="ratelmon-") as d:
        def cmd(*more):
            c = list(wrap) + [binary, "run", name, "--seed", str(opts["seed"]), "--threads", str(opts.get("threads", 8)), "--secs", str(secs), "--state", d, "--out", d + "/out.json"]
            if opts.get("thorough"):
                c.append("--thorough")
            return c + list(extra) + [str(x) for x in more]
        attempts = 0
        while True:
            attempts += 1
            for f in ("out.json", "slots"):
                if os.path.exists(d + "/" + f):
                    os.remove(d + "/" + f)
            rc, out, err = run(cmd(), timeout or secs + 180, e=e)
            if rc == 0 and os.path.exists(d + "/out.json"):
                return json.load(open(d + "/out.json"))
            if rc == 2:
                raise Fail("worker %s: %s" % (name, err[-2000:]))
            open_cases = read_slots(d + "/slots")
            bad = []
            for idx, why in open_cases[:8]:
                # alone: is this the case that does it?
                if os.path.exists(d + "/out.json"):
                    os.remove(d + "/out.json")
                rc1, o1, e1 = run(cmd("--only", idx, "--hang", 100000), one_cpu * 4 + 60, cpu=one_cpu, e=e)
                src = ""
                try:
                    src = open(d + "/current").read()
                except OSError:
                    pass
                if rc1 == 0 and os.path.exists(d + "/out.json"):
                    bad += json.load(open(d + "/out.json"))["bad"]
                    continue
                if rc1 == "timeout" or rc1 in (-signal.SIGXCPU, -signal.SIGKILL):
                    if rc1 == "timeout":
                        continue  # the machine was too busy to tell
                    bad.append({"kind": "hang", "idx": idx, "count": 1, "msg": "no end within %d s of processor time" % one_cpu, "input": src})
                else:
                    w = [x for i, x in read_slots(d + "/slots") if x] or [why]
                    what = {"memory": "holds more memory than the cap"}.get(w[0], "the process ended with status %s" % rc1)
                    bad.append({"kind": "crash: %s" % (w[0] or rc1), "idx": idx, "count": 1, "msg": what + "\n" + report(e1), "input": src})
            if bad:
                return {"evaluations": max([i for i, _ in open_cases]) + 1, "distinct_nontrivial": 0, "inconclusive": 0, "counters": {}, "distinct": {}, "samples": [], "bad": bad, "wall_s": 0}
            if rc == "timeout" or attempts >= 2:
                # not attributable to one case: it takes what ran before it, or a busy machine
                if rc != "timeout" and rc != -signal.SIGKILL:
                    return {"evaluations": 1, "distinct_nontrivial": 0, "inconclusive": 0, "counters": {}, "distinct": {}, "samples": [],
                            "bad": [{"kind": "crash of the run: %s" % rc, "idx": -1, "count": 1, "msg": "the process ended with status %s twice; open cases %s\n%s" % (rc, open_cases, report(err)), "input": ""}], "wall_s": 0}
                raise Fail("worker %s ended with %s and no open case reproduces it: %s" % (name, rc, err[-2000:]))


def report(err):
    """The telling part of a sanitizer report"""
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or "error: Undefined Behavior" in l or "overflowed its stack" in l:
            return "\n".join(ls[i:i + 25])
    return "\n".join(ls[-12:])


# ------------------------------------------------------------------ results

class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = self.distinct = self.inconclusive = 0
        self.coverage, self.samples, self.bad, self.phases = {}, [], [], []

    def add(self, phase, r, main=True):
        """Fold the result of a phase in. Cases of a phase that is not main are counted under its name only."""
        c = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "inconclusive": r.get("inconclusive", 0), "seconds": round(r.get("wall_s", 0), 2)}
        c.update(r.get("counters", {}))
        if r.get("distinct"):
            c["distinct_seen"] = r["distinct"]
        self.coverage[phase] = c
        self.evaluations += r["evaluations"]
        if main:
            self.distinct += r["distinct_nontrivial"]
        self.inconclusive += r.get("inconclusive", 0)
        self.samples += r.get("samples", [])[:4]
        for b in r["bad"]:
            self.bad.append(dict(b, phase=phase))


def known(prop):
    """finding: property=<id> signature=<json string> <what>"""
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS, encoding="utf-8"):
            if l.startswith("finding: property=%s signature=" % prop):
                rest = l.split("signature=", 1)[1]
                sig, end = json.JSONDecoder().raw_decode(rest)
                res.append((sig, rest[end:].strip()))
    return res


def signature(b):
    return b["kind"] + " | " + b["input"]


def finish(res, spec, t0):
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    listed = known(res.prop)
    lines, viol = [], 0
    for i, b in enumerate(sorted(res.bad, key=lambda b: len(b["input"]))):
        hit = [w for s, w in listed if s == signature(b)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (res.prop, hit[0]))
            continue
        viol += 1
        if viol > 12:
            continue
        path = os.path.join(REPLAYS, "%s-%d.json" % (res.prop, viol))
        with open(path, "w") as f:
            json.dump({"property": res.prop, "seed": res.seed, "tier": res.tier, **b,
                       "again": spec.get("again", "target/release/ratelmon run %s --seed %d --only %s --state /tmp" % (res.prop, res.seed, b.get("idx")))}, f, indent=1, ensure_ascii=False)
        lines.append("%s: %s: %s" % (b["phase"], b["kind"], b["msg"][:1200]))
        if b["input"]:
            lines.append("  input: %s" % json.dumps(b["input"][:600], ensure_ascii=False))
        lines.append("VIOLATION property=%s replay=%s" % (res.prop, path))
    ev = {
        "property": res.prop, "tier": res.tier, "seed": res.seed, "level": "exploration",
        "coverage": {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": spec["rule"],
                     "samples": res.samples[:8] or ["(none short enough)"], "inconclusive": res.inconclusive, "phases": res.coverage},
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    with open(os.path.join(EVID, res.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (res.prop, res.tier, res.seed, res.evaluations, res.distinct, viol, time.time() - t0))
    if viol:
        return 1
    # a run that saw next to nothing proves nothing
    if res.evaluations < spec.get("min_evaluations", 100):
        raise Fail("only %d evaluations" % res.evaluations)
    return 0


def main():
    import phases
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "build":
        phases.prebuild()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = Result(prop, tier, seed)
    spec = phases.PROPS[prop]
    try:
        for ph in spec["phases"]:
            ph(res)
            if res.bad and any(not [1 for s, _ in known(prop) if s == signature(b)] for b in res.bad):
                break
        return finish(res, spec, t0)
    except Fail as f:
        print("check failed: %s" % f, file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as f:
        print("check failed: %s" % f, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
