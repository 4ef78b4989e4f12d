"""What is run for each property, and the words of its evidence."""
import json
import os
import resource
import subprocess
import tempfile
import time

import check
from check import Fail, TARGET, build_native, cargo, run, worker


def native(quick, thorough, name=None, **kw):
    """The monitor in the normal build, for so many seconds."""
    def ph(res):
        th = res.tier == "thorough"
        r = worker(build_native(), name or res.prop, {"secs": thorough if th else quick, "seed": res.seed, "thorough": th}, **kw)
        res.add("native" if name is None else name, r)
    return ph


def fixed(name, cases, threads=1):
    """A few fixed cases, whatever the tier."""
    def ph(res):
        res.add(name, worker(build_native(), name, {"secs": 90, "seed": res.seed, "threads": threads}, extra=["--cases", str(cases)]), main=False)
    return ph


def two_processes(quick, thorough):
    """The same cases in two processes that differ in environment, address layout, threads and so in the order of the cases."""
    def ph(res):
        b = build_native()
        other = check.env()
        other.update(MALLOC_PERTURB_="165", MALLOC_ARENA_MAX="1", LANG="C", TZ="Asia/Tokyo", X="y" * 3001)

        def digests(n, secs=240):
            a = worker(b, "C16p", {"secs": secs, "seed": res.seed, "threads": 8}, extra=["--cases", str(n)])
            c = worker(b, "C16p", {"secs": secs, "seed": res.seed, "threads": 3}, e=other, extra=["--cases", str(n)])
            return a, c
        n = thorough if res.tier == "thorough" else quick
        a, c = digests(n)
        if a["bad"] or c["bad"]:
            res.add("two processes", a if a["bad"] else c)
            return
        if a["evaluations"] != n or c["evaluations"] != n:
            a["counters"]["ended_early"] = 1   # a busy machine: nothing to compare
            res.add("two processes", a)
            return
        if a["counters"]["digest"] != c["counters"]["digest"]:
            lo, hi = 0, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                x, y = digests(mid)
                lo, hi = (lo, mid) if x["counters"]["digest"] != y["counters"]["digest"] else (mid, hi)
            a["bad"].append({"kind": "two processes differ", "idx": lo, "count": 1, "input": "",
                             "msg": "the results of the first %d cases agree between two processes, those of case %d do not" % (lo, lo)})
        a["counters"]["results_compared"] = a["counters"].pop("observed", a["distinct_nontrivial"])
        res.add("two processes", a)
    return ph


TRIPLE = "x86_64-unknown-linux-gnu"
CHECKED = " -Cdebug-assertions=on -Coverflow-checks=on"


def build_asan():
    t = cargo("harness", ["build", "--release", "--offline", "--features", "san", "--target", TRIPLE, "--bin", "ratelmon"], sub="asan", rustflags="-Zsanitizer=address" + CHECKED, nightly=True)
    return os.path.join(t, TRIPLE, "release", "ratelmon")


def build_tsan():
    t = cargo("harness", ["build", "--release", "--offline", "--features", "san", "-Zbuild-std", "--target", TRIPLE, "--bin", "ratelmon"], sub="tsan", rustflags="-Zsanitizer=thread" + CHECKED, nightly=True)
    return os.path.join(t, TRIPLE, "release", "ratelmon")


def sanitized(build, name, quick, thorough, phase, options, threads=8):
    """The monitor in a build a sanitizer has instrumented; each arena item is a heap block of its own."""
    def ph(res):
        th = res.tier == "thorough"
        e = check.env(True)
        e.update(options)
        b = build()
        r = worker(b, name, {"secs": thorough if th else quick, "seed": res.seed, "threads": threads, "thorough": th}, e=e, one_cpu=300, extra=["--slow", "--cap-mb", "0", "--hang", "400"])
        res.add(phase, r)
    return ph


ASAN = {"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=1:allocator_may_return_null=1:abort_on_error=0:quarantine_size_mb=64"}
TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}


MIRI_ARGS = ["miri", "run", "--offline", "--features", "san", "--bin", "mirimon", "--"]


def miri_env(seed):
    e = check.env(True)
    e.update(XDG_CACHE_HOME=TARGET + "/xdg", CARGO_TARGET_DIR=TARGET + "/miri",
             MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-seed=%d" % seed)
    return e


def build_miri():
    """Builds the interpreter's own standard library and the program, and runs it on nothing."""
    cargo("harness", MIRI_ARGS + ["/dev/null", "0"], sub="miri", nightly=True, more=miri_env(1))


def miri(quick, thorough):
    """Short texts under Miri: eight interpreters, each with its own texts and its own addresses and thread schedule."""
    def ph(res):
        t0 = time.time()
        secs = thorough if res.tier == "thorough" else quick
        native = build_native()
        build_miri()
        r = {"evaluations": 0, "distinct_nontrivial": 0, "inconclusive": 0, "counters": {}, "distinct": {}, "samples": [], "bad": []}
        with tempfile.TemporaryDirectory(prefix="ratelmon-") as d:
            ps = []
            for k in range(8):
                f = "%s/texts%d" % (d, k)
                with open(f, "w") as out:
                    n, longest = (secs * 4 + 40, 50 if k < 6 else 160)
                    subprocess.run([native, "texts", "--n", str(n), "--max", str(longest), "--seed", str(res.seed * 8 + k)], stdout=out, check=True, timeout=120)
                err = open("%s/err%d" % (d, k), "w+b")
                ps.append((k, f, err, subprocess.Popen(["cargo"] + MIRI_ARGS + [f, str(secs)], cwd=check.HERE + "/harness", env=miri_env(res.seed * 8 + k), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err, start_new_session=True)))
            for k, f, err, p in ps:
                try:
                    out, _ = p.communicate(timeout=secs + 300)
                except subprocess.TimeoutExpired:
                    check.kill(p)
                    p.communicate()
                    r["inconclusive"] += 1
                    continue
                err.seek(0)
                e = err.read().decode("utf-8", "replace")
                lines = open(f, encoding="utf-8").read().split("\n")
                at = [l for l in e.splitlines() if l.startswith("text ")]
                if p.returncode == 0:
                    o = json.loads(out.decode().strip().splitlines()[-1])
                    r["evaluations"] += o["texts"]
                    r["distinct_nontrivial"] += len(set(lines[:o["texts"]]))
                    for c in ("accepted", "output_bytes"):
                        r["counters"][c] = r["counters"].get(c, 0) + o[c]
                    r["samples"] += [json.loads(lines[7])] if k < 2 else []
                elif "unsupported operation" in e or not at:
                    # not something the interpreter can judge, or it did not start
                    if not at:
                        raise Fail("miri: " + e[-2000:])
                    r["inconclusive"] += 1
                else:
                    what = [l for l in e.splitlines() if l.startswith("error") or "panicked" in l]
                    r["bad"].append({"kind": "miri", "idx": int(at[-1].split()[1]), "count": 1, "input": json.loads(lines[int(at[-1].split()[1])]), "msg": (what or ["?"])[0] + "\n" + check.report(e)})
                err.close()
        r["wall_s"] = time.time() - t0
        res.add("miri", r)
    return ph


NODE = ["node", "--stack-size=3900"]


def pipes(res, phase, stages, secs, main=True):
    """Eight pipelines; each stage is a command line with {k}, {d} filled in; {d}/out{k}.json holds the last one's findings."""
    t0 = time.time()
    total = {"evaluations": 0, "distinct_nontrivial": 0, "inconclusive": 0, "counters": {}, "distinct": {}, "samples": [], "bad": []}
    with tempfile.TemporaryDirectory(prefix="ratelmon-") as d:
        jobs = []
        for k in range(8):
            prev, ps = subprocess.DEVNULL, []
            for i, st in enumerate(stages):
                last = i == len(stages) - 1
                err = open("%s/err%d-%d" % (d, k, i), "w+b")
                p = subprocess.Popen([a.format(k=k, d=d) for a in st], stdin=prev, stdout=subprocess.DEVNULL if last else subprocess.PIPE, stderr=err,
                                     cwd=check.HERE, env=check.env(), start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1])))
                if prev is not subprocess.DEVNULL:
                    prev.close()
                prev = p.stdout
                ps.append((p, err))
            jobs.append(ps)
        for k, ps in enumerate(jobs):
            for i, (p, err) in reversed(list(enumerate(ps))):
                try:
                    p.wait(timeout=max(1, secs - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    for q, _ in ps:
                        check.kill(q)
                    raise Fail("%s: no end within %d s" % (phase, secs))
            for p, err in ps:
                err.seek(0)
                if p.returncode != 0:
                    raise Fail("%s: %s ended with %s: %s" % (phase, p.args[:3], p.returncode, err.read()[-1500:].decode("utf-8", "replace")))
            with open("%s/out%d.json" % (d, k)) as f:
                r = json.load(f)
            for c in ("evaluations", "distinct_nontrivial", "inconclusive"):
                total[c] += r[c]
            for c, n in r["counters"].items():
                total["counters"][c] = total["counters"].get(c, 0) + n
            total["samples"] += r["samples"][:1]
            total["bad"] += r["bad"]
    # a few of each kind are enough
    by = {}
    for b in sorted(total["bad"], key=lambda b: len(b["input"])):
        by.setdefault(b["kind"], []).append(b)
    total["bad"] = [b for bs in by.values() for b in bs[:4]]
    total["wall_s"] = time.time() - t0
    res.add(phase, total, main)


def corpus(quick, thorough, judge):
    """The JavaScript installed in the sandbox, as read by acorn."""
    def ph(res):
        n = thorough if res.tier == "thorough" else quick
        stages = [NODE + ["js/corpus.js", "{k}", "8", str(n)], [build_native(), "pieces", "--out", "{d}/pieces{k}.json" if judge else "{d}/out{k}.json"] + (["--judge"] if judge else [])]
        if judge:
            stages.append(NODE + ["js/judge.js", "{d}/out{k}.json"])
        if not os.path.exists("/opt/veriftools/node/node_modules/acorn"):
            raise Fail("acorn is not installed")
        pipes(res, "installed JavaScript", stages, 800)
    return ph


def written(quick=1, thorough=2):
    """The monitor of this property on programs people wrote: trees of the installed JavaScript according to acorn,
    laid out by our own printer, so many times each. Quick takes an eighth of them, which one depends on the seed."""
    def ph(res):
        th = res.tier == "thorough"
        b = build_native()
        with tempfile.TemporaryDirectory(prefix="ratelmon-") as d:
            fs, ps = [], []
            for k in range(8):
                fs.append("%s/trees%d" % (d, k))
                with open(fs[-1], "w") as out:
                    ps.append(subprocess.Popen(NODE + (["js/corpus.js", str(k), "8", "100000"] if th else ["js/corpus.js", str(k * 8 + res.seed % 8), "64", "100000"]), cwd=check.HERE, env=check.env(), stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE,
                              start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))))
            for p in ps:
                try:
                    _, err = p.communicate(timeout=300)
                except subprocess.TimeoutExpired:
                    for q in ps:
                        check.kill(q)
                    raise Fail("corpus: no end within 300 s")
                if p.returncode != 0:
                    raise Fail("corpus: ended with %s: %s" % (p.returncode, err[-1500:].decode("utf-8", "replace")))
            n = 0
            for f in fs:
                with open(f, "rb") as g:
                    n += sum(1 for _ in g)
            if n < 5000:
                raise Fail("corpus: only %d pieces" % n)
            r = worker(b, res.prop, {"secs": 240 if th else 60, "seed": res.seed, "thorough": th}, extra=["--cases", str(n * (thorough if th else quick)), "--trees", ",".join(fs)])
            r["counters"]["pieces"] = n
            res.add("installed JavaScript", r)
    return ph


def judged(quick, thorough):
    """Generated programs, printed, as read by acorn and V8."""
    def ph(res):
        n = thorough if res.tier == "thorough" else quick
        # the pairs of constructs are shared out; the seed makes the rest differ
        b = build_native()
        stages = [["sh", "-c", "exec '%s' dump --mode print --seed %d --n %d --from $(( {k} * %d ))" % (b, res.seed, n, n)], NODE + ["js/judge.js", "{d}/out{k}.json"]]
        pipes(res, "generated programs", stages, 800)
    return ph


def prebuild():
    build_native()
    build_asan()
    build_tsan()
    build_miri()


GEN = ("Programs are made by a generator of early-error-free ECMAScript in the supported subset (model tree, all pairs of "
       "constructs first, then chains, towers, random and large programs) and written by an independent printer in random layouts. ")

WRITTEN = "So are trees of pieces of the JavaScript files installed here, according to acorn. "

HOST = ("Hostile texts: all short texts over a set of characters and tokens, random bytes made into characters, token soup, valid programs mutated, cut short or repeated, deep and large ones. ")

PROPS = {
    "C01": {
        "phases": [native(25, 420), fixed("C01stack", 300, 4)],
        "rule": HOST + "Each is parsed and, when accepted, printed, serialised, shown, visited, analysed and transformed, under a cap on memory and time. And on threads with small stacks: texts that repeat one construct 200,000 times side by side (1 MB), constructs nested 256 deep, valid and not (2 MB), nested 200,000 deep (8 MB). Non-trivial: distinct texts of four bytes or more.",
    },
    "C02": {
        "phases": [sanitized(build_asan, "C02", 30, 420, "address sanitizer", ASAN), miri(25, 300)],
        "rule": HOST + "Also valid programs. On each: parse, overwrite and free the text, print, serialise, show, visit, analyse, transform, print again, show errors; then the lexer alone, in the parser's order and in random order. "
        "Every string handed out is checked to be UTF-8. Non-trivial: distinct texts.",
    },
    "C03": {
        "phases": [native(20, 300), corpus(100000, 100000, False)],
        "rule": GEN + "The tree the parser returns is compared with the model tree node by node. Also pieces of the JavaScript files installed here, against acorn's tree. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C04": {
        "phases": [native(15, 240), written()],
        "rule": GEN + WRITTEN + "Their token lists are mutated (brackets removed or added, operators without operand, operands without operator, swaps, removals, duplicates, truncation); "
        "mutants malformed by construction must be rejected, and every accepted text must account for every token when printed. Non-trivial: distinct mutated texts rejected or accounted for.",
    },
    "C05": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "The printer knows where each token of each node went; the range of every node is compared with it. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C06": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "The JSON is read by a parser of our own and compared with JSON built from the model; a Serializer of our own, which holds each struct and sequence to its announced length, gets the same tree. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C07": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "Parsed, printed in both modes, parsed again; trees compared, also with the model. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C08": {
        "phases": [judged(16000, 250000), corpus(100000, 100000, True)],
        "rule": GEN + "Also pieces (programs, statements, functions, classes) of the JavaScript files installed here. Printed in both modes; acorn must read the same tree from each printed text as from the original, or, where acorn does not take it, V8 must. "
        "Cases acorn cannot judge (it takes some `/` after `}` for a regular expression) are inconclusive. Non-trivial: distinct trees.",
    },
    "C09": {
        "phases": [native(15, 240), written()],
        "rule": GEN + WRITTEN + "Printed texts are parsed and printed again in both modes; the four texts must agree pairwise. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C10": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "One token list is laid out six ways (tight, spaced, wild trivia with and without dropped semicolons, dense), each must give the model tree. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C14": {
        "phases": [native(20, 300), written()],
        "rule": HOST + GEN + WRITTEN + "Half of the cases break a valid program at one known place. Every error's range, text and message is checked, and the first error's place where it is known. Non-trivial: distinct rejected texts.",
    },
    "C15": {
        "phases": [native(20, 300)],
        "rule": HOST + "The lexer runs in step with a scanner written from the token tables; each token is compared. Non-trivial: distinct texts with three or more tokens.",
    },
    "C11": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "Every event a recording visitor gets (callbacks, parents, statement lists, scopes, references) is compared with the events computed from the model, from the root and from a random statement. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C12": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "The scope tree (kinds, parents, order, names used and declared, use of this, lookups of present and absent names) is compared with that of the model. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C13": {
        "phases": [native(20, 300), fixed("C13m", 3), written()],
        "rule": GEN + WRITTEN + "The tree after the transform is compared with the model in which arrows are replaced, with positions, and printed and parsed again; visitor and scopes are checked on it. Non-trivial: model trees with an arrow and five or more nodes, distinct by tree.",
    },
    "C16": {
        "phases": [native(20, 300), two_processes(4000, 60000), sanitized(build_tsan, "C16", 15, 240, "thread sanitizer", TSAN)],
        "rule": GEN + HOST + "All results of a text (tree, positions, both prints, JSON, Debug, scopes, transform, errors) are taken alone, then again in another order, among other modules and with the source overwritten and freed, on other threads and in another process; they must be equal. Non-trivial: distinct texts.",
    },
    "C17": {
        "phases": [native(20, 300)],
        "rule": GEN + HOST + "A counting allocator watches the bytes alive before, during and after each operation. Non-trivial: distinct texts.",
    },
    "C18": {
        "phases": [native(15, 240)],
        "rule": GEN + HOST + "The exported functions are called beside the library functions they stand for and the results compared. Non-trivial: distinct texts.",
    },
    "C19": {
        "phases": [native(35, 400)],
        "rule": "Some two hundred and sixty families of texts that repeat or nest one construct, with the same name each time and with one of its own, random programs and token runs repeated: processor time of a thread for each stage on a text and on one 32 times as large, the ratio confirmed three times. Non-trivial: distinct measured pairs.",
    },
    "C20": {
        "phases": [native(20, 300), written()],
        "rule": GEN + WRITTEN + "The Debug text is read by a parser of our own and compared with the tree, positions included; the program in another layout must be equal, a tweaked program unequal. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C21": {
        "phases": [native(15, 240), written()],
        "rule": GEN + WRITTEN + "Printed in both modes; tokens, white space, lines, indentation and spacing of both texts are checked against each other and against the nesting of the tree, the number of tokens against the fewest that our printer needs. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C22": {
        "phases": [native(15, 240), written()],
        "rule": GEN + WRITTEN + "Some of their nodes are then replaced through their cells, by nodes from the end of the program or by new nodes around the old one, with Node::set and with the calls of TransformerCtxt; the same is done to the model. "
        "After each edit the tree and its positions, after the last one both printed texts (parsed again), JSON, Debug text, events and scopes are compared with the model's, and again after the transform. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
    "C23": {
        "phases": [native(15, 240), written()],
        "rule": GEN + WRITTEN + "Up to six random statements and expressions of each are printed by both generators and by one of the monitor's, serialised, shown and visited by themselves; each text must occur in the whole's and parse to the model of the part. Non-trivial: model trees of five or more nodes, distinct by tree.",
    },
}

