#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01

Builds the harnesses of the property from /repo's current working tree, runs them,
and turns what their monitors saw into a verdict (see DESIGN.md, "The driver").
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = 8

sys.path.insert(0, VERIF)
from checks import PROPS  # noqa: E402

HOOK = "-DFRN_VERIF_HOOKS"
BASE = ["-std=gnu++17", "-w", "-include", "cstdint", "-I" + REPO + "/src",
        "-I" + VERIF + "/harness", "-pthread", "-DCLIENT_CONNECT_SLEEP=5ms"]
FLAVORS = {
    # the flags the project ships with
    "o2": ["g++", "-O2", "-march=native"],
    "asan": ["g++", "-O1", "-g1", "-march=native", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             # memcpy(p, nullptr, 0) of an empty vector
             "-fno-sanitize=nonnull-attribute",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["g++", "-O1", "-g1", "-march=native", "-fsanitize=thread"],
    "vg": ["g++", "-O1", "-g", "-march=x86-64-v2", "-maes"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:quarantine_size_mb=32:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:"
                    "handle_abort=1:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:"
                    "suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# --- building -----------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/src", VERIF + "/harness"):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_TREE = None


def lib_sources():
    src = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if f.endswith(".cc") and not f.startswith("exp_"):
                src.append(os.path.join(d, f))
    if not src:
        raise CheckError("no sources under " + REPO + "/src")
    return sorted(src)


_DICT = None


def constants():
    """The integers that occur in the sources: sizes and values next to them are tried more often."""
    global _DICT
    if _DICT is None:
        found = set()
        for d, _, fs in os.walk(REPO + "/src"):
            for f in fs:
                if not f.endswith((".h", ".cc")):
                    continue
                with open(os.path.join(d, f), errors="replace") as fh:
                    t = fh.read()
                t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
                t = re.sub(r'"(\\.|[^"\\\n])*"', " ", t)
                num = r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlL]*(?![\w.])"
                for m in re.finditer(num, t):
                    found.add(int(m.group(1).replace("'", ""), 0 if m.group(1)[:2] in ("0x", "0X") else 10))
                for m in re.finditer(num + r"\)*\s*(<<|\*)\s*\(*" + num, t):
                    a, b = (int(m.group(i).replace("'", ""), 0 if m.group(i)[:2] in ("0x", "0X") else 10) for i in (1, 3))
                    if m.group(2) == "*":
                        found.add(a * b)
                    elif b < 128:
                        found.add(a << b)
        _DICT = sorted(v for v in found if 8 < v < 1 << 127)[:2000]
    return _DICT


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:])
    os.rename(tmp, out)
    return None


class Builder:
    """Collects what has to be built and builds it on all cores."""

    def __init__(self):
        global _TREE
        _TREE = tree_hash()
        self.objs = {}   # out -> cmd
        self.bins = {}   # out -> cmd
        self.hooks = True
        os.makedirs(BUILD, exist_ok=True)

    def key(self, *parts):
        return hashlib.sha256(("|".join(parts) + _TREE).encode()).hexdigest()[:20]

    def binary(self, harness, flavor, defs=(), link=(), extra=(), nolib=False, main=None):
        """Plans harness/<harness>.cc + library; returns the path of the binary."""
        fl = FLAVORS[flavor]
        hook = [HOOK] if self.hooks else []
        flags = fl + BASE + hook + list(defs)
        srcs = [] if nolib else lib_sources()
        srcs = srcs + [main or os.path.join(VERIF, "harness", harness + ".cc")]
        srcs += [os.path.join(VERIF, "harness", e) for e in extra]
        objs = []
        for s in srcs:
            o = os.path.join(BUILD, "o-" + self.key(s, *flags) + ".o")
            self.objs[o] = flags + ["-c", s]
            objs.append(o)
        b = os.path.join(BUILD, "b-%s-%s-%s" % (harness, flavor, self.key(*(objs + list(link)))))
        self.bins[b] = flags + objs + list(link)
        return b

    def build(self):
        t = time.time()
        for group in (self.objs, self.bins):
            todo = list(group.items())
            # big ones first
            todo.sort(key=lambda oc: -("/harness/" in oc[1][-1]))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                errs = [e for e in ex.map(lambda oc: compile_one(oc[1], oc[0]), todo) if e]
            if errs:
                raise CheckError("build failed:\n" + errs[0])
        return time.time() - t


def prune_build():
    """Drops build products of other trees (there is no point in keeping them)."""
    try:
        now = time.time()
        for f in glob.glob(BUILD + "/*"):
            if os.path.isfile(f) and now - os.path.getmtime(f) > 6 * 3600:
                os.unlink(f)
    except OSError:
        pass


# --- running ------------------------------------------------------------------

def san_key(text, rc):
    """A short name for a crash, from the report of the sanitizer or the signal."""
    def frame():
        for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*$", text, re.M):
            if "/repo/" in m.group(2) or REPO in m.group(2):
                return re.sub(r"\(.*", "", m.group(1)).strip()[:80]
        for m in re.finditer(r"^\s*#\d+ (\S.*?) (/\S+?)(?::\d+)* \(", text, re.M):
            if REPO in m.group(2):
                return re.sub(r"\(.*", "", m.group(1)).strip()[:80]
        return "?"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        return "asan:%s:%s" % (m.group(1), frame())
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.{0,60})", text)
    if m:
        what = re.sub(r"[0-9]+", "N", m.group(2)).split(" for ")[0].strip()
        return "ubsan:%s:%s" % (what, os.path.basename(m.group(1)))
    m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(pid", text)
    if m:
        return "tsan:%s:%s" % (m.group(1), frame())
    m = re.search(r"^==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched|Source and dest|Process terminating).{0,60})", text, re.M)
    if m:
        f = re.search(r"^==\d+==    (?:at|by) 0x[0-9A-F]+: (.+?) \((?!in )[^)]*\.(?:cc|h):", text, re.M)
        return "vg:%s:%s" % (re.sub(r"[0-9]+", "N", m.group(1)), re.sub(r"\(.*", "", f.group(1))[:80] if f else "?")
    m = re.search(r"terminate called after throwing an instance of '(.+?)'", text)
    if m:
        return "terminate:%s" % m.group(1)
    m = re.search(r"Assertion [`'](.+?)' failed", text)
    if m:
        return "assert:%s" % m.group(1)[:60]
    if rc < 0:
        try:
            return "signal:%s" % signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


def run_proc(cmd, timeout, env, cwd, err):
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=env,
                             cwd=cwd, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


class Run:
    def __init__(self, name, cmd, timeout, out, prefix=()):
        self.name, self.cmd, self.timeout, self.out = name, cmd, timeout, out
        self.prefix = list(prefix)
        self.violations = []
        self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.note = []
        self.error = None

    def go(self, scratch):
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_SCRATCH"] = scratch
        if self.name.startswith("C26-"):
            env["VERIF_LEAKS"] = "1"
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")
        t = time.time()
        for attempt in (1, 2):
            for f in (self.out, self.out + ".distinct"):
                if os.path.exists(f):
                    os.unlink(f)
            rc = run_proc(self.prefix + self.cmd, self.timeout, env, scratch, self.out + ".err")
            if rc is None or rc == 77:
                self.note.append("%s on attempt %d" % ("timed out" if rc is None else "stalled", attempt))
                continue
            break
        with open(self.out + ".err", "rb") as f:
            text = f.read().decode(errors="replace")
        self.seconds = time.time() - t
        self.parse(rc, text)
        return self

    def parse(self, rc, text):
        done = False
        if os.path.exists(self.out):
            with open(self.out) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "violation" in d:
                        self.violations.append((d["violation"], d["detail"]))
                    if d.get("done"):
                        done = True
                        self.evaluations = d["evaluations"]
                        self.counters = d["counters"]
                        self.samples = d["samples"]
        if rc is None or rc == 77:
            self.violations.append(("hang", "no progress, twice: " + text[-500:]))
        elif rc == 3 or "HARNESS-ERROR" in text:
            self.error = "%s: %s" % (self.name, text[-1500:])
        elif rc in (0, 1) and done:
            pass
        else:
            self.violations.append(("crash:" + san_key(text, rc), text[:4000]))


def known_findings():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    return known


def count_distinct(runs):
    """Distinct hashes over all runs (each run keeps at most 200000)."""
    import array
    seen = set()
    for r in runs:
        f = r.out + ".distinct"
        if os.path.exists(f):
            a = array.array("Q")
            with open(f, "rb") as fh:
                a.frombytes(fh.read())
            seen.update(a)
    return len(seen)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        log("usage: check.py <property>")
        return 2
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return check(prop, spec, t0, scratch)
    except CheckError as e:
        log("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        prune_build()


def plan(prop, spec, builder, scratch):
    runs = []
    for item in spec["runs"]:
        if item.get("tier") and item["tier"] != TIER:
            continue
        for flavor in item["flavors"]:
            exe = builder.binary(item["harness"], flavor, item.get("defs", ()), item.get("link", ()),
                                 item.get("extra", ()))
            shards = item.get("shards", 4)
            if isinstance(shards, dict):
                shards = shards.get(flavor, 4)
            if TIER == "thorough":
                shards = max(shards, item.get("tshards", 8))
            scale = item.get("scale", {})
            if not isinstance(scale, dict):
                scale = {flavor: scale}
            mode = item.get("mode", "")
            for s in range(shards):
                name = "%s-%s-%s%s-%d" % (prop, item["harness"], flavor, "-" + mode if mode else "", s)
                if item.get("tag"):
                    name += "-" + item["tag"]
                out = os.path.join(scratch, name + ".json")
                cmd = [exe, "--prop", item.get("prop", prop), "--flavor", flavor, "--tag", item.get("tag", ""),
                       "--out", out, "--mode", mode,
                       "--dict", ",".join(map(str, constants())) or "0", "--seed", str(SEED), "--tier", TIER, "--shard", str(s), "--shards", str(shards),
                       "--scale", str(scale.get(flavor, 1.0))]
                to = item.get("timeout", 200) if TIER == "quick" else item.get("ttimeout", 3000)
                prefix = ()
                if flavor == "vg":
                    prefix = ("valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes",
                              "--leak-check=no", "--track-origins=no", "--num-callers=12")
                r = Run(name, cmd, to, out, prefix)
                r.crash_only = item.get("crash_only", False)
                runs.append(r)
    return runs


def check(prop, spec, t0, scratch):
    runs = []
    extra = {}
    if spec.get("runs"):
        b = Builder()
        try:
            runs = plan(prop, spec, b, scratch)
            bt = b.build()
        except CheckError as e:
            # The hooks are optional: without them part of what is observed is missing.
            log("note: build with hooks failed, trying without: %s" % str(e)[-300:])
            b = Builder()
            b.hooks = False
            runs = plan(prop, spec, b, scratch)
            bt = b.build()
        log("%s: built in %.1f s, %d runs" % (prop, bt, len(runs)))
        with cf.ThreadPoolExecutor(spec.get("parallel", JOBS)) as ex:
            list(ex.map(lambda r: r.go(scratch), runs))
        if os.environ.get("VERIF_TIMES"):
            for r in sorted(runs, key=lambda r: -r.seconds)[:25]:
                log("  %6.1f s %9d %s" % (r.seconds, r.evaluations, r.name))
    pyruns = []
    for name in spec.get("python", ()):
        import importlib
        mod = importlib.import_module("pychecks." + name)
        r = mod.run(prop, SEED, TIER, scratch, REPO, VERIF, sys.modules[__name__])
        pyruns.append(r)
    allruns = runs + pyruns

    errors = [r.error for r in allruns if r.error]
    evaluations = sum(r.evaluations for r in allruns)
    counters = {}
    samples = []
    for r in allruns:
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        if r.samples and len(samples) < 12:
            samples += [s for s in r.samples[:2 if len(allruns) > 2 else 6] if s not in samples]
    distinct = count_distinct(runs) + sum(getattr(r, "distinct", 0) for r in pyruns)

    known = known_findings()
    found = {}
    for r in allruns:
        for key, detail in r.violations:
            if getattr(r, "crash_only", False) and not key.startswith(("crash:", "mem.")):
                continue
            found.setdefault(key, (r, detail))
    bad = []
    for key, (r, detail) in sorted(found.items()):
        if (prop, key) in known:
            log("KNOWN-FINDING: property=%s %s %s" % (prop, key, known[(prop, key)]))
        else:
            bad.append((key, r, detail))

    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:10],
            "observed": counters,
            "executions": len(allruns),
            "notes": sorted(set(n for r in allruns for n in r.note)),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (key, r, detail) in enumerate(bad[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": key, "seed": SEED, "tier": TIER, "run": r.name,
                           "harness_cmd": r.cmd, "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s"
                           % (SEED, TIER, prop), "witness": detail}, f, indent=1)
            log("  %s: %s" % (key, detail[:600].replace("\n", "\n    ")))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        raise CheckError("harness error: " + errors[0])
    if not evaluations or distinct < spec.get("min_distinct", 1):
        raise CheckError("observed nothing (%d evaluations, %d distinct)" % (evaluations, distinct))
    log("%s: held on %d evaluations, %d distinct, %.1f s" % (prop, evaluations, distinct, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
