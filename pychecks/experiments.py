"""C24: the experiments (one process per party) and the launcher script.

Runs the experiment programs built from /repo, reads the communication summary every party prints, and compares it
with the other end and with the amount of traffic the protocol prescribes. The flavor asan runs a few of them for the
memory errors alone (C26).
"""
import concurrent.futures as cf
import itertools
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import threading
import time

BASE = 6677  # of the experiments
LIMIT = {"input": 1000000, "mult": 100000, "check": 100000}


def prescribed(exp, n, m):
    """{(a, b): bytes a sends to b}"""
    d = (n - 1) // 3
    t = {(a, b): 0 for a in range(n) for b in range(n)}
    if exp == "input":
        # one share of the key to everyone; the values to everyone
        share = sum(1 for s in itertools.combinations(range(n), n - d) if 0 in s)
        for ab in t:
            t[ab] += 8 * share
        for b in range(n):
            t[0, b] += 8 * m
        return t
    for i in range(2 * d + 1):
        t[i, 0] += 8 * m
    for j in range(n - d):
        t[0, j] += 8 * m
    if exp == "check":
        for a in range(n):
            for b in range(n):
                t[a, b] += 8  # two counts
        for s in itertools.combinations(range(n), n - 2 * d):
            for a in s:
                for b in range(n):
                    if b not in s:
                        t[a, b] += 8 * (2 * d + 1) if a == s[0] else 8
    return t


class Ports:
    """Ranges of 300 ports, outside those of the other harnesses and those the system picks from. A range is held with
    an abstract unix socket, so that checks running at the same time do not meet."""

    def __init__(self, rng):
        self.free = list(range(1100, 8700, 300)) + list(range(61000, 65200, 300))
        rng.shuffle(self.free)
        self.held = {}
        self.lock = threading.Lock()

    def take(self, n):
        while True:
            with self.lock:
                first = self.free.pop(0) if self.free else None
            if first is not None:
                s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                try:
                    s.bind("\0verif-exp-ports-%d" % first)
                except OSError:
                    s.close()
                else:
                    busy = self.listening()
                    if not any(first + k in busy for k in range(300)):
                        with self.lock:
                            self.held[first] = s
                        return first - BASE
                    s.close()
                with self.lock:
                    self.free.append(first)
            time.sleep(0.05)

    @staticmethod
    def listening():
        r = set()
        for f in ("/proc/net/tcp", "/proc/net/tcp6"):
            if os.path.exists(f):
                with open(f) as fh:
                    for l in fh.readlines()[1:]:
                        w = l.split()
                        if w[3] == "0A":
                            r.add(int(w[1].split(":")[1], 16))
        return r

    def give(self, off):
        with self.lock:
            self.held.pop(off + BASE).close()
            self.free.append(off + BASE)


class Result:
    def __init__(self):
        self.name, self.cmd = "experiments", []
        self.violations = []
        self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.note = []
        self.error = None
        self.distinct = 0
        self.out = ""
        self.lock = threading.Lock()
        self.crash_only = False

    def bad(self, key, detail):
        with self.lock:
            if sum(1 for k, _ in self.violations if k == key) < 3:
                self.violations.append((key, detail))

    def ok(self, counter, k=1):
        with self.lock:
            self.evaluations += k
            self.counters[counter] = self.counters.get(counter, 0) + k


def kill(procs):
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    for p in procs:
        p.wait()


BOTH = re.compile(r"^sent/received to/from (\d+): (\d+)/(\d+) bytes$")
SENT = re.compile(r"^sent to (\d+): (\d+) bytes$")
RECEIVED = re.compile(r"^received from (\d+): (\d+) bytes$")


def summary(text, party):
    """{peer: (sent, received)} or None"""
    lines = text.splitlines()
    heads = [i for i, l in enumerate(lines) if l.strip() == "communication summary for %d:" % party]
    if len(heads) != 1:
        return None
    r = {}
    for l in lines[heads[0] + 1:]:
        got = None
        m = BOTH.match(l.strip())
        if m:
            got = int(m.group(2)), int(m.group(3))
        if not m:
            m = SENT.match(l.strip())
            if m:
                got = int(m.group(2)), 0
        if not m:
            m = RECEIVED.match(l.strip())
            if m:
                got = 0, int(m.group(2))
        if got:
            if int(m.group(1)) in r:
                return None
            r[int(m.group(1))] = got
    return r


def judge(res, exp, n, m, codes, texts, what):
    want = prescribed(exp, n, m)
    seen = []
    for i in range(n):
        if codes[i] != 0:
            res.bad("C24.%s.failed" % exp, "%s: party %d ended with %s: %s" % (what, i, codes[i], texts[i][-1500:]))
            return
        s = summary(texts[i], i)
        if s is None:
            res.bad("C24.%s.summary" % exp, "%s: party %d printed no summary: %s" % (what, i, texts[i][-800:]))
            return
        seen.append(s)
    for a in range(n):
        extra = [p for p in seen[a] if p >= n or seen[a][p] == (0, 0)]
        if extra:
            res.bad("C24.%s.summary" % exp, "%s: party %d mentions %s" % (what, a, extra))
        for b in range(n):
            sent = seen[a].get(b, (0, 0))[0]
            received = seen[b].get(a, (0, 0))[1]
            if sent != received:
                res.bad("C24.%s.ends-differ" % exp, "%s: %d sent %d bytes to %d, which received %d" % (what, a, sent, b, received))
            elif sent != want[a, b]:
                res.bad("C24.%s.amount" % exp, "%s: %d sent %d bytes to %d instead of %d" % (what, a, sent, b, want[a, b]))
    res.ok("links_compared", n * n)
    res.ok("parties_completed", n)


def run_parties(exe, exp, n, m, order, delays, off, scratch, env, timeout):
    """Exit codes (None: did not end) and outputs by party."""
    procs, files = {}, {}
    d = os.path.join(scratch, "exp-%s-%d-%d-%d" % (exp, n, m, off))
    os.makedirs(d, exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    e["VERIF_PORT_OFFSET"] = str(off)
    try:
        for k, i in enumerate(order):
            if delays[k]:
                time.sleep(delays[k])
            files[i] = os.path.join(d, "party_%d.log" % i)
            with open(files[i], "wb") as f:
                procs[i] = subprocess.Popen([exe, str(n), str(i), str(m)], stdin=subprocess.DEVNULL, stdout=f, stderr=f,
                                            cwd=d, env=e, start_new_session=True)
        end = time.time() + timeout
        while time.time() < end:
            codes = [procs[i].poll() for i in range(n)]
            if all(c is not None for c in codes):
                break
            if any(c not in (None, 0) for c in codes):  # the others may wait for it for ever
                time.sleep(0.5)
                break
            time.sleep(0.01)
        codes = [procs[i].poll() for i in range(n)]
        texts = []
        for i in range(n):
            with open(files[i], "rb") as f:
                texts.append(f.read().decode(errors="replace"))
        return codes, texts
    finally:
        kill(procs.values())
        shutil.rmtree(d, ignore_errors=True)


def experiment(res, exes, ports, job, scratch, env, timeout):
    exp, n, m, order, delays = job
    what = "exp_%s %d parties, amount %d, started %s" % (exp, n, m, ",".join(map(str, order)))
    for attempt in (1, 2):
        off = ports.take(n)
        try:
            codes, texts = run_parties(exes[exp], exp, n, m, order, delays, off, scratch, env, timeout)
        finally:
            ports.give(off)
        if any(c not in (None, 0) for c in codes) or all(c == 0 for c in codes):
            break
        res.note.append("%s did not end in %d s (attempt %d)" % (what, timeout, attempt))
    failed = [i for i in range(n) if codes[i] not in (None, 0)]
    if failed:
        i = failed[0]
        if res.crash_only:
            res.bad(res.crash_key(texts[i], codes[i]), "%s party %d: %s" % (what, i, texts[i][:3000]))
            return
        res.bad("C24.%s.failed" % exp, "%s: party %d ended with %s: %s" % (what, i, codes[i], texts[i][-1500:]))
        return
    if any(c is None for c in codes):
        res.bad("C24.%s.hang" % exp, "%s: parties %s do not end: %s" % (
            what, [i for i in range(n) if codes[i] is None], texts[[i for i in range(n) if codes[i] is None][0]][-500:]))
        return
    with res.lock:
        res.distinct += 1
        if len(res.samples) < 6:
            res.samples.append(what)
    judge(res, exp, n, m, codes, texts, what)
    res.ok("experiments_" + exp)


def accepted(res, exe, exp, args, off, scratch):
    """A party that is alone gets as far as waiting for the others."""
    e = dict(os.environ)
    e["VERIF_PORT_OFFSET"] = str(off)
    p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=scratch, env=e, start_new_session=True)
    try:
        text = p.communicate(timeout=2.5)[0].decode(errors="replace")
        res.bad("C24.%s.refused" % exp, "exp_%s %s ended alone with %s: %s" % (exp, " ".join(args), p.returncode, text[-500:]))
    except subprocess.TimeoutExpired:
        kill([p])
        p.stdout.close()
    res.ok("accepted_alone")


def refusal(res, exe, exp, args, must, scratch, tag, env=()):
    log = os.path.join(scratch, "net-%s" % tag)
    e = dict(os.environ)
    e.update(env)
    e["VERIF_NET_LOG"] = log
    e["VERIF_PORT_OFFSET"] = "31000"
    what = "exp_%s %s" % (exp, " ".join(args))
    p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=scratch, env=e, start_new_session=True)
    try:
        text = p.communicate(timeout=30)[0].decode(errors="replace")
        code = p.returncode
    except subprocess.TimeoutExpired:
        kill([p])
        text, code = "", None
    used = os.path.exists(log)
    if used:
        os.unlink(log)
    if used or code is None or "communication summary" in text:
        res.bad("C24.%s.not-refused" % exp, "%s was not refused (exit %s): %s" % (what, code, text[-300:]))
    elif must and code == 0:
        res.bad("C24.%s.not-refused" % exp, "%s ended like a success: %s" % (what, text[-300:]))
    res.ok("refusals")
    with res.lock:
        res.distinct += 1


STUB = """#!/bin/bash
echo "begin $*" >> "$STUB_LOG"
echo "out of $2"
echo "err of $2" >&2
sleep $(awk -v s=$2 'BEGIN { srand(s + %d); print 0.05 + rand() * 0.6 }')
echo "end $*" >> "$STUB_LOG"
exit $(( $2 %% 3 ))
"""


def launcher(res, repo, scratch, rng, exes, ports, jobs):
    src = os.path.join(repo, "run.sh")
    for k, (name, args, parties) in enumerate(jobs):
        if parties is None:
            parties = int(args[1])
        d = os.path.join(scratch, "launch-%d" % k)
        os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
        shutil.copy(src, os.path.join(d, "run.sh"))
        log = os.path.join(d, "stub.log")
        with open(os.path.join(d, name), "w") as f:
            f.write(STUB % rng.randrange(1000000))
        os.chmod(os.path.join(d, name), 0o755)
        e = dict(os.environ)
        e["STUB_LOG"] = log
        what = "run.sh %s" % " ".join(args)
        p = subprocess.Popen(["bash", "./run.sh"] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
        try:
            text = p.communicate(timeout=60)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            kill([p])
            res.bad("C24.launcher.hang", what + " does not return")
            continue
        lines = []
        if os.path.exists(log):
            with open(log) as f:
                lines = f.read().split("\n")
        begun = sorted(l[6:] for l in lines if l.startswith("begin "))
        ended = sorted(l[4:] for l in lines if l.startswith("end "))
        kill([p])
        want = sorted(" ".join([args[1], str(i)] + args[2:3]).strip() for i in range(parties))
        if [b.strip() for b in begun] != want:
            res.bad("C24.launcher.started", "%s started %s instead of %s" % (what, begun, want))
        elif ended != begun:
            res.bad("C24.launcher.early", "%s returned when only %s were done" % (what, ended))
        elif parties:
            logs = {}
            for dd, _, fs in os.walk(os.path.join(d, "logs")):
                for f in fs:
                    with open(os.path.join(dd, f)) as fh:
                        logs[f] = fh.read()
            for i in range(parties):
                t = logs.get("party_%d.log" % i, "")
                if sorted(t.split("\n")) != ["", "err of %d" % i, "out of %d" % i]:
                    res.bad("C24.launcher.log", "%s: log of party %d holds %r" % (what, i, t))
                    break
        res.ok("launches")
        with res.lock:
            res.distinct += 1
        shutil.rmtree(d, ignore_errors=True)
    # the real thing
    for exp, n, m in (("check", 4, 3), ("input", 5, 2)):
        d = os.path.join(scratch, "launch-real")
        os.makedirs(os.path.join(d, "build"))
        shutil.copy(src, os.path.join(d, "run.sh"))
        shutil.copy(exes[exp], os.path.join(d, "build", "exp_%s.x" % exp))
        off = ports.take(n)
        e = dict(os.environ)
        e["VERIF_PORT_OFFSET"] = str(off)
        what = "run.sh build/exp_%s.x %d %d" % (exp, n, m)
        p = subprocess.Popen(["bash", "./run.sh", "build/exp_%s.x" % exp, str(n), str(m)], stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
        try:
            p.communicate(timeout=60)
            texts = [""] * n
            for dd, _, fs in os.walk(os.path.join(d, "logs")):
                for f in fs:
                    mt = re.match(r"party_(\d+)\.log$", f)
                    if mt and int(mt.group(1)) < n:
                        with open(os.path.join(dd, f)) as fh:
                            texts[int(mt.group(1))] = fh.read()
            judge(res, exp, n, m, [0] * n, texts, what)
            res.ok("launches")
        except subprocess.TimeoutExpired:
            res.bad("C24.launcher.hang", what + " does not return")
        finally:
            kill([p])
            ports.give(off)
            shutil.rmtree(d, ignore_errors=True)


def build(driver, flavor):
    b = driver.Builder()
    exes = {}
    for exp in ("input", "mult", "check"):
        exes[exp] = b.binary("exp_" + exp, flavor, main=os.path.join(driver.REPO, "src/frn/exp_%s.cc" % exp),
                             extra=["expshim.cc"], link=["-Wl,--wrap=bind,--wrap=connect"])
    b.build()
    return exes


def starts(rng, n):
    order = list(range(n))
    style = rng.randrange(4)
    if style == 1:
        order.reverse()
    elif style > 1:
        rng.shuffle(order)
    delays = [0.0] * n
    for _ in range(rng.randrange(3)):
        delays[rng.randrange(n)] = rng.random() * 0.4
    return order, delays


def run(prop, seed, tier, scratch, repo, verif, driver, flavor="o2"):
    res = Result()
    rng = random.Random("%s-%s-%s" % (seed, prop, flavor))
    thorough = tier == "thorough"
    exes = build(driver, flavor)
    ports = Ports(rng)
    jobs = []
    env = {}
    if flavor == "asan":
        res.crash_only = prop != "C24"
        res.crash_key = lambda text, rc: "crash:" + driver.san_key(text, rc)
        env = dict(driver.ENV)
        env["ASAN_OPTIONS"] += ":detect_leaks=0"
        for exp in LIMIT:
            for n in (4, 7, 10) + ((5, 8, 13) if thorough else ()):
                for m in (0, 1, rng.randrange(2, 60 if n < 9 else 8)):
                    jobs.append((exp, n, m) + starts(rng, n))
    else:
        sixteen = rng.choice(list(LIMIT))
        for exp in LIMIT:
            for n in range(4, 17):
                cap = 3000 if n < 7 else 300 if n < 10 else 40 if n < 13 else 12
                amounts = [0, 1, rng.randrange(2, cap)]
                if n == 15:
                    amounts = [rng.choice([0, 1, rng.randrange(2, cap)])]
                if n == 16:  # half a minute on all cores
                    amounts = [rng.randrange(1, cap)] if exp == sixteen or thorough else []
                if thorough and n < 16:
                    amounts += [2, 3, rng.randrange(2, cap), rng.randrange(cap, 3 * cap)]
                for m in amounts:
                    for _ in range(2 if thorough and n < 14 else 1):
                        jobs.append((exp, n, m) + starts(rng, n))
        for exp in LIMIT:
            jobs.append((exp, 4, LIMIT[exp] - 1) + starts(rng, 4))
            jobs.append((exp, 4, rng.randrange(LIMIT[exp] // 10, LIMIT[exp])) + starts(rng, 4))
            jobs.append((exp, 7, rng.randrange(1000, 10000)) + starts(rng, 7))
        if thorough:
            jobs.append(("input", 16, 99999) + starts(rng, 16))
    # the expensive ones first
    jobs.sort(key=lambda j: -(j[1] ** 3 * 20 + j[2]))
    heavy = threading.Semaphore(2 if flavor == "o2" else 3)

    def one(job):
        if job[1] > 12 or job[2] > 20000:
            with heavy:
                experiment(res, exes, ports, job, scratch, env, 180)
        else:
            experiment(res, exes, ports, job, scratch, env, 120)

    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(one, jobs))

    cases = []
    for exp in LIMIT:
        big = str(LIMIT[exp])
        cases += [(exp, [str(n), "0", "1"]) for n in (0, 1, 2, 3, 17, 18, 32, 100, 256, 260, 65540, 4294967300)]
        cases += [(exp, a) for a in (
            ["18446744073709551615", "0", "1"], ["99999999999999999999999", "0", "1"], ["-1", "0", "1"],
            ["x", "0", "1"], ["", "0", "1"],
            ["4", "4", "1"], ["4", "5", "1"], ["7", "16", "1"], ["16", "16", "1"], ["4", "-1", "1"], ["4", "y", "1"],
            ["5", "4294967296", "1"], ["4", "256", "1"], ["4", "0", big], ["4", "3", big], ["16", "0", big],
            ["4", "0", str(LIMIT[exp] + rng.randrange(1, 10 ** 7))], ["4", "0", "4294967296"], ["4", "1", "-1"],
            ["4", "0", "z"], ["4", "0", ""])]
        n = rng.randrange(4, 17)
        cases += [(exp, [str(n), str(n), "0"]), (exp, [str(n), str(rng.randrange(n, 40)), "5"]),
                  (exp, [str(rng.randrange(17, 1000)), "3", "5"])]
    few = [(exp, a) for exp in LIMIT for a in ([], ["4"], ["4", "0"])]
    if flavor == "o2":
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda k: refusal(res, exes[k[1][0]], k[1][0], k[1][1], True, scratch, "r%d" % k[0]), enumerate(cases)))
            list(ex.map(lambda k: refusal(res, exes[k[1][0]], k[1][0], k[1][1], False, scratch, "f%d" % k[0]), enumerate(few)))
        alone = [(exp, [str(n), str(i), str(LIMIT[exp] - 1 if n == 4 else 5)]) for exp in LIMIT for n, i in ((4, 3), (16, 0), (16, 15))]
        with cf.ThreadPoolExecutor(9) as ex:
            def one_alone(a):
                off = ports.take(16)
                try:
                    accepted(res, exes[a[0]], a[0], a[1], off, scratch)
                finally:
                    ports.give(off)

            list(ex.map(one_alone, alone))
        launcher(res, repo, scratch, rng, exes, ports,
                 [("prog.x", ["prog.x", "4", "7"], 4), ("build/exp.x", ["build/exp.x", "16", "1000"], 16),
                  ("a/b/prog", ["a/b/prog", "1", "0"], 1), ("prog.x", ["prog.x", str(rng.randrange(5, 14)), "12"], None),
                  ("prog.x", ["prog.x", "x", "7"], 0), ("prog.x", [], 0), ("prog.x", ["prog.x"], 0),
                  ("prog.x", ["prog.x", "-4", "7"], 0), ("prog.x", ["prog.x", "4x", "7"], 0)])
    return res
