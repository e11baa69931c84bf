"""Makes and tries the planted bugs of /verif/seeded (a development tool; no check uses it).

  seeds.py make [id...]    writes seeded/<id> from tools/seedsrc/*.py
  seeds.py try [id...]     builds, tests, demonstrates, and runs the property's check
  seeds.py new [id...]     the same for those that have not been found valid yet
  seeds.py check [id...]   runs the property's check only
  seeds.py table           writes the table of DESIGN.md
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
RES = "/tmp/seedres.json"
STABLE = set(x.split("::")[0] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])


def load():
    out = []
    for f in sorted(glob.glob(V + "/tools/seedsrc/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tree(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    assert sh("git -C /repo archive HEAD | tar x -C %s" % dst).returncode == 0


def mine():
    """Lines of my own commits: {file: {line}}."""
    return {}


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = os.path.join(W, "make-" + s["id"])
    tree(w)
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=w)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %s: %d matches of %r" % (s["id"], f, t.count(old), old[:60]))
        open(p, "w").write(t.replace(old, new))
    r = sh("git diff", cwd=w).stdout
    open(d + "/patch.diff", "wb").write(r)
    # the lines it removes must not come from my commits
    for f in set(e[0] for e in s["edits"]):
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], stdout=subprocess.PIPE).stdout.decode().split("\n")
        import re
        ln = None
        orig = False
        cur = None
        for l in r.decode().split("\n"):
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m.group(1))
            elif ln is not None and cur == f and not l.startswith("---"):
                if l.startswith("-"):
                    if not blame[ln - 1].startswith("^"):
                        print("NOTE %s: removes a line of mine: %s" % (s["id"], l))
                    else:
                        orig = True
                if l.startswith(("-", " ")):
                    ln += 1
        if not orig:
            print("NOTE %s: removes no original line of %s" % (s["id"], f))
    shutil.rmtree(w)
    if "sh" in s:
        open(d + "/demo.sh", "w").write(s["sh"])
    else:
        open(d + "/demo.sh", "w").write(open(V + "/tools/demo.sh").read().replace("@FLAGS@", s.get("flags", ""))
                                        .replace("@TIMEOUT@", str(s.get("timeout", 60))))
    if "demo" in s:
        open(d + "/demo.cc", "w").write('#include "demo.h"\n' + s["demo"].lstrip("\n"))
        shutil.copy(V + "/tools/demo.h", d + "/demo.h")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def demo(s, t):
    return sh(["bash", os.path.join(V, "seeded", s["id"], "demo.sh")], cwd=t)


def attempt(s, full=True):
    r = {}
    t = os.path.join(W, s["id"])
    tree(t)
    if full:
        d = demo(s, t)
        r["clean"] = d.returncode
        if d.returncode:
            r["out"] = d.stdout.decode(errors="replace")[-1500:]
            return r
    a = sh(["git", "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], cwd=t)
    if a.returncode:
        r["out"] = "apply: " + a.stdout.decode()
        return r
    if full:
        b = sh('cmake -S . -B _build -G Ninja -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS="-isystem /opt/vp/compat -include cstdint" '
               '-DCMAKE_CXX_STANDARD_LIBRARIES="-lCatch2Main -lCatch2" && ninja -C _build', cwd=t)
        if b.returncode:
            r["out"] = "build: " + b.stdout.decode(errors="replace")[-1500:]
            return r
        c = sh("ctest --test-dir _build -j4 --timeout 60", cwd=t).stdout.decode(errors="replace")
        import re
        ok = set(x.strip() for x in re.findall(r"Test\s+#\d+: (.*?) \.*\s+Passed", c))
        r["failed"] = sorted(STABLE - ok)
        d = demo(s, t)
        r["bug"] = d.returncode
        shutil.rmtree(os.path.join(t, "_build"), ignore_errors=True)
        if r["failed"] or not d.returncode:
            r["out"] = d.stdout.decode(errors="replace")[-500:]
            return r
        r["valid"] = True
    t0 = time.time()
    c = sh(["python3", "check.py", s["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=t, VERIF_TIER="quick", VERIF_SEED="1"))
    o = c.stdout.decode(errors="replace")
    r["check"] = c.returncode
    r["caught"] = c.returncode == 1 and "VIOLATION property=" + s["property"] in o
    r["how"] = [l.strip()[:160] for l in o.split("\n") if l.startswith("  ")][:3]
    r["s"] = round(time.time() - t0)
    if not r["caught"]:
        r["out"] = o[-600:]
    return r


def table(seeds):
    """Writes the table of what was caught into DESIGN.md."""
    res = json.load(open(RES))
    rows = ["| change | what it needs | caught by |", "|---|---|---|"]
    for s in seeds:
        r = res.get(s["id"], {})
        if not os.path.isdir(os.path.join(V, "seeded", s["id"])):
            continue
        how = (r.get("how") or [""])[0].split(": ")[0].replace("|", "/")
        rows.append("| %s | %s | %s |" % (s["id"], s["needs"].replace("|", "/").replace("\n", " "),
                                          "`%s`" % how if r.get("caught") else "**missed**"))
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    a, b = t.index("<!-- seeds -->"), t.index("<!-- /seeds -->")
    open(p, "w").write(t[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + t[b:])


def main():
    seeds = load()
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "table":
        return table(seeds)
    if ids:
        seeds = [s for s in seeds if any(s["id"].startswith(i) for i in ids)]
    os.makedirs(W, exist_ok=True)
    for s in seeds:
        if what == "make":
            make(s)
            continue
        res = json.load(open(RES)) if os.path.exists(RES) else {}
        if what == "new" and res.get(s["id"], {}).get("valid"):
            continue
        make(s)
        old = res.get(s["id"], {})
        r = attempt(s, full=what != "check")
        if what == "check":
            r["valid"] = old.get("valid")
        res = json.load(open(RES)) if os.path.exists(RES) else {}
        res[s["id"]] = r
        json.dump(res, open(RES, "w"), indent=1)
        shutil.rmtree(os.path.join(W, s["id"]), ignore_errors=True)
        print(s["id"], "VALID" if r.get("valid") else "INVALID", "CAUGHT" if r.get("caught") else "MISSED", r.get("s"),
              r.get("failed"), r.get("clean"), r.get("bug"), (r.get("how") or [r.get("out", "")[-300:]])[0], flush=True)


main()
