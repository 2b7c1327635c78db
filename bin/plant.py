#!/usr/bin/env python3
"""Developer helper: plant a bug in a scratch copy of /repo, confirm it, keep it under seeded/.

usage: plant.py SPEC.py [ID ...]     SPEC.py defines BUGS, a list of
  dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo="C++ source", run="extra shell")
usage: plant.py --check [ID ...]     run the property's check against the kept bugs again
"""
import json, os, runpy, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/plant-%d" % os.getpid()

DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
B=/repo/_build
g++ -std=c++11 -w -O1 -I/repo -I$B -I/repo/vital -I$B/vital -I$B/vital/kwiversys -I/usr/include/eigen3 %s "$here/demo.cxx" -o "$t/demo" \\
  -L$B/lib -Wl,-rpath,$B/lib -lvital_c -lvital_apm -lvital -lvital_config -lvital_logger -lkwiversys -ldl -lpthread || exit 3
cd "$t" && %s timeout 120 "$t/demo" >"$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
'''

DEMO_PY = '''#!/bin/bash
# exit 0 when the behaviour is right, run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/b/lib" "$t/w"
ln -s /repo/_build/lib/libvital_c.so "$t/b/lib/libvital_c.so"
cp "$here"/demo.py "$here"/py2shim.py "$t"
cd "$t/w" && timeout 120 python3 -B "$t/demo.py" "$t/b" >"$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
'''
DEMO_PY_HEAD = '''import gc, os, sys
import py2shim
py2shim.install("/repo/vital/bindings/python", sys.argv[1])
from vital import *
'''

def ns(cmd, repo):
    """run a shell command with the scratch copy in the place of /repo"""
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (repo, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)

def scratch():
    repo = SCRATCH + "/repo"
    if not os.path.exists(repo):
        os.makedirs(SCRATCH)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    return repo

def revert(repo):
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])

def record(i, prop, text):
    """remember what the check said, for DESIGN.md"""
    f = os.path.join(VERIF, "lib", "catches.json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[i] = dict(property=prop, result="caught" if text.startswith("CAUGHT") else "missed", key=text.split("key:")[1].split("|")[0].strip()[:110] if "key:" in text else "")
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)

def run_check(repo, prop, seeds=("1",)):
    out = []
    for s in seeds:
        r = ns("VERIF_SEED=%s VERIF_TIER=quick python3 %s/bin/check.py %s" % (s, VERIF, prop), repo)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        hit = [l for l in lines if l.startswith("VIOLATION property=%s" % prop)]
        out.append("CAUGHT" if r.returncode == 1 and hit else "missed(rc=%d)" % r.returncode)
        detail = [l for l in lines if "key" in l or "VIOLATION" in l][:2]
    return " ".join(out) + "  " + (" | ".join(detail))[:300]

def plant(b):
    repo = scratch()
    revert(repo)
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT", f, "matches", s.count(old)); shutil.rmtree(d); return
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", repo, "diff"], universal_newlines=True)
    open(d + "/patch.diff", "w").write(diff)
    if "py" in b:
        open(d + "/demo.py", "w").write(DEMO_PY_HEAD + b["py"])
        shutil.copy(VERIF + "/harness/py/py2shim.py", d)
        open(d + "/demo.sh", "w").write(DEMO_PY)
    else:
        open(d + "/demo.cxx", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", ""), b.get("run", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    res = "/tmp/plant-res.json"
    t = ns("bash /opt/vp/test.sh %s >/tmp/plant-test.log 2>&1; tail -3 /tmp/plant-test.log" % res, repo)
    r = json.load(open(res))
    bad = ns("bash %s/demo.sh" % d, repo)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["passed"] if isinstance(base, dict) and "passed" in base else base if isinstance(base, list) else base.get("stable", []))
    lost = sorted(want - set(r["passed"]))
    ok = good.returncode == 0 and bad.returncode not in (0, 3) and not lost and r["passed"]
    print("%-28s demo clean=%d planted=%d tests lost=%s -> %s" % (b["id"], good.returncode, bad.returncode, lost[:3], "ok" if ok else "NOT KEPT"), flush=True)
    if not ok:
        print(good.stdout[-1500:], bad.stdout[-600:])
        if not r["passed"]: print(open("/tmp/plant-test.log").read()[-1500:])
        shutil.rmtree(d)
    else:
        res = run_check(repo, b["property"])
        record(b["id"], b["property"], res)
        print("    ", res, flush=True)
    revert(repo)

def main():
    try:
        if sys.argv[1] == "--check":
            ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
            for i in ids:
                d = os.path.join(SEEDED, i)
                m = json.load(open(d + "/meta.json"))
                repo = scratch(); revert(repo)
                subprocess.check_call(["git", "-C", repo, "apply", d + "/patch.diff"])
                res = run_check(repo, m["property"])
                record(i, m["property"], res)
                print("%-28s %s  %s" % (i, m["property"], res), flush=True)
                revert(repo)
        else:
            for b in runpy.run_path(sys.argv[1])["BUGS"]:
                if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
                    plant(b)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)

main()
