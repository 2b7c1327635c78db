#!/usr/bin/env python3
"""Runs the monitors of one property.

  check.py ID [--tier quick|thorough]     decide a property
  check.py --replay FILE                  run again what a violation names
  check.py --setup                        build everything once
  check.py --list
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 no verdict.
"""
import argparse, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "oracles"))
sys.dont_write_bytecode = True
import build as B
from specs import SPECS

OUTDIR = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NPROC = os.cpu_count() or 4

class Inconclusive(Exception):
    pass

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=0:"
                    "max_allocation_size_mb=4096:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
}

def san_env(log, extra=None):
    e = {k: v for k, v in os.environ.items()
         if k in ("PATH", "HOME", "TMPDIR", "LANG", "LD_LIBRARY_PATH")}
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    for k, v in SAN_ENV.items():
        e[k] = v + ":log_path=" + log
    for k, v in (extra or {}).items():
        e[k] = e[k] + ":" + v if k in SAN_ENV else v
    return e

def read_logs(prefix):
    txt = ""
    d = os.path.dirname(prefix)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(prefix) + "."):
            try:
                with open(os.path.join(d, f), errors="replace") as fh:
                    txt += fh.read(400000)
            except OSError:
                pass
    return txt

def repo_frames(txt):
    """functions of the code under test on the stacks of a report, outermost last"""
    res = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (%s/[^\s:]+|[^\s:]*vital/[^\s:]+):?(\d*)" % re.escape(B.REPO), txt):
        fn = re.sub(r"\(.*", "", m.group(1)).strip()
        res.append("%s@%s" % (fn.split("::")[-1][:60], os.path.basename(m.group(2))))
    return res

def classify_crash(rc, txt):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    kind = None
    if "runtime error:" in txt:
        mm = re.search(r"([^\s:]+):\d+:\d+: runtime error: (.*)", txt)
        msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", mm.group(2)) if mm else "?"
        kind = "ub:" + msg[:90] + "@" + (os.path.basename(mm.group(1)) if mm else "?")
        return "crash:" + kind
    if m:
        kind = m.group(1)
        if kind == "ABRT":
            a = re.search(r"(Assertion|terminate called|what\(\))[^\n]*", txt)
            kind = "abort"
    elif rc < 0:
        kind = "signal-%d" % -rc
    else:
        kind = "exit-%d" % rc
    fr = repo_frames(txt)
    return "crash:" + kind + (":" + fr[0] if fr else "")

def tsan_reports(txt):
    res = {}
    for blk in re.split(r"={18,}", txt):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if not m:
            continue
        stacks = re.split(r"\n\s*\n", blk)
        tops = []
        for s in stacks[:2]:
            fr = repo_frames(s)
            tops.append(fr[0] if fr else "?")
        key = "race:" + m.group(1).strip().replace(" ", "-") + ":" + "|".join(sorted(tops))
        res.setdefault(key, blk.strip()[:6000])
    return res

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.b = B.Builder()
        self.b.configure()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = []    # (key, detail, replay dict)
        self.inconclusive = []
        self.events = {}
        self.evaluations = 0
        self.skipped = 0
        self.sigs = set()
        self.samples = []
        self.stage_info = []

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def violate(self, key, detail, replay=None):
        self.violations.append((key, detail, replay or {}))

    # ---- building -----------------------------------------------------
    def items(self, st):
        b = self.b
        its = []
        kwsys = any(g[0].startswith("kwsys:") if isinstance(g, tuple) else g.startswith("kwsys:") for g in st["groups"])
        for g in st["groups"]:
            if isinstance(g, tuple):
                its += b.group(*g)
            else:
                its += b.group(g)
        seen, res = set(), []
        for it in its:
            if it[0] not in seen:
                seen.add(it[0]); res.append(it)
        hf = b.harness_flags(kwsys=kwsys) + list(st.get("flags", ()))
        for s in st["src"]:
            res.append((os.path.join(VERIF, s), hf + ([] if s.endswith(".c") else ["-std=gnu++14"])))
        return res

    def mod_items(self, m):
        fl = self.b.harness_flags() + list(m.get("flags", ()))
        its = [(os.path.join(VERIF, s), fl + ([] if s.endswith(".c") else ["-std=gnu++14"])) for s in m["src"]]
        for grp, pat in m.get("repo", ()):
            its += self.b.group(grp, only=pat)
        return its

    def lists(self, st):
        v = st.get("variant", "asan")
        return [(self.mod_items(m), m.get("variant", v)) for m in st.get("modules", ())] + ([] if st.get("script") else [(self.items(st), v)])

    def build(self, st):
        v = st.get("variant", "asan")
        mods = []
        for m in st.get("modules", ()):
            its = self.mod_items(m)
            mods.append(m["name"] + "=" + self.b.link("mod_" + m["name"], its, m.get("variant", v), tuple(m.get("link", ())), shared=not m.get("exe")))
        self.modules = ",".join(mods)
        if st.get("script"):
            return os.path.join(VERIF, st["script"])
        return self.b.link(st["name"], self.items(st), v, st.get("link", ()))

    # ---- running one C++ stage -----------------------------------------
    def run_stage(self, st):
        if st.get("kind") == "py":
            mod = importlib.import_module(st["module"])
            getattr(mod, st.get("func", "run"))(self, st)
            return
        exe = self.build(st)
        total = st["thorough"] if self.tier == "thorough" else st["quick"]
        shards = min(st.get("shards", NPROC), max(1, total))
        timeout = st.get("timeout", (240, 3000))[1 if self.tier == "thorough" else 0]
        bounds = [(total * i // shards, total * (i + 1) // shards) for i in range(shards)]
        work = [(a, c) for a, c in bounds if c > a]
        running = []
        agg = {"events": {}, "evaluations": 0, "skipped": 0}
        for i, (a, c) in enumerate(work):
            running.append(self._spawn(st, exe, i, a, c))
        crashes = 0
        hung_cases = set()
        deadline = time.time() + timeout
        while running:
            nxt = []
            for r in running:
                rc = r["p"].poll()
                if rc is None:
                    if time.time() > r.get("looked", 0) + 1:
                        r["looked"] = time.time()
                        where = self._cur(r)
                        if where != r.get("at"):
                            r["at"], r["since"] = where, time.time()
                    stuck = time.time() > r["since"] + st.get("case_timeout", 60) and r.get("at") is not None
                    if stuck or time.time() > deadline or time.time() > r["deadline"]:
                        self._kill(r["p"])
                        cur = self._cur(r)
                        if r.get("single"):
                            # same case hung again on its own
                            self._crash_violation(st, exe, cur, "hang", "case did not finish in %ds, twice (alone the second time)" % st.get("case_timeout", 60))
                            for o in running:          # that settles it
                                if o["p"].poll() is None:
                                    self._kill(o["p"])
                            nxt = []
                            break
                        else:
                            self._merge_partial(r)
                            nr = self._spawn(st, exe, r["shard"], cur, cur + 1)
                            nr["single"] = True
                            nr["rest"] = (cur + 1, r["to"])
                            nr["deadline"] = time.time() + st.get("case_timeout", 60)
                            deadline = max(deadline, time.time() + st.get("case_timeout", 60) + 60)
                            if time.time() > deadline + 600:
                                raise Inconclusive("stage %s ran out of time" % st["name"])
                            nxt.append(nr)
                    else:
                        nxt.append(r)
                    continue
                log = read_logs(r["log"])
                done = os.path.exists(r["out"])
                if done:
                    with open(r["out"]) as f:
                        res = json.load(f)
                    self._merge(st, exe, r, res, agg)
                    if st.get("variant") == "tsan":
                        for key, blk in tsan_reports(log).items():
                            self.violate(key, blk, self._replay(st, r["from"], r["to"]))
                    if not st.get("variant") == "tsan" and rc != 0:
                        self._crash_violation(st, exe, self._cur(r), classify_crash(rc, log), log)
                    if r.get("single") and r["rest"][0] < r["rest"][1]:
                        self.inconclusive_note("case %d slow once, finished when alone" % r["from"])
                        nxt.append(self._spawn(st, exe, r["shard"], *r["rest"]))
                else:
                    cur = self._cur(r)
                    if cur is None or rc in (2, 3):
                        raise Inconclusive("stage %s did not start (exit %d): %s" % (st["name"], rc, log[-1500:] + r["err"]()))
                    log += r["err"]()
                    key = classify_crash(rc, log)
                    if "unexpected memory mapping" in log:
                        raise Inconclusive("sanitizer cannot start")
                    if rc == -9 or "out-of-memory" in key and False:
                        raise Inconclusive("stage %s was killed" % st["name"])
                    self._crash_violation(st, exe, cur, key, log)
                    if st.get("variant") == "tsan":
                        for k2, blk in tsan_reports(log).items():
                            self.violate(k2, blk, self._replay(st, r["from"], r["to"]))
                    agg["evaluations"] += 1
                    crashes += 1
                    if cur + 1 < r["to"] and crashes < 24:
                        nr = self._spawn(st, exe, r["shard"], cur + 1, r["to"])
                        nxt.append(nr)
            running = nxt
            if running:
                time.sleep(0.02)
        for m in st.get("must", ()):
            if not agg["events"].get(m):
                self.inconclusive.append("stage %s never observed '%s'" % (st["name"], m))
        if not agg["evaluations"]:
            self.inconclusive.append("stage %s evaluated nothing" % st["name"])
        for k, v in agg["events"].items():
            self.event(st["name"] + "." + k, v)
        self.evaluations += agg["evaluations"]
        self.skipped += agg["skipped"]

    def inconclusive_note(self, s):
        self.stage_info.append(s)

    def _merge_partial(self, r):
        pass

    def _spawn(self, st, exe, shard, a, c):
        tag = "%s-%d-%d" % (st["name"], shard, a)
        d = os.path.join(self.tmp, "d-" + tag)
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        out = os.path.join(self.tmp, tag + ".json")
        for x in (out, out + ".cur"):
            if os.path.exists(x):
                os.unlink(x)
        log = os.path.join(self.tmp, tag + ".san")
        for f in os.listdir(self.tmp):
            if f.startswith(tag + ".san."):
                os.unlink(os.path.join(self.tmp, f))
        errf = os.path.join(self.tmp, tag + ".err")
        cmd = [exe, "--seed", str(self.seed), "--from", str(a), "--cases", str(c - a), "--out", out,
               "--dir", d, "--tier", self.tier, "--extra", st.get("extra", "") or getattr(self, "modules", "")]
        env = san_env(log, st.get("env"))
        if st.get("script"):          # a Python driver that loads instrumented libraries
            cmd = [sys.executable, "-B", "-X", "utf8"] + cmd
            rt = [subprocess.check_output(["g++", "-print-file-name=lib%s.so" % x], text=True).strip() for x in ("asan", "ubsan", "stdc++")]
            env["LD_PRELOAD"] = " ".join(os.path.realpath(x) for x in rt)
            env["PYTHONMALLOC"] = "malloc"
            env["VERIF_REPO"] = B.REPO
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL,
                             stderr=open(errf, "wb"),
                             start_new_session=True)
        def err():
            try:
                with open(errf, "rb") as f:
                    f.seek(0, 2)
                    f.seek(max(0, f.tell() - 20000))
                    txt = f.read().decode(errors="replace")
                i = txt.find("runtime error:")
                if i >= 0:
                    return txt[max(0, txt.rfind("\n", 0, i) + 1):][:6000]
                return txt[-2000:]
            except OSError:
                return ""
        return dict(p=p, out=out, log=log, shard=shard, dir=d, err=err, deadline=float("inf"), since=time.time(), **{"from": a, "to": c})

    def _kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def _cur(self, r):
        try:
            with open(r["out"] + ".cur", "rb") as f:
                data = f.read()
            cur = int.from_bytes(data[0:8], "little")
            started = int.from_bytes(data[8:16], "little")
            r["note"] = data[16:].split(b"\0")[0].decode(errors="replace")
            self.last_note = r["note"]
            return cur if started else None
        except OSError:
            return None

    def _replay(self, st, a, c):
        return {"property": self.pid, "stage": st["name"], "seed": self.seed, "from": a, "cases": c - a, "tier": self.tier}

    def _crash_violation(self, st, exe, cur, key, log):
        self.violate(key, "case %s phase [%s]\n%s" % (cur, getattr(self, "last_note", ""), log[:8000]),
                     self._replay(st, cur, cur + 1))

    def _merge(self, st, exe, r, res, agg):
        agg["evaluations"] += res["evaluations"]
        agg["skipped"] += res["skipped"]
        for k, v in res["events"].items():
            agg["events"][k] = agg["events"].get(k, 0) + v
        salt = hash(st["name"]) & 0
        for s in res["sigs"]:
            self.sigs.add((st["name"], s))
        if len(self.samples) < 8:
            self.samples += [{"stage": st["name"], "case": s} for s in res["samples"][:2]]
        for v in res["violations"]:
            self.violate(v["key"], v["detail"], self._replay(st, v["case"], v["case"] + 1))

def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)$", line.rstrip("\n"))
                if m:
                    known.append(m.groups())
    return known

def run_property(pid, tier, seed):
    spec = SPECS[pid]
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        for st in spec["stages"]:
            if tier == "quick" and st.get("thorough_only"):
                continue
            ctx.run_stage(st)
    finally:
        if not os.environ.get("VERIF_KEEP_TMP"):
            subprocess.call(["chmod", "-R", "u+rwX", ctx.tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    known = [k for k in load_known() if k[0] == pid]
    seen = {}
    known_hit = {}
    for key, detail, replay in ctx.violations:
        for _, kkey, what in known:
            if key == kkey:
                known_hit[kkey] = what
                break
        else:
            seen.setdefault(key, []).append((detail, replay))
    # evidence
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.sigs),
            "rule": spec["rule"],
            "samples": ctx.samples or ["(none)"],
            "observed_events": dict(sorted(ctx.events.items())),
            "cases_discarded": ctx.skipped,
            "notes": ctx.stage_info,
            "inconclusive": ctx.inconclusive,
            "objects_compiled": ctx.b.compiled, "objects_reused": ctx.b.reused,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(seen),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kkey, what in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    d = os.path.join(OUTDIR, pid)
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(tier + "-"):
                os.unlink(os.path.join(d, f))
    if seen:
        os.makedirs(d, exist_ok=True)
        for i, (key, lst) in enumerate(sorted(seen.items())):
            path = os.path.join(d, "%s-%d.json" % (tier, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "count": len(lst), "detail": lst[0][0], "replay": lst[0][1]}, f, indent=1)
            if i < 12:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  key: %s" % key)
                print("  " + lst[0][0][:700].replace("\n", "\n  "))
        return 1
    if ctx.inconclusive:
        print("INCONCLUSIVE property=%s: %s" % (pid, "; ".join(ctx.inconclusive)))
        return 2
    print("held property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" %
          (pid, tier, seed, ctx.evaluations, len(ctx.sigs), time.time() - t0))
    return 0

def replay(path):
    with open(path) as f:
        r = json.load(f)
    rp = r["replay"]
    pid = r["property"]
    st = [s for s in SPECS[pid]["stages"] if s["name"] == rp.get("stage")]
    print(json.dumps(r, indent=1)[:6000])
    if not st or st[0].get("kind") == "py":
        return run_property(pid, rp.get("tier", "quick"), rp.get("seed", 1))
    st = st[0]
    ctx = Ctx(pid, rp["tier"], rp["seed"])
    exe = ctx.build(st)
    rr = ctx._spawn(dict(st, stderr=True), exe, 0, rp["from"], rp["from"] + rp["cases"])
    rr["p"].wait(timeout=600)
    print(read_logs(rr["log"])[:8000]); print(rr["err"]())
    bad = rr["p"].returncode != 0
    if os.path.exists(rr["out"]):
        with open(rr["out"]) as f:
            v = json.load(f)["violations"]
        bad = bad or bool(v)
        print(json.dumps(v, indent=1))
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    return 1 if bad else 0

def setup():
    """compile everything the checks need, each object once, then link"""
    import concurrent.futures as cf
    ctxs, work = [], {}
    for pid, spec in sorted(SPECS.items()):
        ctx = Ctx(pid, "quick", 1)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sts = [s for s in list(spec["stages"]) + list(spec.get("prebuild", ())) if s.get("src") or s.get("script")]
        ctxs.append((pid, ctx, sts))
        for st in sts:
            for its, v in ctx.lists(st):
                for it in its:
                    # the harnesses take longest and go first
                    k = (it[0], tuple(it[1]), v)
                    work.setdefault(k, 0 if it[0].startswith(VERIF) else 1)
    b = ctxs[0][1].b
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda k: b._object(k[0], k[1], k[2]), sorted(work, key=lambda k: work[k])))
    print("compiled", b.compiled, "reused", b.reused, flush=True)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        def one(t):
            for st in t[2]:
                t[1].build(st)
            return t[0]
        for pid in ex.map(one, ctxs):
            print("built", pid, flush=True)
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    try:
        if a.list:
            print("\n".join(sorted(SPECS))); return 0
        if a.replay:
            return replay(a.replay)
        if a.setup:
            return setup()
        if a.pid not in SPECS:
            print("unknown property", a.pid); return 2
        return run_property(a.pid, a.tier, a.seed)
    except Inconclusive as e:
        print("INCONCLUSIVE", e)
        return 2
    except B.BuildError as e:
        print("BUILD ERROR", str(e)[-6000:])
        return 2
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE timeout", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
