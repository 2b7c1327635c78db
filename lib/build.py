"""Content-hashed builder: compiles /repo's own translation units with sanitizers
plus a harness from /verif/harness, without touching /repo.

 * CMake is only *configured* (never built) in a scratch directory, to obtain the
   generated headers and the compile commands; the configure directory is keyed by
   the content of every CMake input of the tree.
 * every object is cached under the content of its source, of every header it
   included, and of its command line, so a change of any file is always seen, file
   times are never trusted, and an unchanged file is not compiled again.
"""
import threading, concurrent.futures, fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

class BuildError(Exception):
    pass

_hash_memo = {}
def file_hash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h

def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()

def _env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
        e.pop(k, None)
    e["CC"] = "/usr/bin/gcc"; e["CXX"] = "/usr/bin/g++"; e["LC_ALL"] = "C.UTF-8"
    return e

VARIANTS = {
    # address + undefined behaviour: the memory-safety monitor
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
    # data races
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # no instrumentation: for runs that count system effects
    "plain": ["-O1", "-g1", "-fno-omit-frame-pointer"],
    # coverage guided exploration, clang
    "fuzz": ["-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"],
}
CXX = {"asan": "g++", "tsan": "g++", "plain": "g++", "fuzz": "clang++"}
CC = {"asan": "gcc", "tsan": "gcc", "plain": "gcc", "fuzz": "clang"}

class Builder:
    def __init__(self, repo=None, log=None):
        self.repo = repo or REPO
        self.log = log or (lambda *a: None)
        os.makedirs(OUT, exist_ok=True)
        self._lock = open(os.path.join(OUT, ".lock"), "w")
        self.compiled = 0
        self.reused = 0

    # -- configure -------------------------------------------------------
    def _cmake_inputs(self):
        res = []
        for root, dirs, files in os.walk(self.repo):
            dirs[:] = sorted(d for d in dirs if not d.startswith("_build") and d != ".git")
            for f in sorted(files):
                p = os.path.join(root, f)
                if f == "CMakeLists.txt" or f.endswith((".cmake", ".in", ".cmakein")) \
                   or f.startswith("kwsysPlatformTests") or f in ("kwsysPrivate.h", "CTestConfig.cmake") \
                   or os.path.relpath(p, self.repo).startswith("CMake/"):
                    res.append(p)
        return res

    def configure(self):
        key = _sha(self.repo, *[os.path.relpath(p, self.repo) + file_hash(p) for p in self._cmake_inputs()])[:16]
        base = os.path.join(OUT, "cfg-" + key)
        if not os.path.exists(os.path.join(base, "ok")):
            fcntl.flock(self._lock, fcntl.LOCK_EX)
            try:
                if not os.path.exists(os.path.join(base, "ok")):
                    shutil.rmtree(base, ignore_errors=True)
                    os.makedirs(base)
                    common = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                              "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                              "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_C_FLAGS=-Wno-error"]
                    jobs = [
                        (["cmake", "-S", self.repo, "-B", base + "/vital"] + common +
                         ["-DBUILD_TESTING=OFF", "-DVITAL_ENABLE_TESTS=OFF", "-DVITAL_ENABLE_TOOLS=ON",
                          "-DVITAL_ENABLE_C_LIB=ON", "-DVITAL_ENABLE_PYTHON=OFF", "-DVITAL_ENABLE_LOG4CXX=OFF"]),
                        (["cmake", "-S", self.repo + "/vital/kwiversys", "-B", base + "/kwsys"] + common +
                         ["-DBUILD_TESTING=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"]),
                    ]
                    procs = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), text=True)
                             for j in jobs]
                    outs = [p.communicate()[0] for p in procs]
                    if any(p.returncode for p in procs):
                        raise BuildError("cmake configure failed:\n" + "\n".join(outs)[-4000:])
                    open(os.path.join(base, "ok"), "w").close()
                # keep the configure cache small
                old = sorted((d for d in os.listdir(OUT) if d.startswith("cfg-")),
                             key=lambda d: os.path.getmtime(os.path.join(OUT, d)))
                for d in old[:-40]:
                    if d != "cfg-" + key:
                        shutil.rmtree(os.path.join(OUT, d), ignore_errors=True)
            finally:
                fcntl.flock(self._lock, fcntl.LOCK_UN)
        self.cfg = base
        self.db = {}
        for which in ("vital", "kwsys"):
            with open(os.path.join(base, which, "compile_commands.json")) as f:
                for e in json.load(f):
                    args = shlex.split(e["command"])
                    m = re.search(r"CMakeFiles/([^/]+)\.dir/", e.get("output") or e["command"])
                    target = m.group(1)
                    flags, skip = [], False
                    for a in args[1:]:
                        if skip:
                            skip = False; continue
                        if a in ("-o", "-MT", "-MF"):
                            skip = True; continue
                        if a in ("-c", "-MD", "-O2", "-g", "-DNDEBUG", "-Wall", e["file"]) or a.startswith(("-Wl,", "-Werror", "-W")):
                            continue
                        flags.append(a)
                    grp = target if which == "vital" else "kwsys:" + target
                    self.db.setdefault(grp, []).append((e["file"], flags))
        return base

    def group(self, name, only=None, exclude=None):
        """(source, flags) list of one library target of the tree."""
        res = self.db.get(name)
        if not res:
            raise BuildError("no such target in the tree: %s (have %s)" % (name, sorted(self.db)))
        if only:
            res = [r for r in res if re.search(only, r[0])]
        if exclude:
            res = [r for r in res if not re.search(exclude, r[0])]
        return res

    def harness_flags(self, kwsys=False):
        c = self.cfg
        f = ["-I" + VERIF + "/lib"]
        if kwsys:
            f += ["-I" + c + "/kwsys"]
        else:
            f += ["-I" + self.repo, "-I" + c + "/vital", "-I" + c + "/vital/vital",
                  "-I" + self.repo + "/vital/bindings/c",
                  "-isystem", "/usr/include/eigen3", "-isystem", c + "/vital/vital/kwiversys"]
        return f

    # -- compile ---------------------------------------------------------
    def _object(self, src, flags, variant):
        cpp = not src.endswith(".c")
        cmd = [(CXX if cpp else CC)[variant]] + list(flags) + VARIANTS[variant] + ["-fPIC", "-w"]
        oid = _sha(src, *cmd)
        d = os.path.join(OUT, "obj", oid[:2])
        obj = os.path.join(d, oid + ".o")
        meta = os.path.join(d, oid + ".json")
        try:
            with open(meta) as f:
                deps = json.load(f)
            if os.path.exists(obj) and all(file_hash(p) == h for p, h in deps.items()):
                self.reused += 1
                return obj
        except (OSError, ValueError):
            pass
        os.makedirs(d, exist_ok=True)
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        dep = tmp + ".d"
        p = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env())
        if p.returncode:
            raise BuildError("compile failed: %s\n%s" % (src, p.stdout[-4000:]))
        with open(dep) as f:
            txt = f.read().replace("\\\n", " ")
        names = shlex.split(txt.split(":", 1)[1])
        deps = {}
        for n in names:
            n = os.path.abspath(n)
            if not n.startswith("/usr/"):
                deps[n] = file_hash(n)
        os.replace(tmp, obj)
        with open(meta + ".%d" % os.getpid(), "w") as f:
            json.dump(deps, f)
        os.replace(meta + ".%d" % os.getpid(), meta)
        os.unlink(dep)
        self.compiled += 1
        return obj

    def objects(self, items, variant):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda it: self._object(it[0], it[1], variant), items))

    def link(self, name, items, variant, extra=(), shared=False):
        objs = self.objects(items, variant)
        key = _sha(name, variant, *extra, *objs, *[file_hash_nomemo(o) for o in objs])[:20]
        exe = os.path.join(OUT, "bin", name + "-" + variant + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            for old in os.listdir(os.path.dirname(exe)):
                if old.startswith(name + "-" + variant + "-") and os.environ.get("VERIF_KEEP") is None:
                    try:
                        p = os.path.join(os.path.dirname(exe), old)
                        import time
                        if time.time() - os.path.getmtime(p) > 1800:
                            os.unlink(p)
                    except OSError:
                        pass
            san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") and "no-link" not in f]
            if variant == "fuzz":
                san = ["-fsanitize=fuzzer,address,undefined"]
            tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
            cmd = [CXX[variant]] + san + ["-g1"] + (["-shared"] if shared else []) + ["-o", tmp] + objs + \
                  ["-Wl,--as-needed", "-rdynamic", "-ldl", "-lpthread"] + list(extra)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env())
            if p.returncode:
                raise BuildError("link failed: %s\n%s" % (name, p.stdout[-4000:]))
            os.replace(tmp, exe)
        return exe

def file_hash_nomemo(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()
