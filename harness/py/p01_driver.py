#!/usr/bin/env python3
"""P01: the Python objects mean what the C++ objects behind them mean."""
import ctypes, gc, hashlib, json, os, random, shutil, struct, sys, types

ARGS = dict(zip(sys.argv[1::2], sys.argv[2::2]))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import py2shim

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "vital", "bindings", "python")
DIR = ARGS["--dir"]
MODULES = dict(m.split("=", 1) for m in ARGS["--extra"].split(","))
libc = ctypes.CDLL(None)
libc.prctl(1, 9)


class Fail(Exception):
    pass

class State:
    evaluations = 0
    events, sigs, samples, violations = {}, set(), [], []
    case = 0

S = State()

def event(name, n=1):
    S.events[name] = S.events.get(name, 0) + n

def sig(*x):
    S.sigs.add(int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=6).digest(), "big"))
    if len(S.samples) < 3:
        S.samples.append(repr(x)[:200])

CUR = open(ARGS["--out"] + ".cur", "w+b")
def note(s):
    CUR.seek(16)
    CUR.write(s.encode()[:300] + b"\0")
    CUR.flush()
    S.note = s

def fail(key, detail):
    S.violations.append({"key": key, "case": S.case, "detail": str(detail)[:3000] + " | phase: " + getattr(S, "note", "")})
    raise Fail()

def check(ok, key, detail=""):
    if not ok:
        fail(key, detail() if callable(detail) else detail)

def same(got, want, key, detail=""):
    if got != want or type(got) is not type(want) and not (isinstance(got, (int, float)) and isinstance(want, (int, float))):
        fail(key, "%r instead of %r %s" % (got, want, detail))

# an exception in a destructor goes nowhere in Python, so it is caught here
unraisable = []
sys.unraisablehook = lambda u: unraisable.append("%s: %r in %r" % (u.exc_type.__name__, u.exc_value, u.object))

def settled():
    gc.collect()
    if unraisable:
        text = "; ".join(unraisable[:3])
        del unraisable[:]
        fail("destructor", "a destructor failed: " + text)

def raises(kinds, fn, *a):
    """the exception fn ends with; None if it ends well"""
    try:
        fn(*a)
    except Fail:
        raise
    except kinds as e:
        return e.with_traceback(None)          # a traceback keeps what the failed call had in hand
    except Exception as e:
        fail("exception:" + type(e).__name__, "%s ended with %r" % (getattr(fn, "__name__", fn), e))
    return None

# -- start -------------------------------------------------------------------
BUILD = os.path.join(DIR, "build")
os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
LIB = os.path.join(BUILD, "lib", "libvital_c.so")
if not os.path.lexists(LIB):
    os.symlink(MODULES["p01_lib"], LIB)
os.environ.pop("LD_LIBRARY_PATH", None)         # a library in the build folder needs no search path
os.environ.pop("KWIVER_PLUGIN_PATH", None)

# a stand-in for the picture library
class Pil:
    def __init__(self, mode, size, data):
        self.mode, self.size, self.data = mode, size, bytes(data)
    def tostring(self):
        return self.data
def frombytes(mode, size, data, decoder, raw, stride, orientation):
    w, h = size
    data = bytes(data)
    if decoder != "raw" or orientation != 1:
        raise ValueError("decoder")
    n = {"L": 1, "RGB": 3, "BGR": 3}[raw]
    stride = stride or w * n
    if w and h and len(data) < stride * (h - 1) + w * n:
        raise ValueError("not enough image data")
    out = b""
    for y in range(h):
        row = data[y * stride:y * stride + w * n]
        if raw == "BGR":
            row = b"".join(row[3 * i:3 * i + 3][::-1] for i in range(w))
        out += row
    return Pil(mode, size, out)
pil, pim = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
pim.frombytes, pil.Image = frombytes, pim
sys.modules["PIL"], sys.modules["PIL.Image"] = pil, pim

CASES = range(int(ARGS["--from"]), int(ARGS["--from"]) + int(ARGS["--cases"]))
CUR.write(struct.pack("<QQ", CASES[0], 1) + b"import\0")
CUR.flush()

py2shim.install(PKG, BUILD)
IMPORT_ERROR = None
try:
    import vital
    import vital.algo
    from vital.util import VitalObject, VitalErrorHandle
    from vital.util.find_vital_library import _find_vital_library_path
    from vital import ConfigBlock, Image, ImageContainer, Track, TrackSet, Camera, CameraMap, AlgorithmPluginManager
    from vital.algo import ConvertImage, ImageIo, TrackFeatures
    from vital.exceptions.base import VitalBaseException, VitalNullPointerException
    from vital.exceptions.config_block import VitalConfigBlockNoSuchValueException
    from vital.exceptions import config_block_io as cbio
    import vital.config_block as cbmod
    import tempfile
    class _temp:                      # file names are byte strings in Python 2
        opened = []
        @staticmethod
        def mkstemp(*a, **k):
            fd, p = tempfile.mkstemp(dir=os.fsencode(DIR))
            return fd, p
    cbmod.tempfile = _temp
    cbmod.open = lambda p, mode="r": open(p, mode.replace("b", "") + "b")    # and so is what files hold
    _lib = VitalObject.VITAL_LIB
    _lib.p01_register()
    _lib.p01_alive.restype = ctypes.c_long
except Exception as e:
    import traceback
    IMPORT_ERROR = traceback.format_exc()

def text(fn, handle, n=1 << 16):
    b = ctypes.create_string_buffer(n)
    f = getattr(_lib, fn)
    f.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
    f(ctypes.cast(handle, ctypes.c_void_p), b, n)
    return b.value

def address(o):
    return ctypes.cast(o.c_pointer, ctypes.c_void_p).value

# -- configuration blocks ----------------------------------------------------
SEGS = [b"a", b"b", b"ab", b"alg", b"type", b"x1"]

def key(r):
    return b":".join(r.choice(SEGS) for _ in range(r.choice([1, 1, 2, 2, 3])))

def value(r):
    n = r.choice([0, 1, 1, 3, 12, 300])
    return bytes(r.choice(b"abc XYZ019._-+=#/\\:\xc3\xa9") for _ in range(n))

def is_file_safe(v):
    return v == v.strip() and v != b"" and all(c not in v for c in (b"#", b"\\", b"\xc3", b"\xa9", b'"'))

class Root:
    """what a block and its views hold"""
    def __init__(self):
        self.v, self.d, self.ro = {}, {}, set()
    def set(self, k, v, d=None):
        if k in self.ro:
            return
        self.v[k] = v.strip()                  # blanks around values are dropped
        if d:                                  # an empty one is none
            self.d[k] = d
    def unset(self, k):
        if k in self.ro:
            return
        self.v.pop(k, None)
        self.d.pop(k, None)

class Block:
    def __init__(self, obj, root, prefix=b"", parent=None):
        self.o, self.r, self.p = obj, root, prefix
    def full(self, k):
        return self.p + k
    def keys(self):
        return sorted(k[len(self.p):] for k in self.r.v if k.startswith(self.p))

def compare(b, where):
    keys = b.o.available_keys()
    same(sorted(keys), b.keys(), "config:keys", where)
    same(b.o.as_dict(), {k: b.r.v[b.full(k)] for k in keys}, "config:as-dict", where)
    for k in keys[:6]:
        same(b.o.get_value(k), b.r.v[b.full(k)], "config:value", where)
        same(b.o.get_description(k), b.r.d.get(b.full(k), b""), "config:description", "of %r %s" % (k, where))
        check(b.o.has_value(k), "config:has", where)

BOOLS = {b"true": True, b"yes": True, b"1": True, b"TRUE": True, b"Yes": True, b"false": False, b"no": False, b"0": False, b"No": False}

def config(r):
    root = Root()
    name = r.choice([None, b"", b"block", b"a b"])
    blocks = [Block(ConfigBlock(name) if name is not None else ConfigBlock(), root)]
    same(blocks[0].o.name, name or b"", "config:name")
    log = []
    for _ in range(r.randint(5, 40)):
        b = r.choice(blocks)
        k = key(r)
        f = b.full(k)
        op = r.choice(["set", "set", "set", "setd", "unset", "get", "default", "bool", "boold", "has", "ro", "isro", "view", "copy", "merge", "descr", "dict", "drop", "number", "string", "new"])
        log.append("%s(%r)" % (op, f))
        note("config " + " ".join(log[-12:]))
        if op == "set":
            v = value(r)
            b.o.set_value(k, v)
            b.r.set(f, v)
        elif op == "number":
            v = r.choice([1, -5, 2.5, True, None, 10**20])
            b.o.set_value(k, v)
            b.r.set(f, str(v).encode())
        elif op == "setd":
            v, d = value(r), value(r)
            b.o.set_value(k, v, d)
            b.r.set(f, v, d)
        elif op == "unset":
            had = f in b.r.v
            raises(VitalBaseException, b.o.unset_value, k)
            b.r.unset(f)
            event("unset" if had else "unset_nothing")
        elif op == "get":
            same(b.o.get_value(k), b.r.v.get(f), "config:value", log)
        elif op == "default":
            d = r.choice([b"", b"fallback"])
            same(b.o.get_value(k, d), b.r.v.get(f, d), "config:default", log)
        elif op in ("bool", "boold"):
            if r.random() < 0.7:
                t = r.choice(list(BOOLS) + [b"maybe", b"", b"2x"])
                b.o.set_value(k, t)
                b.r.set(f, t)
            have = b.r.v.get(f)
            if op == "bool":
                got = []
                e = raises(VitalBaseException, lambda: got.append(b.o.get_value_bool(k)))
                if have is None:
                    check(isinstance(e, VitalConfigBlockNoSuchValueException), "config:bool-missing", "%r for a missing value" % e)
                    check(k in e.args[0], "config:bool-message", "the message names no key: %r" % (e.args,))
                    event("missing values refused")
                elif have in BOOLS:
                    check(e is None, "config:bool", "%r for %r" % (e, have))
                    same(got[0], BOOLS[have], "config:bool", have)
                    event("truths")
                else:
                    check(e is not None or have not in (b"maybe", b"", b"2x"), "config:bool-malformed", "%r read as a truth" % have)
            else:
                d = r.choice([True, False])
                if have is None or have in BOOLS:
                    same(b.o.get_value_bool(k, d), BOOLS[have] if have is not None else d, "config:bool-default", "%r default %r" % (have, d))
        elif op == "has":
            same(b.o.has_value(k), f in b.r.v, "config:has")
        elif op == "ro":
            b.o.mark_read_only(k)
            b.r.ro.add(f)
            event("read only")
        elif op == "isro":
            same(b.o.is_read_only(k), f in b.r.ro, "config:read-only", log)
        elif op == "view" and len(blocks) < 10:
            s = b":".join(k.split(b":")[:r.randint(1, 2)])
            blocks.append(Block(b.o.subblock_view(s), b.r, b.full(s) + b":"))
            event("views")
        elif op == "copy" and len(blocks) < 10:
            s = k.split(b":")[0]
            n = Root()
            p = b.full(s) + b":"
            for q, v in b.r.v.items():
                if q.startswith(p):
                    n.v[q[len(p):]] = v
                    if q in b.r.d:
                        n.d[q[len(p):]] = b.r.d[q]
            c = Block(b.o.subblock(s), n)
            if any(q.startswith(p) for q in b.r.ro):
                compare(c, "copy")             # what a copy keeps of read-only marks is left to C01
            else:
                blocks.append(c)
            event("copies")
        elif op == "merge":
            o = r.choice(blocks)
            if o.r is not b.r and not any(b.full(q) in b.r.ro for q in o.keys()):
                b.o.merge_config(o.o)
                for q in o.keys():
                    b.r.set(b.full(q), o.r.v[o.full(q)], o.r.d.get(o.full(q)))
                    if o.full(q) not in o.r.d:
                        pass
                event("merges")
        elif op == "descr":
            want = b.r.d.get(f, b"") if f in b.r.v else None
            got = []
            e = raises(VitalBaseException, lambda: got.append(b.o.get_description(k)))
            check(e is None, "config:description-missing", "asking for the description of %s key ended with %r" % ("a set" if f in b.r.v else "a missing", e))
            same(got[0], want, "config:description", "of %r %s" % (f, log))
            event("descriptions" if want is not None else "no description")
        elif op == "dict":
            compare(b, op)
        elif op == "drop" and len(blocks) > 1:
            blocks.remove(b)
            del b
            event("dropped")
        elif op == "string":
            fds = len(os.listdir("/proc/self/fd"))
            files = set(os.listdir(DIR))
            got = []
            e = raises(VitalBaseException, lambda: got.append(b.o.as_string()))
            if got:
                for q in b.keys():
                    check(type(got[0]) is bytes and q in got[0] and b.r.v[b.full(q)] in got[0], "config:as-string", "%r lacks %r" % (got[0], q))
            else:
                check(not b.keys(), "config:as-string-refused", "%r for %d entries" % (e, len(b.keys())))
            same(set(os.listdir(DIR)), files, "config:as-string-leaves-file", "after %r" % e)
            same(len(os.listdir("/proc/self/fd")), fds, "config:as-string-leaves-descriptor", "after %r" % e)
            event("strings" if got else "string of nothing")
        elif op == "new" and len(blocks) < 10:
            n = Root()
            blocks.append(Block(ConfigBlock(), n))
    for b in blocks:
        compare(b, "at the end, after " + " ".join(log))
    sig("config", log)
    del blocks, b
    settled()
    event("config histories")

def config_files(r):
    root = Root()
    b = Block(ConfigBlock(), root)
    for _ in range(r.randint(1, 12)):
        k, v = key(r), value(r)
        if is_file_safe(v) and not any(q.startswith(k + b":") or k.startswith(q + b":") for q in root.v):
            b.o.set_value(k, v)
            root.set(k, v)
    b.o.set_value(b"last", b"one")
    root.set(b"last", b"one")
    f = os.fsencode(DIR) + b"/config"
    note("config file")
    b.o.write(f)
    got = ConfigBlock.from_file(f)
    same(got.as_dict(), root.v, "file:round-trip")
    check(isinstance(got, ConfigBlock), "file:class")
    other = ConfigBlock()
    other.set_value(b"last", b"old")
    other.set_value(b"only", b"mine")
    other.read(f)
    want = dict(root.v)
    want[b"only"] = b"mine"
    same(other.as_dict(), want, "file:read")
    with open(f, "rb") as fh:
        same(b.o.as_string(), fh.read(), "file:as-string")
    # refusals
    note("config refusals")
    missing = raises(VitalBaseException, ConfigBlock.from_file, f + b".none")
    check(type(missing) is cbio.VitalConfigBlockIoFileNotFoundException, "file:missing", repr(missing))
    check(f + b".none" in missing.args[0], "file:message", repr(missing.args))
    folder = raises(VitalBaseException, ConfigBlock.from_file, os.fsencode(DIR))
    check(isinstance(folder, cbio.VitalConfigBlockIoException), "file:folder", repr(folder))
    with open(f, "wb") as fh:
        fh.write(r.choice([b"block a\n x = 1\n", b"no sense here\n", b"a = 1\nendblock\n", b"include\n", b"a = 1\nblock\nendblock\n"]))
    bad = raises(VitalBaseException, ConfigBlock.from_file, f)
    check(isinstance(bad, cbio.VitalConfigBlockIoException), "file:malformed", repr(bad))
    unwritable = raises(VitalBaseException, b.o.write, f + b"/none/x")       # a file is in the way
    check(isinstance(unwritable, cbio.VitalConfigBlockIoException), "file:unwritable", repr(unwritable))
    before = b.o.as_dict()
    e = raises(VitalBaseException, b.o.read, f + b".none")
    check(type(e) is cbio.VitalConfigBlockIoFileNotFoundException and b.o.as_dict() == before, "file:read-refused", repr(e))
    os.remove(f)
    sig("file", sorted(root.v))
    del b, got, other
    settled()
    event("config files")

# -- images --------------------------------------------------------------------
def pixels(img):
    return text("p01_image_text", img.c_pointer)

def describe(w, h, d, at):
    return (("%dx%dx%d" % (w, h, d)) + "".join(" %d" % at(x, y, z) for z in range(d) for y in range(h) for x in range(w))).encode()

def fill(img, r, w, h, d):
    data = {}
    f = _lib.p01_image_set
    f.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_int]
    for z in range(d):
        for y in range(h):
            for x in range(w):
                data[x, y, z] = r.randint(0, 255)
                f(ctypes.cast(img.c_pointer, ctypes.c_void_p), x, y, z, data[x, y, z])
    return data

def images(r):
    note("images")
    img = Image()
    same((img.size(), img.width(), img.height(), img.depth()), (0, 0, 0, 0), "image:empty")
    check(bool(img), "image:handle")
    w, h, d = r.randint(1, 12), r.randint(1, 12), r.choice([1, 1, 3, 4])
    inter = r.choice([True, False, None])
    a = Image(w, h, d, inter) if inter is not None else Image(w, h, d)
    same((a.size(), a.width(), a.height(), a.depth()), (w * h * d, w, h, d), "image:size")
    same((a.w_step(), a.h_step(), a.d_step()), (d, d * w, 1) if inter else (1, w, w * h), "image:steps", "%dx%dx%d" % (w, h, d))
    data = fill(a, r, w, h, d)
    same(pixels(a), describe(w, h, d, lambda x, y, z: data[x, y, z]), "image:pixels")
    # the address leads to the pixels
    base = (ctypes.c_ubyte * 1).from_address(a.first_pixel_address())
    same(base[0], data[0, 0, 0], "image:address")
    far = (w - 1) * a.w_step() + (h - 1) * a.h_step() + (d - 1) * a.d_step()
    same((ctypes.c_ubyte * 1).from_address(a.first_pixel_address() + far)[0], data[w - 1, h - 1, d - 1], "image:steps-lead")
    # shared memory
    b = Image.from_image(a)
    same(b.first_pixel_address(), a.first_pixel_address(), "image:shared")
    data.update({k: v for k, v in fill(b, r, 1, 1, 1).items()})
    same(pixels(a), pixels(b), "image:shared-pixels")
    del a
    settled()
    same(pixels(b), describe(w, h, d, lambda x, y, z: data[x, y, z]), "image:outlives")
    event("images shared")
    # containers
    note("containers")
    c = ImageContainer(b)
    same((c.size(), c.width(), c.height(), c.depth()), (b.size(), w, h, d), "container:size")
    del b
    settled()
    g = c.get_image()
    check(isinstance(g, Image), "container:class")
    same(pixels(g), describe(w, h, d, lambda x, y, z: data[x, y, z]), "container:pixels")
    del c
    settled()
    same(pixels(g), describe(w, h, d, lambda x, y, z: data[x, y, z]), "container:outlives")
    event("containers")
    # pictures
    note("pictures")
    mode = r.choice(["L", "RGB"])
    n = 1 if mode == "L" else 3
    raw = bytes(r.randrange(256) for _ in range(w * h * n))
    p = Image.from_pil(Pil(mode, (w, h), raw))
    if mode == "L":
        same(pixels(p), describe(w, h, 1, lambda x, y, z: raw[y * w + x]), "picture:grey")
        back = p.get_pil_image()
        same((back.mode, back.size, back.data), ("L", (w, h), raw), "picture:grey-back")
        event("grey pictures")
    else:
        # planes are blue, green, red
        same(pixels(p), describe(w, h, 3, lambda x, y, z: raw[(y * w + x) * 3 + 2 - z]), "picture:colour")
        event("colour pictures")
    e = raises(RuntimeError, Image.from_pil, Pil(r.choice(["CMYK", "1", "RGBA", "P", ""]), (w, h), raw * 4))
    check(e is not None, "picture:mode", "an unsupported mode was taken")
    q = Image(w, h, 3, True)
    data = fill(q, r, w, h, 3)
    back = q.get_pil_image()
    same((back.mode, back.size, back.data), ("RGB", (w, h), bytes(data[x, y, 2 - z] for y in range(h) for x in range(w) for z in range(3))), "picture:colour-back")
    check(raises(RuntimeError, Image(w, h, 2).get_pil_image) is not None, "picture:depth", "")
    if w * h > 1:
        check(raises(RuntimeError, Image(w, h, 3).get_pil_image) is not None, "picture:planes", "")
    sig("image", w, h, d, inter, mode)
    del g, p, q
    settled()
    event("image rounds")

# -- tracks ----------------------------------------------------------------------
def track_add(t, id_, frame, x):
    f = _lib.p01_track_add
    f.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_double]
    f(ctypes.cast(t.c_pointer, ctypes.c_void_p), id_, frame, x)

def make_tracks(r):
    tracks, want = [], b""
    for i in range(r.randint(0, 6)):
        t = Track()
        check(t.is_empty and len(t) == 0 and t.size == 0, "track:empty", "")
        n = r.randint(1, 5)
        want += b"%d/%d" % (i, n)
        for k in range(n):
            x = r.randint(-50, 50)
            track_add(t, i, 3 * k, x)
            want += b"@%d(%d,%d)" % (3 * k, x, 2 * x)
            same(len(t), k + 1, "track:length")
        same(t.size, n, "track:size")
        check(not t.is_empty, "track:not-empty", "")
        want += b" "
        tracks.append(t)
    return tracks, want

def tracks(r):
    note("tracks")
    ts, want = make_tracks(r)
    s = TrackSet(ts) if ts or r.random() < 0.5 else TrackSet()
    same(len(s), len(ts), "tracks:length")
    same(s.size(), len(ts), "tracks:size")
    same(text("p01_tracks_text", s.c_pointer), want, "tracks:content")
    n = len(ts)
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        ts[i] = None
    del ts
    settled()
    same(text("p01_tracks_text", s.c_pointer), want, "tracks:outlive")
    f = os.fsencode(DIR) + b"/tracks"
    note("track files")
    if n:
        s.write_tracks_file(f)
        t = TrackSet.from_file(f)
        check(isinstance(t, TrackSet) and len(t) == n, "tracks:file", "")
        same(text("p01_tracks_text", t.c_pointer), want, "tracks:file-content")
        os.remove(f)
        del t
        event("track files")
    e = raises(VitalBaseException, TrackSet.from_file, f + b".none")
    check(e is not None and b".none" in e.args[0], "tracks:missing", repr(e))
    with open(f, "wb") as fh:
        fh.write(b"in the way")
    e = raises(VitalBaseException, s.write_tracks_file, f + b"/none/x")
    check(e is not None, "tracks:unwritable", "")
    os.remove(f)
    sig("tracks", want)
    del s, e
    settled()
    event("track rounds")

# -- cameras ---------------------------------------------------------------------
def krtd(r, x):
    return ("%g 0 %g\n0 %g %g\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n%g 0 0\n\n%s\n" % (r.randint(100, 900), r.randint(1, 90), r.randint(100, 900), r.randint(1, 90), -x, r.choice(["0", "0.5 0.25"]))).encode()

def cameras(r):
    note("cameras")
    f = os.fsencode(DIR) + b"/cam.krtd"
    cams, want = {}, {}
    for _ in range(r.randint(0, 6)):
        x = r.randint(-500, 500)
        with open(f, "wb") as fh:
            fh.write(krtd(r, x))
        c = Camera.from_krtd_file(f)
        check(isinstance(c, Camera) and c, "camera:class", "")
        t = text("p01_camera_text", c.c_pointer)
        c.write_krtd_file(f + b".out")
        d = Camera.from_krtd_file(f + b".out")
        same(text("p01_camera_text", d.c_pointer), t, "camera:round-trip")
        k = r.choice([0, 1, 5, r.randrange(1 << 31)])
        cams[k] = c
        want[k] = x
        del c, d
        event("cameras")
    m = CameraMap(cams)
    same(m.size(), len(want), "cameras:size")
    expect = b"".join(b"%d:%d " % (k, want[k]) for k in sorted(want))
    same(text("p01_cameras_text", m.c_pointer).replace(b"-0 ", b"0 "), expect, "cameras:content")
    cams.clear()
    settled()
    same(text("p01_cameras_text", m.c_pointer).replace(b"-0 ", b"0 "), expect, "cameras:outlive")
    e = raises(VitalBaseException, Camera.from_krtd_file, f + b".none")
    check(e is not None and b".none" in e.args[0], "camera:missing", repr(e))
    with open(f, "wb") as fh:
        fh.write(b"1 2 three\n")
    e = raises(VitalBaseException, Camera.from_krtd_file, f)
    check(e is not None, "camera:malformed", "")
    for x in (f, f + b".out"):
        if os.path.exists(x):
            os.remove(x)
    sig("cameras", expect)
    del m, e
    settled()
    event("camera rounds")

# -- algorithms ----------------------------------------------------------------
KINDS = [(ConvertImage, b"same"), (ConvertImage, b"copy"), (ImageIo, b"io"), (TrackFeatures, b"tracker")] if not IMPORT_ERROR else []
TYPES = {"ConvertImage": "convert_image", "ImageIo": "image_io", "TrackFeatures": "track_features"}

def algorithms(r):
    note("algorithms")
    alive = _lib.p01_alive()
    cls, impl = r.choice(KINDS)
    impls = sorted(i for c, i in KINDS if c is cls)
    same(cls.type_name(), TYPES[cls.__name__], "algo:type")
    same(sorted(cls.registered_names()), impls, "algo:registered")
    name = r.choice([b"one", b"my_algo", b"x"])
    check(raises(ValueError, cls, b"") is not None, "algo:empty-name", "")
    e = raises(VitalNullPointerException, cls.create, name, r.choice([b"none", b"", impl + b"x"]))
    check(e is not None, "algo:unknown", "an unknown implementation was made")
    blank = cls(name)
    check(not blank and blank.impl_name() is None and blank.name == name, "algo:blank", "")
    # configuration of nothing
    c = blank.get_config()
    same(c.as_dict(), {name + b":type": b""}, "algo:blank-config")
    e = raises(VitalBaseException, blank.clone)
    a = cls.create(name, impl)
    check(a and isinstance(a, cls) and a.name == name, "algo:create", "")
    same(a.impl_name(), impl, "algo:impl-name")
    c = ConfigBlock()
    c.set_value(b"other", b"kept")
    check(a.get_config(c) is c, "algo:config-given", "")
    same(c.as_dict(), {b"other": b"kept", name + b":type": impl, name + b":" + impl + b":setting": b"initial"}, "algo:config")
    same(c.get_description(name + b":" + impl + b":setting"), b"what it does", "algo:config-description")
    # configuring and checking
    note("algorithm configuration")
    v = r.choice([b"good", b"bad", b"word"])
    c.set_value(name + b":" + impl + b":setting", v)
    same(a.check_config(c), v != b"bad", "algo:check", v)
    c.set_value(name + b":type", b"none")
    same(a.check_config(c), False, "algo:check-unknown")
    before = a.get_config().as_dict()
    a.set_config(c)
    check(a and a.impl_name() == impl and a.get_config().as_dict() == before, "algo:configured-by-unknown", "")
    target = r.choice(impls)
    c.set_value(name + b":type", target)
    c.set_value(name + b":" + target + b":setting", v)
    for x in (a, blank):
        x.set_config(c)
        same(x.impl_name(), target, "algo:set-config")
        same(x.get_config().get_value(name + b":" + target + b":setting"), v, "algo:set-config-value")
    c.set_value(name + b":" + target + b":setting", b"explode")
    e = raises(VitalBaseException, a.set_config, c)
    check(e is not None and b"refuses" in e.args[0], "algo:refusal-lost", repr(e))
    # copies
    note("algorithm copies")
    d = a.clone()
    check(d.name == name and d.impl_name() == a.impl_name() and address(d) != address(a), "algo:clone", "")
    same(d.get_config().as_dict(), a.get_config().as_dict(), "algo:clone-config")
    d2 = a.clone(b"other name")
    same(d2.name, b"other name", "algo:clone-name")
    same(a.name, name, "algo:clone-name-kept")
    d2.set_name(b"third")
    check(sorted(d2.get_config().as_dict())[0].startswith(b"third:"), "algo:set-name", "")
    check(raises(ValueError, d2.set_name, b"") is not None and d2.name == b"third", "algo:set-empty-name", "")
    c.set_value(name + b":" + target + b":setting", b"later")
    d.set_config(c)
    check(a.get_config().get_value(name + b":" + target + b":setting") != b"later", "algo:clone-shared", "")
    s = cls.from_c_pointer(a.c_pointer, a)
    check(s.name == name and address(s) == address(a), "algo:shallow", "")
    del a, d, d2, blank, x, e
    settled()
    same(s.impl_name(), target, "algo:parent-kept", "an object made from another one outlived it")
    del s
    settled()
    same(_lib.p01_alive(), alive, "algo:not-freed", "%d implementations are alive, %d were" % (_lib.p01_alive(), alive))
    sig("algo", cls.__name__, impl, target, v, name)
    event("algorithm rounds")

def run_algorithms(r):
    alive = _lib.p01_alive()
    note("running algorithms")
    w, h = r.randint(1, 6), r.randint(1, 6)
    img = Image(w, h)
    data = fill(img, r, w, h, 1)
    want = describe(w, h, 1, lambda x, y, z: data[x, y, z])
    c = ImageContainer(img)
    f = os.fsencode(DIR) + b"/picture"
    with open(f, "wb") as fh:
        fh.write(b"x")
    def configured(cls, impl, setting):
        a = cls(b"a")
        cb = ConfigBlock()
        cb.set_value(b"a:type", impl)
        cb.set_value(b"a:" + impl + b":setting", setting)
        a.set_config(cb)
        return a
    same_ = ConvertImage.create(b"a", b"same")
    o = same_.convert(c)
    check(isinstance(o, ImageContainer) and address(o) == address(c), "run:same", "")
    copy = ConvertImage.create(b"a", b"copy").convert(c)
    check(address(copy) != address(c) and copy.get_image().first_pixel_address() != img.first_pixel_address(), "run:copy", "")
    same(pixels(copy.get_image()), want, "run:copy-pixels")
    del o
    settled()
    same(pixels(c.get_image()), want, "run:container-gone", "a second handle of one container was dropped")
    e = raises(VitalBaseException, configured(ConvertImage, b"same", b"throws").convert, c)
    check(e is not None and b"cannot convert" in e.args[0], "run:convert-error", repr(e))
    note("loading and saving")
    io = ImageIo.create(b"a", b"io")
    io.save(c, f)
    l = io.load(f)
    check(isinstance(l, ImageContainer) and address(l) == address(c), "run:load", "")
    for g in (f + b".none", os.fsencode(DIR)):
        e = raises(VitalBaseException, io.load, g)
        check(e is not None and g in e.args[0], "run:load-refused", repr(e))
    e = raises(VitalBaseException, io.save, c, f + b".none/x")
    check(e is not None, "run:save-refused", "")
    e = raises(VitalBaseException, configured(ImageIo, b"io", b"throws").save, c, f)
    check(e is not None and b"cannot save" in e.args[0], "run:save-error", repr(e))
    note("tracking")
    ts, before = make_tracks(r)
    s = TrackSet(ts)
    tf = TrackFeatures.create(b"a", b"tracker")
    frame = r.choice([0, 7, r.randrange(1 << 20)])
    mask = ImageContainer(Image(w + 3, h)) if r.random() < 0.5 else None
    n = tf.track(s, frame, c, mask) if mask is not None or r.random() < 0.5 else tf.track(s, frame, c)
    same(text("p01_tracks_text", n.c_pointer), before + b"%d/1@%d(%d,%d) " % (1000000 + frame, frame, w, w + 3 if mask is not None else -1), "run:track")
    same(text("p01_tracks_text", s.c_pointer), before, "run:track-input")
    event("masks" if mask is not None else "no masks")
    e = raises(VitalBaseException, configured(TrackFeatures, b"tracker", b"throws").track, s, frame, c)
    check(e is not None and b"cannot track" in e.args[0], "run:track-error", repr(e))
    k = configured(TrackFeatures, b"tracker", b"same").track(s, frame, c)
    check(address(k) == address(s), "run:track-same", "")
    del s, ts
    settled()
    same(text("p01_tracks_text", k.c_pointer), before, "run:track-outlives")
    os.remove(f)
    del k, n, io, l, c, img, copy, same_, tf, mask, e
    del configured
    settled()
    same(_lib.p01_alive(), alive, "run:not-freed", "implementations stay alive")
    sig("run", w, h, frame, before)
    event("algorithm runs")

# -- plugins, errors, library --------------------------------------------------
def plugins(r):
    note("plugins")
    d = os.fsencode(DIR) + b"/plugins"
    os.makedirs(d, exist_ok=True)
    same(AlgorithmPluginManager.registered_module_names(), [], "plugins:names")
    check(raises((RuntimeError, TypeError), AlgorithmPluginManager) is not None, "plugins:instance", "")
    with open(d + b"/junk.so", "wb") as fh:
        fh.write(b"not a library")
    AlgorithmPluginManager.add_search_path(d)
    AlgorithmPluginManager.register_plugins()
    AlgorithmPluginManager.register_plugins(b"junk")
    same(AlgorithmPluginManager.registered_module_names(), [], "plugins:junk")
    shutil.rmtree(d)
    # errors
    note("errors")
    class Own(Exception):
        pass
    code = r.choice([-1, 1, 2, 77, -5])
    eh = VitalErrorHandle()
    same(eh.c_pointer[0].error_code, 0, "error:fresh")
    check(raises(Exception, eh.propagate_exception) is None, "error:nothing", "")
    eh.set_exception_map({code: Own})
    eh.set_exception_map({1000: ValueError})
    set_ = r.choice([code, code + 1000000, 1000])
    eh.c_pointer[0].error_code = set_
    e = raises(Exception, eh.propagate_exception)
    same(type(e), {code: Own, 1000: ValueError}.get(set_, VitalBaseException), "error:class", "code %d" % set_)
    # a Python error inside is not replaced
    try:
        with VitalErrorHandle() as h:
            h.c_pointer[0].error_code = 3
            raise KeyError("inner")
    except KeyError:
        event("errors kept")
    try:
        with VitalErrorHandle() as h:
            h.c_pointer[0].error_code = 3
        fail("error:lost", "a failed call ended well")
    except VitalBaseException:
        event("errors raised")
    del eh, h, e
    settled()
    # references to another object's handle
    note("shallow copies")
    a = Image(3, 2)
    b = Image.from_c_pointer(a.c_pointer, a)
    p = a.first_pixel_address()
    check(isinstance(b, Image) and address(b) == address(a), "shallow:class", "")
    del a
    settled()
    same((b.width(), b.first_pixel_address()), (3, p), "shallow:outlives")
    c = Image.from_c_pointer(b.c_pointer, b)
    del b
    settled()
    same(c.width(), 3, "shallow:chain")
    del c
    settled()
    for cls in (Track, Camera, ConfigBlock):
        check(raises(AssertionError, cls.from_c_pointer, Image().c_pointer) is not None, "shallow:other-class", cls.__name__)
    settled()
    event("plugin rounds")
    sig("plugins", code, set_)

def library(r):
    """the library is found in the build folder, beside the package, or on the search path"""
    note("library search")
    F = sys.modules["vital.util.find_vital_library"]
    top = os.path.join(DIR, "search")
    shutil.rmtree(top, ignore_errors=True)
    keep = (F.__dict__["__LIBRARY_PATH_CACHE__"], F.__dict__["__BUILD_DIR__"], os.environ.get("LD_LIBRARY_PATH"))
    def put(d, name="libvital_c.so"):
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        open(p, "w").close()
        return p
    try:
        where = r.choice(["build", "path", "path-second", "above", "none", "none-unset", "lib64", "versioned"])
        deep = os.path.join(top, "a", "b", "c")
        os.makedirs(deep)
        want = None
        build, path = "", ""
        if where == "build":
            want = put(top + "/bld/lib")
            build = top + "/bld"
        elif where == "path":
            want = put(top + "/p1/lib")
            path = top + "/p1/lib"
        elif where == "path-second":
            os.makedirs(top + "/p1/lib")
            put(top + "/p1/lib", "libother.so")
            want = put(top + "/p2/lib")
            path = top + "/p1/lib:" + top + "/p2/lib"
        elif where == "above":
            want = put(top + "/lib")
            build = deep
        elif where == "lib64":
            want = put(top + "/lib64")
            put(top + "/lib", "libz.so")
            build = deep
        elif where == "versioned":
            want = put(top + "/lib", "libvital_c.so.1.2")
            put(top + "/lib", "libvital_apm.so")
            build = deep
        F.__dict__["__LIBRARY_PATH_CACHE__"] = None
        F.__dict__["__BUILD_DIR__"] = build
        os.environ.pop("LD_LIBRARY_PATH", None)
        if path or where == "none":
            os.environ["LD_LIBRARY_PATH"] = path
        got = []
        e = raises(RuntimeError, lambda: got.append(F._find_vital_library_path()))
        if want:
            same(got, [want], "library:found", where)
            F.__dict__["__BUILD_DIR__"] = ""
            same(F._find_vital_library_path(), want, "library:remembered")
            event("libraries found")
        else:
            check(e is not None, "library:nothing", "%r for %s" % (got, where))
            event("libraries missing")
        if where == "path":
            F.__dict__["__BUILD_DIR__"] = build
            other = put(top + "/p1/lib", "libfancy.so")
            same(F.find_library_path("fancy"), other, "library:by-name")
        sig("library", where)
    finally:
        F.__dict__["__LIBRARY_PATH_CACHE__"], F.__dict__["__BUILD_DIR__"] = keep[:2]
        os.environ.pop("LD_LIBRARY_PATH", None)
        shutil.rmtree(top, ignore_errors=True)
    settled()

# -- what a dropped object leaves ------------------------------------------------
try:
    allocated = ctypes.CDLL(None).__getattr__("__sanitizer_get_current_allocated_bytes")
    allocated.restype, allocated.argtypes = ctypes.c_size_t, []
except AttributeError:
    allocated = None

def footprint(r):
    if allocated is None:
        return
    f = os.fsencode(DIR) + b"/foot"
    with open(f, "wb") as fh:
        fh.write(krtd(r, 3))
    with open(f + b".bad", "wb") as fh:
        fh.write(b"1 2 three\n")
    with open(f + b".t", "wb") as fh:
        fh.write(b"1 2 3 4 5 6 7 8 9 10\n")
    with open(f + b".c", "wb") as fh:
        fh.write(b"a = 1\nblock b\nc = 2\nendblock\n")
    block, image, cam = ConfigBlock(b"name"), Image(9, 7, 3, True), Camera.from_krtd_file(f)
    long = b"x" * 300
    block.set_value(b"a:b", b"1" * 100, b"why" * 50)
    block.set_value(b"a:c", b"", b"")
    block.set_value(b"t", b"yes")
    other = ConfigBlock()
    other.set_value(b"a:b", b"2")
    algo = ConvertImage.create(b"one", b"same")
    tracks_ = [Track(), Track()]
    def missing():
        try:
            block.get_value_bool(b"none")
        except VitalBaseException:
            pass
    def attempt(fn, *a):
        def run():
            try:
                fn(*a)
            except (VitalBaseException, RuntimeError):
                pass
        return run
    things = {
        "block": lambda: ConfigBlock(long), "empty block": lambda: ConfigBlock(), "view": lambda: block.subblock_view(b"a" + long), "copy": lambda: block.subblock(b"a"),
        "view of view": lambda: block.subblock_view(b"a").subblock_view(b"b"), "name": lambda: block.name, "value": lambda: block.get_value(b"a:b"), "empty value": lambda: block.get_value(b"a:c"),
        "no value": lambda: block.get_value(b"none", b"x"), "truth": lambda: block.get_value_bool(b"t"), "truth given": lambda: block.get_value_bool(b"none", True), "no truth": missing,
        "description": lambda: block.get_description(b"a:b"), "empty description": lambda: block.get_description(b"a:c"), "no description": lambda: block.get_description(b"none"),
        "keys": lambda: block.available_keys(), "dict": lambda: block.as_dict(), "merge": lambda: block.merge_config(other), "set": lambda: block.set_value(b"a:b", b"1", long),
        "unset": lambda: (block.set_value(b"u", long), block.unset_value(b"u")), "text": lambda: block.as_string(), "config file": lambda: ConfigBlock.from_file(f + b".c"),
        "no config file": attempt(ConfigBlock.from_file, f + b".none"), "write": lambda: block.write(f + b".w"), "no write": attempt(block.write, f + b"/x/y"),
        "image": lambda: Image(9, 7, 3), "no image": lambda: Image(), "shared image": lambda: Image.from_image(image), "picture": lambda: Image.from_pil(Pil("L", (3, 5), bytes(15))), "picture back": lambda: image.get_pil_image(),
        "container": lambda: ImageContainer(image), "image of container": lambda: ImageContainer(image).get_image(),
        "track": lambda: Track(), "set": lambda: TrackSet(tracks_), "no tracks": lambda: TrackSet(), "track file": lambda: TrackSet.from_file(f + b".t"), "no track file": attempt(TrackSet.from_file, f + b".none"),
        "camera": lambda: Camera.from_krtd_file(f), "malformed camera": attempt(Camera.from_krtd_file, f + b".bad"), "camera out": lambda: cam.write_krtd_file(f + b".w"), "map": lambda: CameraMap({1: cam, 7: cam}), "no map": lambda: CameraMap({}),
        "algorithm": lambda: ConvertImage.create(b"one", b"same"), "no algorithm": attempt(ConvertImage.create, b"one", b"none"), "blank algorithm": lambda: ConvertImage(b"one"), "clone": lambda: algo.clone(b"two"),
        "algorithm config": lambda: algo.get_config(), "given config": lambda: algo.set_config(algo.get_config()), "checked config": lambda: algo.check_config(algo.get_config()), "implementation": lambda: algo.impl_name(), "implementations": lambda: ConvertImage.registered_names(),
    }
    for name in r.sample(sorted(things), 6):
        note("footprint " + name)
        make = things[name]
        reps = 400
        for _ in range(3):
            make()
        grown = []
        for _ in range(4):
            settled()
            before = allocated()
            for _ in range(reps):
                make()
            settled()
            grown.append(allocated() - before)
            if grown[-1] < reps * 8:
                break
        check(min(grown) < reps * 8, "footprint:" + name, "%d times %s leaves %s more bytes" % (reps, name, grown))
        event("dropped objects leave nothing", 1)
    for x in (f, f + b".bad", f + b".t", f + b".c", f + b".w"):
        if os.path.exists(x):
            os.remove(x)
    sig("footprint", r.random())
    del block, image, cam, algo, tracks_, other, things, make
    settled()

ROUNDS = [config, config, config, config_files, images, tracks, cameras, algorithms, run_algorithms, plugins, library, footprint]

for i in CASES:
    S.case = i
    CUR.seek(0)
    CUR.write(struct.pack("<QQ", i, 1) + b"\0")
    CUR.flush()
    S.note = ""
    rng = random.Random("%s/%d" % (ARGS["--seed"], i))
    try:
        if IMPORT_ERROR:
            fail("import", IMPORT_ERROR)
        ROUNDS[i % len(ROUNDS)](rng)
    except Fail:
        pass
    except Exception as e:
        import traceback
        S.violations.append({"key": "unexpected-exception:" + type(e).__name__, "case": i, "detail": traceback.format_exc()[-2500:] + " | phase: " + S.note})
    del unraisable[:]
    S.evaluations += 1
    if len(S.violations) > 60 or IMPORT_ERROR:
        break

with open(ARGS["--out"] + ".tmp", "w") as f:
    json.dump(dict(complete=True, evaluations=S.evaluations, skipped=0, events=S.events, samples=S.samples, violations=S.violations, sigs=sorted(S.sigs)), f)
os.rename(ARGS["--out"] + ".tmp", ARGS["--out"])
sys.stdout.flush()
os._exit(0)
