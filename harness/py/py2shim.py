"""Runs the Python 2 sources of vital/bindings/python under Python 3.

Byte strings take the place of Python 2's str everywhere; the sources are read from the
tree and only what Python 3 spells differently is replaced, token by token:
print statements, xrange, iteritems and the like, str(), unicode, metaclasses and the
buffer call of the C interface.
"""
import ctypes, functools, importlib.abc, importlib.util, io, os, re, sys, tokenize

class _StrType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, str))
    def __call__(cls, x=b""):
        if isinstance(x, (bytes, bytearray)):
            return bytes(x)
        return str(x).encode("utf-8")

class py2str(metaclass=_StrType):
    """str, unicode and basestring of Python 2"""
    join = staticmethod(bytes.join)

BUILTINS = dict(py2str__=py2str, reduce=functools.reduce, map=lambda *a: list(map(*a)), zip=lambda *a: list(zip(*a)),
                filter=lambda f, x: list(filter(f, x)), unichr=chr)

class _Buffer:
    """PyBuffer_FromReadWriteMemory, gone in Python 3"""
    argtypes = None
    restype = None
    def __call__(self, address, size):
        f = ctypes.pythonapi.PyMemoryView_FromMemory
        f.argtypes = [ctypes.c_void_p, ctypes.c_ssize_t, ctypes.c_int]
        f.restype = ctypes.py_object
        return f(address, size, 0x200)

NAMES = {"xrange": "range", "str": "py2str__", "unicode": "py2str__", "long": "int", "basestring": "py2str__",
         "iteritems": "items", "itervalues": "values", "iterkeys": "keys"}

def convert(src):
    # metaclasses
    lines = src.split("\n")
    for n, l in enumerate(lines):
        m = re.match(r"\s+__metaclass__ *= *(\w+) *$", l)
        if m:
            for k in range(n, -1, -1):
                c = re.match(r"(\s*class +\w+ *)\((.*)\) *:(.*)$", lines[k])
                if c:
                    lines[k] = "%s(%s, metaclass=%s):%s" % (c.group(1), c.group(2), m.group(1), c.group(3))
                    break
        m = re.match(r"(\s*)print +(?!\()(.*)$", l)
        if m and not m.group(2).startswith("="):
            lines[n] = "%sprint(%s)" % m.groups()
        lines[n] = re.sub(r"except +([\w., ()]+?), *(\w+) *:", r"except \1 as \2:", lines[n])
    out = []
    prev = None
    toks = list(tokenize.generate_tokens(io.StringIO("\n".join(lines)).readline))
    for i, t in enumerate(toks):
        s = t.string
        if t.type == tokenize.NAME and s in NAMES:
            attr = prev == "."
            nxt = toks[i + 1].string if i + 1 < len(toks) else ""
            if s in ("iteritems", "itervalues", "iterkeys"):
                s = NAMES[s] if attr else s
            elif not attr and nxt != "=":
                s = NAMES[s]
        out.append((t.type, s))
        prev = t.string
    return tokenize.untokenize(out)

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, build_dir):
        self.root, self.build_dir = root, build_dir
    def _path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        for suffix in (".py", ".py.in"):
            if os.path.exists(p + suffix):
                return p + suffix, False
        return None, False
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "vital":
            return None
        f, pkg = self._path(name)
        if f is None:
            return None
        return importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        f, _ = self._path(module.__name__)
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        if f.endswith(".in"):
            src = src.replace("@VITAL_BUILD_DIRECTORY@", self.build_dir)
        module.__file__ = f
        module.__dict__.update(BUILTINS)
        exec(compile(convert(src), f, "exec"), module.__dict__)

def install(root, build_dir):
    ctypes.pythonapi.PyBuffer_FromReadWriteMemory = _Buffer()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root, build_dir))
