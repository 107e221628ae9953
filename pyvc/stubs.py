"""Stand-ins for libraries that only plot, time, or talk to the outside world."""
import types, os as _os, builtins
from . import raw as R, core as C
from .core import S, wrap, cur
from .raw import Unsupported

class Dummy:
    """inert object (plotting etc.): every use yields another inert object"""
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Dummy()
    def __call__(self, *a, **k): return Dummy()
    def __getitem__(self, k): return Dummy()
    def __setitem__(self, k, v): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return iter((Dummy(), Dummy()))

def dummy_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else Dummy()
    m.__path__ = []
    return m

def unsup_module(name):
    m = types.ModuleType(name)
    def ga(n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k): raise Unsupported(f"{name}.{n}")
        return f
    m.__getattr__ = ga
    return m

def build_os():
    m = types.ModuleType("os")
    p = types.ModuleType("os.path")
    for n in ("join", "split", "splitext", "basename", "dirname", "abspath", "realpath", "normpath", "sep"): setattr(p, n, getattr(_os.path, n))
    def fs(): return cur().ghost.setdefault("fs", {})
    dirs = lambda: cur().ghost.setdefault("dirs", set())
    from . import strs as T
    def has(q):
        f = fs()
        return wrap(f.has(q)) if isinstance(f, T.Files) else q in f
    p.exists = lambda q: has(q) if T.symbolic(q) or isinstance(fs(), T.Files) and q not in dirs() else q in fs() or q in dirs()
    p.isfile = has
    def split(q):
        if not T.symbolic(q): return _os.path.split(q)
        c = T.cut(q, "/", True)
        if c is None: return "", q
        return (c[0] if c[0] != "" else "/"), c[1]
    def splitext(q):
        if not T.symbolic(q): return _os.path.splitext(q)
        d, b = split(q)
        c = T.cut(b, ".", True)
        if c is None: return q, ""
        h = c[0]
        if h == "" or (type(h) is str and not h.strip(".")): return q, ""
        if T.symbolic(h) and not any(isinstance(x, str) and x.strip(".") or not isinstance(x, str) and x.decl().name().startswith("fmt_") for x in T.pieces(h)):
            import z3
            if cur().branch(z3.InRe(T.term(h), z3.Star(z3.Re(".")))): return q, ""      # nothing but dots in front: a hidden file, not an extension
        return (_os.path.join(d, h) if d != "" else h), T.retag("." + c[1])
    p.split, p.splitext = split, splitext
    p.basename, p.dirname = lambda q: split(q)[1], lambda q: split(q)[0]
    p.isdir = lambda q: not T.symbolic(q) and q in dirs()
    m.path, m.sep = p, "/"
    m.getcwd = lambda: "/ghost"
    def mk(q, *a, **k): dirs().add(q)
    m.mkdir = m.makedirs = mk
    def listdir(q):
        q = q.rstrip("/") + "/"
        from .seq import VList
        if isinstance(fs(), T.Files): return VList(fs().listing(q))
        return VList(sorted({f[len(q):].split("/")[0] for f in fs() if f.startswith(q)}))
    m.listdir = listdir
    def remove(q):
        if q not in fs(): raise FileNotFoundError(q)
        del fs()[q]
    m.remove = m.unlink = remove
    def system(*a): raise Unsupported("os.system")
    m.system = m.popen = system
    m.environ = {}
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else Unsupported(f"os.{n}"))
    return m

def build_time():
    m = types.ModuleType("time")
    def t():
        if C.Ctx.cur is None: return S(__import__("fractions").Fraction(0))
        return wrap(R.fresh_real("clock"))
    m.time = m.perf_counter = m.monotonic = t
    m.sleep = lambda *a: None
    m.strftime = lambda *a: "time"
    return m

class Pickler: pass
def build():
    """names redirected on import inside yuca modules"""
    d = {"os": build_os(), "time": build_time(), "subprocess": unsup_module("subprocess"), "random": unsup_module("random")}
    d["os.path"] = d["os"].path
    for n in ("matplotlib", "matplotlib.pyplot", "skimage", "skimage.io", "skimage.transform", "PIL", "PIL.Image"):
        d[n] = dummy_module(n)
    d["matplotlib"].pyplot = d["matplotlib.pyplot"]
    d["skimage"].io = d["skimage.io"]; d["skimage"].transform = d["skimage.transform"]
    mp = types.ModuleType("mpi4py"); mp.MPI = types.SimpleNamespace(COMM_WORLD=Dummy())
    d["mpi4py"] = mp
    return d
