"""Stub `numpy` on symbolic arrays (trusted contracts of the numpy API)."""
import types, builtins, copy as _copy, math
from fractions import Fraction
import z3
from . import raw as R, norm as N, core as C, arr as A
from . import torch_impl as TI
from .arr import Arr, mk, asarr, MaskSel
from .core import S, wrap, unwrap, cur
from .raw import Unsupported

newaxis = None
class npdt(str):
    def __call__(self, v=0):
        d = str.__str__(self)
        if d == "uint8": return to_uint8(v)
        if isinstance(v, Arr): return asarr("numpy", v, d)
        if isinstance(v, (list, tuple)): return asarr("numpy", v, d)
        return wrap(A.cast(unwrap(v), d))
    @property
    def name(self): return str.__str__(self)
def to_uint8(v):
    """truncation of reals; a value outside [0, 256) has no defined conversion, so its absence is an obligation"""
    v = v if isinstance(v, Arr) else asarr("numpy", v)
    r, c = v.reader(), cur()
    saved = list(c.assumed), c._cache
    c._cache = dict(c._cache)
    try:
        idx = []
        for d in v._shape:
            if not R.is_sym(d) and d == 1: idx.append(0); continue
            i = R.fresh_int("u8"); c.assume(i >= 0); c.assume(R.lt(i, d)); idx.append(i)
        t = r(tuple(idx))
        for f in A.extremum_facts(t, tuple(i for i in idx if R.is_sym(i))): c.assume(f)
        c.prove(R.and_(R.ge(t, 0), R.lt(t, 256)), "conversion to uint8: the value lies in [0, 256)")
    finally: c.assumed, c._cache = saved
    return mk("numpy", v._shape, lambda i: R.to_int_exact(R.trunc(r(i))) if v.kd == 'r' else r(i), "uint8") if v._shape else wrap(R.trunc(r(())))
float64, float32, float16 = npdt("float64"), npdt("float32"), npdt("float16")
int64, int32, int16, int8, uint8, bool_ = npdt("int64"), npdt("int32"), npdt("int16"), npdt("int8"), npdt("uint8"), npdt("bool")
float_, int_ = float64, int64
_D = {str.__str__(x): x for x in (float64, float32, float16, int64, int32, int16, int8, uint8, bool_)}
def dts(d):
    if d is None: return None
    if d is builtins.float or d == "float": return "float64"
    if d is builtins.int or d == "int": return "int64"
    if d is builtins.bool: return "bool"
    nm = getattr(d, "__vc_type__", None)
    if nm: return {"float": "float64", "int": "int64", "bool": "bool"}[nm]
    if isinstance(d, str) and str.__str__(d) in _D: return str.__str__(d)
    raise Unsupported(f"numpy dtype {d!r}")

class ndarray(Arr):
    lib = "numpy"
    @property
    def shape(self): return tuple(wrap(d) for d in self._shape)
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self): return wrap(self.numel_r())
    @property
    def dtype(self): return _D[self.st.dtype]
    @property
    def T(self): return A.transpose(self, tuple(reversed(range(len(self._shape)))))
    def item(self, *a): 
        if a: return self[a if len(a) > 1 else a[0]]
        return wrap(self.__vc_scalar__())
    def tolist(self):
        if not self._shape: return self.item()
        return [x.tolist() if isinstance(x, Arr) else x for x in self]
    def copy(self, *a): return asarr("numpy", self)
    def __deepcopy__(self, memo): v = self.copy(); memo[id(self)] = v; return v
    def __copy__(self): return self.copy()
    def astype(self, d, copy=True): return asarr("numpy", self, dts(d))
    def reshape(self, *sh, order="C"):
        if order != "C": raise Unsupported("order")
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = sh[0]
        ob = self.st
        if ob.dtype == "object": return self
        return A.reshape(self, sh)
    def ravel(self, *a): return A.reshape(self, (-1,))
    def flatten(self, *a): return A.reshape(self.copy(), (-1,))
    def squeeze(self, axis=None): return A.squeeze(self, axis)
    def transpose(self, *p):
        if not p: return self.T
        return A.transpose(self, p[0] if len(p) == 1 and isinstance(p[0], (tuple, list)) else p)
    def swapaxes(self, a, b):
        p = list(range(len(self._shape))); p[a], p[b] = p[b], p[a]; return A.transpose(self, p)
    def sum(self, axis=None, keepdims=False, dtype=None, **k): return A.arr_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return A.arr_mean(self, axis, keepdims)
    def std(self, axis=None, keepdims=False, ddof=0, **k): return A.arr_var(self, axis, keepdims, ddof, True)
    def var(self, axis=None, keepdims=False, ddof=0, **k): return A.arr_var(self, axis, keepdims, ddof)
    def min(self, axis=None, keepdims=False, **k): return A.arr_min(self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return A.arr_max(self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **k): return A.arr_all(self, axis, keepdims)
    def any(self, axis=None, keepdims=False, **k): return A.arr_any(self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return A.arr_prod(self, axis, keepdims)
    def clip(self, min=None, max=None, **k): return clip(self, min, max)
    def fill(self, v): self.write_(v)
    def dot(self, o): return A.matmul(self, o)
    def argsort(self, *a, **k): return argsort(self, *a, **k)
    def argmax(self, *a, **k): return argmax(self, *a, **k)
    def argmin(self, *a, **k): return argmin(self, *a, **k)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported(f"ndarray.{n}")
A.register("numpy", ndarray)

class ObjArr:
    """0-d object array produced by np.load of a pickled object"""
    def __init__(self, o): self.o = o
    def reshape(self, *a): return [self.o] if a in ((1,), (-1,)) else self
    def item(self): return self.o
    def tolist(self): return self.o
    def __getitem__(self, k):
        if k == (): return self.o
        raise IndexError("too many indices for array")
    def flatten(self): return [self.o]
    ravel = flatten

def P(x): return x if isinstance(x, Arr) and x.lib == "numpy" else (asarr("numpy", x) if not isinstance(x, Arr) else asarr("numpy", x))
def array(v, dtype=None, copy=True, **k):
    d = dts(dtype)
    if isinstance(v, dict): return ObjArr(v)
    q = getattr(v, "__vc_permindex__", None)
    t = asarr("numpy", v, d)
    if d is None and not isinstance(v, Arr) and t.kd == 'r' and t.st.dtype == "float32" and not _has_f32(v): t = asarr("numpy", t, "float64")
    return t
def _has_f32(v): return True
def asarray(v, dtype=None, **k):
    if isinstance(v, ndarray) and (dtype is None or dts(dtype) == v.st.dtype): return v
    return array(v, dtype)
def zeros(sh, dtype=None, **k): d = dts(dtype) or "float64"; return A.const("numpy", A.dims(sh), A.cast(0, d), d)
def ones(sh, dtype=None, **k): d = dts(dtype) or "float64"; return A.const("numpy", A.dims(sh), A.cast(1, d), d)
def full(sh, v, dtype=None, **k):
    r = unwrap(v); d = dts(dtype) or ("float64" if R.kind(r) == 'r' else "int64"); return A.const("numpy", A.dims(sh), A.cast(r, d), d)
def empty(sh, dtype=None): 
    s = A.dims(sh); return mk("numpy", s, TI.draw("memory", "garbage", s), dts(dtype) or "float64")
def _like(v):
    def g(x, dtype=None, **k):
        x2 = x if isinstance(x, Arr) else asarr("numpy", x)
        d = dts(dtype) or x2.st.dtype
        return A.const("numpy", x2._shape, A.cast(v, d), d)
    return g
zeros_like, ones_like = _like(0), _like(1)
def full_like(x, v, dtype=None, **k):
    x = P(x); d = dts(dtype) or x.st.dtype; return A.const("numpy", x._shape, A.cast(unwrap(v), d), d)
def arange(*a, dtype=None, step=None, **k):
    st, sp, sd = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    if step is not None: sd = step
    n, f = TI.arange_raw(st, sp, sd)
    d = dts(dtype) or ("float64" if 'r' in [R.kind(unwrap(x)) for x in (st, sp, sd)] else "int64")
    return mk("numpy", (n,), lambda i: A.cast(f(i), d), d)
def linspace(a, b, num=50, endpoint=True, **k):
    a, b, n = R.to_real(unwrap(a)), R.to_real(unwrap(b)), unwrap(num)
    m = R.sub(n, 1) if endpoint else n
    return mk("numpy", (n,), lambda i: R.add(a, R.mul(R.to_real(i[0]), R.div(R.sub(b, a), m))), "float64")
def meshgrid(*ts, indexing="xy", **k): return TI.mesh("numpy", ts, indexing)
def indices(sh):
    sh = A.dims(sh); return [mk("numpy", sh, (lambda k: lambda i: i[k])(k), "int64") for k in range(len(sh))]
class _Grid:
    def __getitem__(self, s): raise Unsupported("mgrid")
mgrid = ogrid = _Grid()
def eye(n, **k): n = unwrap(n); return mk("numpy", (n, n), lambda i: R.ite(R.eq(i[0], i[1]), Fraction(1), Fraction(0)), "float64")
identity = eye
def diag(x):
    x = P(x); r = x.reader()
    if len(x._shape) == 1:
        n = x._shape[0]; return mk("numpy", (n, n), lambda i: R.ite(R.eq(i[0], i[1]), r((i[0],)), A.cast(0, x.st.dtype)), x.st.dtype)
    return mk("numpy", (x._shape[0],), lambda i: r((i[0], i[0])), x.st.dtype)

def un(f, fl=True):
    def g(x, *a, out=None, **k):
        if isinstance(x, Arr):
            if out is not None: raise Unsupported("out=")
            y = x.map(f, ("float64" if x.kd != 'r' else None) if fl else None)
            return y if y._shape or x.lib == "torch" else A.wrap_np_scalar(y.at(), y.st.dtype)
        if isinstance(x, (list, tuple)): return g(asarr("numpy", x))
        if isinstance(x, MaskSel): raise Unsupported("ufunc on masked selection")
        r = unwrap(x)
        if r is None: raise Unsupported("ufunc argument")
        return wrap(f(R.to_real(r) if fl else r))
    return g
exp, log, sqrt, sin, cos, tanh = un(R.exp_), un(R.log_), un(R.sqrt_), un(R.sin_), un(R.cos_), un(R.tanh_)
LN2 = z3.Real("ln2")
log2 = un(lambda r: R.div(R.log_(r), R.log_(Fraction(2))))
log10 = un(lambda r: R.div(R.log_(r), R.log_(Fraction(10))))
log1p = un(lambda r: R.log_(R.add(1, r)))
abs = absolute = fabs = un(R.abs_, False)
square = un(lambda r: R.mul(r, r), False)
negative = un(R.neg, False)
floor = un(lambda r: R.to_real(R.floor_(r))); ceil = un(lambda r: R.to_real(R.ceil_(r)))
trunc = fix = un(lambda r: R.to_real(R.trunc(r)))
sign = un(lambda r: R.ite(R.gt(r, 0), 1, R.ite(R.lt(r, 0), -1, 0)), False)
reciprocal = un(lambda r: R.div(1, r))
logical_not = un(lambda r: R.not_(R.truth(r)), False)
def isnan(x): return P(x).map(lambda r: False, "bool")
isinf = isnan
def isfinite(x): return P(x).map(lambda r: True, "bool")
def round(x, *a): raise Unsupported("np.round")
rint = around = round
def bi(f, bool_=False, fl=False):
    def g(a, b, **k):
        x = a if isinstance(a, Arr) else asarr("numpy", a)
        return A.binop(x, b, f, False, bool_, fl)
    return g
add, subtract, multiply, maximum, minimum, power, mod, remainder = map(bi, (R.add, R.sub, R.mul, R.mx, R.mn, R.pow_, R.imod, R.imod))
divide = true_divide = bi(R.div, fl=True); floor_divide = bi(R.idiv)
greater, greater_equal, less, less_equal, equal, not_equal = (bi(f, True) for f in (R.gt, R.ge, R.lt, R.le, R.eq, R.ne))
logical_and = bi(lambda a, b: R.and_(R.truth(a), R.truth(b)), True); logical_or = bi(lambda a, b: R.or_(R.truth(a), R.truth(b)), True)
hypot = bi(lambda a, b: R.sqrt_(R.add(R.mul(R.to_real(a), R.to_real(a)), R.mul(R.to_real(b), R.to_real(b)))))
def clip(x, a_min=None, a_max=None, **k):
    isarr = isinstance(x, Arr)
    y = x if isarr else asarr("numpy", x)
    if a_min is not None: y = A.binop(y, a_min, R.mx) if isinstance(y, Arr) else wrap(R.mx(unwrap(y), unwrap(a_min)))
    if a_max is not None: y = A.binop(y, a_max, R.mn) if isinstance(y, Arr) else wrap(R.mn(unwrap(y), unwrap(a_max)))
    return y
def where(c, *ab):
    if not ab: raise Unsupported("np.where(cond)")
    a, b = ab
    c = P(c); a2, b2 = (x if isinstance(x, Arr) else asarr("numpy", x) for x in (a, b))
    sh = A.bshape(c._shape, a2._shape, b2._shape)
    rc, ra, rb = (A.breader(t.reader(), t._shape, sh) for t in (c, a2, b2))
    dt = A.promote(a2, b2, "numpy")
    if sh == (): return wrap(A.cast(R.ite(R.truth(rc(())), ra(()), rb(())), dt))
    return mk("numpy", sh, lambda i: A.cast(R.ite(R.truth(rc(i)), ra(i), rb(i)), dt), dt)
def _red(f):
    def g(x, axis=None, keepdims=False, **k):
        x = x if isinstance(x, Arr) else asarr("numpy", x)
        return f(x, axis, keepdims)
    return g
sum, mean, min, max, all, any, prod = map(_red, (A.arr_sum, A.arr_mean, A.arr_min, A.arr_max, A.arr_all, A.arr_any, A.arr_prod))
amin, amax, average = min, max, mean
def std(x, axis=None, ddof=0, keepdims=False, **k): return A.arr_var(P(x), axis, keepdims, ddof, True)
def var(x, axis=None, ddof=0, keepdims=False, **k): return A.arr_var(P(x), axis, keepdims, ddof)
def count_nonzero(x, axis=None): return A.arr_sum(P(x) != 0, axis)
def append(a, v, axis=None):
    if axis is None:
        a, v = ravel(a), ravel(v)
        return A.cat("numpy", [_f(a), _f(v)], 0)
    return A.cat("numpy", [P(a), P(v)], axis)
def _f(a): return a
def concatenate(ts, axis=0, **k):
    q = getattr(ts, "__vc_symseq__", None)
    if q is not None and q() is not None: return A.cat_list("numpy", ts, axis)
    if axis is None: return A.cat("numpy", [ravel(t) for t in ts], 0)
    return A.cat("numpy", [P(t) for t in ts], axis)
def hstack(ts): 
    ts = [P(t) for t in ts]
    return A.cat("numpy", [A.reshape(t, (1,)) if not t._shape else t for t in ts], 0 if len(ts[0]._shape) <= 1 else 1)
def vstack(ts): return A.cat("numpy", [A.unsqueeze(P(t), 0) if len(P(t)._shape) == 1 else P(t) for t in ts], 0)
def stack(ts, axis=0):
    q = getattr(ts, "__vc_symseq__", None)
    if q is not None and q() is not None:
        t = asarr("numpy", ts)
        if axis == 0: return t
        p = list(range(1, len(t._shape))); p.insert(axis % len(t._shape), 0); return A.transpose(t, p)
    return A.stack("numpy", [P(t) for t in ts], axis)
def ravel(x): return A.reshape(P(x), (-1,))
def reshape(x, sh): return A.reshape(P(x), sh if isinstance(sh, (tuple, list)) else (sh,))
def squeeze(x, axis=None): return A.squeeze(P(x), axis)
def expand_dims(x, axis): return A.unsqueeze(P(x), axis)
def transpose(x, axes=None): return A.transpose(P(x), axes if axes is not None else tuple(reversed(range(len(P(x)._shape)))))
def swapaxes(x, a, b): return P(x).swapaxes(a, b)
def moveaxis(x, a, b):
    n = len(x._shape); p = [i for i in range(n) if i != a % n]; p.insert(b % n, a % n); return A.transpose(x, p)
def flip(x, axis=None): return A.flip(P(x), list(range(len(P(x)._shape))) if axis is None else axis)
def fliplr(x): return A.flip(P(x), 1)
def flipud(x): return A.flip(P(x), 0)
def roll(x, shift, axis=None):
    x = P(x)
    if axis is None: raise Unsupported("np.roll without axis")
    return A.roll(x, shift, axis)
def tile(x, reps): return TI.tile(P(x), reps if isinstance(reps, (tuple, list)) else (reps,))
def repeat(x, n, axis=None): raise Unsupported("np.repeat")
def pad(x, pad_width, mode="constant", constant_values=0, **k):
    w = pad_width
    x = P(x); n = len(x._shape)
    if isinstance(w, (int, S)): w = [(w, w)] * n
    elif isinstance(w[0], (int, S)): w = [tuple(w)] * n
    m = {"constant": "constant", "wrap": "circular", "edge": "edge"}.get(mode)
    if m is None: raise Unsupported(f"pad {mode}")
    return A.pad(x, [(unwrap(a), unwrap(b)) for a, b in w], m, constant_values)
def matmul(a, b): return A.matmul(P(a), P(b))
dot = matmul
def outer(a, b): return A.unsqueeze(ravel(a), 1) * A.unsqueeze(ravel(b), 0)
def isclose(*a, **k): raise Unsupported("np.isclose")
def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    return wrap(unwrap(A.arr_all(abs(P(a) - P(b)) <= atol + rtol * abs(P(b)))))
def array_equal(a, b): 
    a, b = P(a), P(b)
    if len(a._shape) != len(b._shape): return False
    if not builtins.all(A.dim_eq(x, y) for x, y in zip(a._shape, b._shape)): return False
    return wrap(unwrap(A.arr_all(a == b)))
def copy(x): return P(x).copy()
def ndim(x): return len(P(x)._shape)
def shape(x): return P(x).shape
def size(x): return P(x).size
def isscalar(x): return unwrap(x) is not None and not isinstance(x, Arr)
def unique(*a, **k): raise Unsupported("np.unique")
def _keyed(name, x, nidx):
    """function name!<contents>(free constants of the contents, indices): equal contents give equal values, nothing else is known"""
    import hashlib
    r = x.reader()
    iv = tuple(z3.Int(f"ident!{k}") for k in range(len(x._shape)))
    t = r(iv)
    try: t = cur().P.NM.canon(R.z(t))
    except Unsupported: t = R.z(t)
    free, seen, st = {}, set(), [t] + [R.z(d) for d in x._shape]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_quantifier(y): st.append(y.body()); continue
        if z3.is_app(y):
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = y.decl().name()
                if y.num_args() == 0 and not n.startswith("ident!"): free[n] = y
                elif C.JOURNALS and n.split("!")[0] in ("ha", "hs"): raise Unsupported(f"{name} of values changed by the loop")
            st.extend(y.children())
    ks = [free[k] for k in builtins.sorted(free)]
    key = hashlib.md5(z3.substitute(t, *[(c, z3.Const(f"arg!{i}", c.sort())) for i, c in enumerate(ks)]).sexpr().encode()).hexdigest()[:16] if ks else hashlib.md5(t.sexpr().encode()).hexdigest()[:16]
    f = z3.Function(f"{name}!{key}", *[c.sort() for c in ks], *([R.INT] * nidx), R.INT)
    g = lambda *i: f(*ks, *[R.z(q) for q in i])
    g.decl, g.nk = f, len(ks)
    return g
def argsort_parts(x):
    """rank -> index, index -> rank"""
    f, g = _keyed("argsort", x, 1), _keyed("argrank", x, 1)
    n, k = x._shape[0], f.nk
    if f.decl.name() not in C.FACT_DECLS:
        # a permutation of the indices (n may be any term over the same constants, so it is taken from the application's own array)
        consts = [f(0).arg(i) for i in range(k)]
        def sub(t, app): return R.val(z3.substitute(R.z(t), *zip(consts, [app.arg(i) for i in range(k)]))) if consts else t
        def ff(t):
            i, nn = t.arg(k), sub(n, t)
            return [R.implies(R.and_(R.ge(i, 0), R.lt(i, nn)), R.and_(R.ge(t, 0), R.lt(t, nn), R.eq(g.decl(*[t.arg(q) for q in range(k)], t), i)))]
        C.FACT_DECLS[f.decl.name()] = ff
    return f, g
def argsort(x, axis=-1, kind=None, **k):
    x = P(x)
    if len(x._shape) != 1 or k: raise Unsupported("argsort")
    f, g = argsort_parts(x)
    return mk("numpy", x._shape, lambda i: f(i[0]), "int64")
ARGMAX = {}
def argmax_parts(app):
    """length and contents of the array an argmax was taken of"""
    consts, n, xr = ARGMAX[app.decl().name()]
    sub = lambda t: R.val(z3.substitute(R.z(t), *zip(consts, [app.arg(i) for i in range(len(consts))]))) if consts else t
    iv = z3.Int("ident!0"); t = xr(iv)
    return sub(n), lambda i: R.val(z3.substitute(R.z(sub(t)), (iv, R.z(i))))
def argmax(x, axis=None, **k):
    x = P(x)
    if len(x._shape) != 1 or k: raise Unsupported("argmax")
    f = _keyed("argmax", x, 0); n = x._shape[0]
    if f.nk == 0 and not R.is_sym(n) and n < 1: raise ValueError("attempt to get argmax of an empty sequence")
    nm = f.decl.name()
    if nm not in C.FACT_DECLS:
        consts = [f().arg(i) for i in range(f.nk)]
        xr = x.reader()
        ARGMAX[nm] = (consts, n, lambda i: xr((i,)))
        C.FACT_DECLS[nm] = lambda t: [R.and_(R.ge(t, 0), R.lt(t, R.val(z3.substitute(R.z(n), *zip(consts, [t.arg(i) for i in range(f.nk)]))) if consts else n))]
    return wrap(f())
def argmin(*a, **k): raise Unsupported("np.argmin")
def _counts8(x, L):
    """the number of cells of each value 0..L-1 of an 8-bit array"""
    x = P(x); x = x.__dict__.get("flat_of", x)
    if x.st.dtype != "uint8": raise Unsupported("counting values outside 8 bits")
    n = len(x._shape)
    q = A.unsqueeze(x, 0)
    k = A.reshape(arange(L), (L,) + (1,) * n)
    return A.arr_sum(q == k, tuple(range(1, n + 1)))
def bincount(x, weights=None, minlength=0):
    L = unwrap(minlength)
    if weights is not None or R.is_sym(L) or L < 256: raise Unsupported("np.bincount of an unknown number of values")
    return _counts8(x, L)
def histogram(a, bins=10, range=None, **k):
    b = unwrap(bins) if not isinstance(bins, Arr) else None
    if k or b != 256 or range is None or unwrap(range[0]) != 0 or unwrap(range[1]) not in (255, 256): raise Unsupported("np.histogram")
    return _counts8(a, 256), None
def atleast_1d(x): x = P(x); return x if x._shape else A.reshape(x, (1,))
def column_stack(ts): return A.cat("numpy", [A.unsqueeze(P(t), 1) if len(P(t)._shape) == 1 else P(t) for t in ts], 1)
def empty_like(x, dtype=None): return empty(P(x)._shape, dtype or P(x).dtype)
def median(*a, **k): raise Unsupported("np.median")
def sort(*a, **k): raise Unsupported("np.sort")
def nonzero(*a, **k): raise Unsupported("np.nonzero")
class errstate:
    def __init__(self, **k): pass
    def __enter__(self): pass
    def __exit__(self, *a): pass
def seterr(**k): pass
def set_printoptions(**k): pass

# ---- file system: ghost map path -> object --------------------------------
def fs():
    return cur().ghost.setdefault("fs", {})
def save(path, obj, allow_pickle=True):
    if not isinstance(path, str): raise Unsupported("np.save path")
    if not path.endswith(".npy"): path = path + ".npy"
    fs()[path] = _copy.deepcopy(obj)
def load(path, allow_pickle=False, **k):
    f = fs()
    if path not in f: raise FileNotFoundError(path)
    o = _copy.deepcopy(f[path])
    if isinstance(o, Arr): return asarr("numpy", o)
    if not allow_pickle: raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
    return ObjArr(o)

# ---- random ---------------------------------------------------------------
class _Rand:
    def _draw(self, dist, sh):
        if sh == ():
            f = TI.draw("numpyrng", dist, ())
            r = f(())
            return wrap(r)
        return mk("numpy", sh, TI.draw("numpyrng", dist, sh), "float64")
    def seed(self, s=None):
        g = TI.rng("numpyrng")
        for j in C.JOURNALS: j.note_rng(g)
        if s is None: g.state = R.fresh_int("entropy"); return
        g.state = z3.Function("numpyrng_seed", R.INT, R.INT)(R.z(R.to_int_exact(unwrap(s))))
    def rand(self, *sh): return self._draw("uniform", A.dims(sh))
    def random(self, size=None): return self._draw("uniform", A.dims(() if size is None else size))
    random_sample = sample = ranf = random
    def randn(self, *sh): return self._draw("normal", A.dims(sh))
    def standard_normal(self, size=None): return self._draw("normal", A.dims(() if size is None else size))
    def uniform(self, low=0, high=1, size=None):
        u = self._draw("uniform", A.dims(() if size is None else size)); return low + (high - low) * u
    def normal(self, loc=0, scale=1, size=None):
        return loc + scale * self._draw("normal", A.dims(() if size is None else size))
    def randint(self, low, high=None, size=None, **k):
        if high is None: low, high = 0, low
        sh = A.dims(() if size is None else size)
        s = TI.rng("numpyrng").advance(A.prod(sh) if sh else 1)
        f = z3.Function(f"numpyrng_randint_{len(sh)}", R.INT, *([R.INT] * len(sh)), R.INT)
        lo, hi = unwrap(low), unwrap(high)
        c = cur()
        def fn(idx):
            t = f(s, *[R.z(i) for i in idx])
            v = R.add(lo, R.imod(t, R.sub(hi, lo)))
            return v
        if not sh: 
            return wrap(fn(()))
        return mk("numpy", sh, fn, "int64")
    def multivariate_normal(self, mean, cov, size=None, **k):
        m = P(mean)
        f = getattr(C.Ctx.cur, "mvn_contract", None)
        if f is not None and size is None: return f(m, P(cov))
        s = TI.rng("numpyrng").advance(1)
        f = z3.Function("numpyrng_mvn", R.INT, R.INT, R.INT, R.INT, R.REAL)
        mid, cid = ident(m), ident(P(cov))
        if size is not None: raise Unsupported("mvn size")
        return mk("numpy", m._shape, lambda i: f(s, mid, cid, R.z(i[0])), "float64")
    def choice(self, a, size=None, replace=True, p=None):
        f = getattr(C.Ctx.cur, "choice_contract", None)
        if f is not None: return f(a, size, replace, p)
        if replace and p is None:          # uniform draws
            if isinstance(unwrap(a), int) or R.is_sym(unwrap(a)): return self.randint(0, a, size)
            a = array(a)
            return a[self.randint(0, a.shape[0], size)]
        raise Unsupported("np.random.choice")
    def shuffle(self, x): raise Unsupported("np.random.shuffle")
    def permutation(self, x): raise Unsupported("np.random.permutation")
    def default_rng(self, *a): raise Unsupported("np.random.default_rng")
    def RandomState(self, *a): raise Unsupported("np.random.RandomState")
    def __getattr__(self, n): raise Unsupported(f"np.random.{n}")

random = _Rand()

def ident(a):
    """value identity of an array as an integer term (equal contents => equal identity)"""
    return _keyed("arrid", a, 0)()

def build():
    g = globals()
    m = types.ModuleType("numpy")
    skip = {"build", "P", "un", "bi", "fs", "cur", "S", "C", "A", "N", "R", "TI", "Arr", "math", "types", "builtins", "ident", "wrap", "unwrap", "mk", "asarr"}
    for k, v in g.items():
        if not k.startswith("_") and k not in skip: setattr(m, k, v)
    m.bool_, m.abs = bool_, abs
    m.pi = S(R.PI); m.inf = math.inf; m.nan = math.nan
    m.random = random
    m.ndarray = ndarray
    m.linalg = types.SimpleNamespace()
    m.__version__ = "1.22.0"
    m.__getattr__ = lambda name: (_ for _ in ()).throw(AttributeError(name) if name.startswith("__") else Unsupported(f"numpy.{name}"))
    return {"numpy": m, "numpy.random": m.random}
