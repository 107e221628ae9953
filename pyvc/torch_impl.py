"""Stub `torch` operating on symbolic tensors (trusted contracts of the torch API)."""
import types, builtins, sys, itertools
from fractions import Fraction
import z3
from . import raw as R, norm as N, core as C, arr as A
from .arr import Arr, mk, asarr, MaskSel
from .core import S, wrap, unwrap, cur
from .raw import Unsupported
from .seq import VList, SymIter, concat as seq_concat

class dtype_(str):
    def __repr__(self): return "torch." + str.__str__(self)
float16 = half = dtype_("float16"); float32 = dtype_("float32"); float64 = double = dtype_("float64")
int64 = long_ = dtype_("int64"); int32 = dtype_("int32"); uint8 = dtype_("uint8"); bool_ = dtype_("bool")
_DT = {str(d): d for d in (float16, float32, float64, int64, int32, uint8, bool_)}
def dts(d):
    if d is None: return None
    if d in (builtins.float, "float"): return "float32"
    if d is builtins.int: return "int64"
    if d is builtins.bool: return "bool"
    s = str.__str__(d) if isinstance(d, str) else None
    if s in _DT: return s
    raise Unsupported(f"dtype {d!r}")

class Size(tuple):
    def _same(self, o):
        if not isinstance(o, tuple) or len(o) != len(self): return False
        return R.and_(*[R.eq(unwrap(a), unwrap(b)) for a, b in zip(self, o)])
    def __eq__(self, o): return wrap(self._same(o))
    def __ne__(self, o): return wrap(R.not_(self._same(o)))
    __hash__ = tuple.__hash__
    def numel(self):
        n = 1
        for d in self: n = n * d
        return n

class device:
    def __init__(self, name="cpu", index=None):
        if isinstance(name, device): name = name.name
        if not isinstance(name, str): raise Unsupported("device")
        self.name = name
        self.type = name.split(":")[0]
        self.index = builtins.int(name.split(":")[1]) if ":" in name else index
    def __repr__(self): return self.name
    def __eq__(self, o): return str(self) == str(o)
    def __hash__(self): return hash(self.name)

class Tensor(Arr):
    lib = "torch"
    def __init__(self, *a, **k):
        if a and isinstance(a[0], A.Storage):
            Arr.__init__(self, *a, **k)
        elif not a:
            Arr.__init__(self, A.Storage((0,), lambda i: Fraction(0), "float32"))
        elif len(a) == 1 and isinstance(a[0], (list, tuple, Arr)):
            t = asarr("torch", a[0], "float32")
            Arr.__init__(self, t.st)
        else:
            sh = A.dims(a)
            f = draw("memory", "garbage", sh)
            Arr.__init__(self, A.Storage(sh, f, "float32"))
        
    requires_grad = False
    grad = None
    is_cuda = False
    is_leaf = True
    @property
    def shape(self): return Size(wrap(d) for d in self._shape)
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def dim(self): return len(self._shape)
    ndimension = dim
    @property
    def ndim(self): return len(self._shape)
    @property
    def dtype(self): return _DT[self.st.dtype]
    @property
    def device(self): return device("cpu")
    @property
    def T(self): return A.transpose(self, tuple(reversed(range(len(self._shape)))))
    @property
    def data(self): return self.detach()
    @data.setter
    def data(self, v):
        r, s = A.reader_of(v)
        g = self.st.grad_leaf; self.st.grad_leaf = None
        self.write_(v); self.st.grad_leaf = g
    def t(self): return self.T
    def numel(self): return wrap(self.numel_r())
    nelement = numel
    def item(self):
        n = self.numel_r()
        if R.is_sym(n) or n != 1: raise RuntimeError("a Tensor with several elements cannot be converted to Scalar")
        return wrap(self.reader()((0,) * len(self._shape)))
    def tolist(self):
        if not self._shape: return self.item()
        return [x.tolist() for x in self]
    def numpy(self, **k):
        v = A.view_of(self, self._shape, self.m if self.m else (lambda i: i), self.inv if self.m else (lambda b: (True, b)))
        cls = A._registry["numpy"]
        n = cls.__new__(cls)
        Arr.__init__(n, self.st, self._shape, self.m, self.inv)
        return n
    def __array__(self, *a): raise Unsupported("__array__")
    def detach(self):
        v = A.view_of(self, self._shape, self.m, self.inv); return v
    def detach_(self): return self
    def cpu(self): return self
    def cuda(self, *a): raise Unsupported("cuda")
    def contiguous(self): return self
    def requires_grad_(self, v=True):
        self.requires_grad = v; return self
    def clone(self): return asarr("torch", self)
    def backward(self, *a, **k): raise Unsupported("backward")
    def __deepcopy__(self, memo): 
        v = asarr("torch", self); memo[id(self)] = v; return v
    def __copy__(self): return self
    def to(self, *a, **k):
        d = k.get("dtype")
        for x in a:
            if isinstance(x, Tensor): d = x.dtype
            elif isinstance(x, dtype_) : d = x
            elif isinstance(x, str): device(x)
        if k.get("copy"): 
            return asarr("torch", self, dts(d) if d else None)
        if d is None or dts(d) == self.st.dtype: return self
        d = dts(d)
        return self.map(lambda r: A.cast(r, d), d)
    def type(self, d=None):
        if d is None: return f"torch.{self.st.dtype}"
        return self.to(d)
    def type_as(self, o): return self.to(o.dtype)
    def float(self): return self.to(float32)
    def double(self): return self.to(float64)
    def half(self): return self.to(float16)
    def long(self): return self.to(int64)
    def int(self): return self.to(int32)
    def bool(self): return self.to(bool_)
    def view(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = sh[0]
        return A.reshape(self, sh)
    reshape = view
    def view_as(self, o): return A.reshape(self, o.shape)
    reshape_as = view_as
    def ravel(self): return A.reshape(self, (-1,))
    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self._shape)
        if n == 0: return A.reshape(self, (1,))
        s, e = start_dim % n, end_dim % n
        return A.reshape(self, [wrap(x) for x in self._shape[:s]] + [wrap(A.prod(self._shape[s:e + 1]))] + [wrap(x) for x in self._shape[e + 1:]])
    def permute(self, *p): return A.transpose(self, p[0] if len(p) == 1 and isinstance(p[0], (tuple, list)) else p)
    def transpose(self, a, b):
        p = list(range(len(self._shape))); p[a], p[b] = p[b], p[a]
        return A.transpose(self, p)
    def unsqueeze(self, d): return A.unsqueeze(self, d)
    def squeeze(self, d=None): return A.squeeze(self, d)
    def expand(self, *sh): return A.expand(self, sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh)
    def expand_as(self, o): return A.expand(self, o.shape)
    def repeat(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = sh[0]
        return tile(self, sh)
    def flip(self, *d): return A.flip(self, d[0] if len(d) == 1 and isinstance(d[0], (list, tuple)) else d)
    def roll(self, shifts, dims=None): return roll(self, shifts, dims)
    def split(self, n, dim=0): return split(self, n, dim)
    def chunk(self, n, dim=0): return chunk(self, n, dim)
    def unbind(self, dim=0): return builtins.tuple(self.select(dim, k) for k in range(conc(self._shape[dim])))
    def select(self, dim, k): return self[(slice(None),) * (dim % len(self._shape)) + (k,)]
    def narrow(self, dim, st, n): return self[(slice(None),) * (dim % len(self._shape)) + (slice(st, st + n),)]
    def index_select(self, dim, ix): return self[(slice(None),) * (dim % len(self._shape)) + (ix,)]
    def new_zeros(self, *sh, **k): return zeros(*sh, **dict({"dtype": self.dtype}, **k))
    def new_ones(self, *sh, **k): return ones(*sh, **dict({"dtype": self.dtype}, **k))
    def new_tensor(self, v, **k): return tensor(v, **k)
    def copy_(self, o): self.write_(o); return self
    def fill_(self, v): self.write_(v); return self
    def zero_(self): self.write_(Fraction(0)); return self
    def clamp_(self, min=None, max=None): self.write_fn(clamp(self, min, max).reader()); return self
    clip_ = clamp_
    def add_(self, o, alpha=1): self += (o * alpha if alpha != 1 else o); return self
    def sub_(self, o, alpha=1): self -= (o * alpha if alpha != 1 else o); return self
    def mul_(self, o): self *= o; return self
    def div_(self, o): self /= o; return self
    def masked_fill(self, m, v): return where(m, full_like(self, v), self)
    def clamp_min(self, v): return clamp(self, min=v)
    def clamp_max(self, v): return clamp(self, max=v)
    def clamp_min_(self, v): return self.clamp_(min=v)
    def clamp_max_(self, v): return self.clamp_(max=v)
    def swapaxes(self, a, b): return transpose(self, a, b)
    def where(self, c, o): return where(c, self, o)
    def new_full(self, sh, v, **k): return full(sh, v, **dict({"dtype": self.dtype}, **k))
    def masked_fill_(self, m, v): self[m if len(m._shape) == len(self._shape) else m.expand_as(self)] = v; return self
    def argmax(self, dim=None, keepdim=False): raise Unsupported("argmax")
    def nonzero(self, **k): raise Unsupported("nonzero")
    def normal_(self, mean=0, std=1): self.write_fn(cur_rng("normal", self._shape)); return self
    def uniform_(self, a=0, b=1):
        f = cur_rng("uniform", self._shape); self.write_fn(lambda i: R.add(R.to_real(unwrap(a)), R.mul(R.sub(R.to_real(unwrap(b)), R.to_real(unwrap(a))), f(i)))); return self

def conc(n):
    if R.is_sym(n): raise Unsupported("symbolic size used concretely")
    return n

class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)
    def __init__(self, data=None, requires_grad=True):
        if data is None: data = Tensor()
        if isinstance(data, A.Storage): data = mk("torch", data.shape, data.fn, data.dtype)
        if not isinstance(data, Tensor): raise TypeError("Parameter expects a Tensor")
        Arr.__init__(self, data.st, data._shape, data.m, data.inv)   # shares storage, as torch does
        if requires_grad and A.dkind(self.st.dtype) != 'r':
            raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
        self.requires_grad = requires_grad
        if not C.JOURNALS: self.st.grad_leaf = self      # gradient flags of parameters created by a symbolic loop are not tracked
    def __deepcopy__(self, memo):
        v = Parameter(asarr("torch", self), self.requires_grad); memo[id(self)] = v; return v
A.register("torch", Tensor)

# ---- randomness: the draws are functions of (ghost rng state) -------------
class RNG:
    """ghost state of one generator: an abstract state term advanced by every draw"""
    def __init__(self, name): self.name = name; self.state = z3.Int(f"{name}_state0")
    def advance(self, n):
        for j in C.JOURNALS: j.note_rng(self)
        nxt = z3.Function(f"{self.name}_next", R.INT, R.INT, R.INT)
        s = self.state
        self.state = nxt(s, R.z(n) if R.kind(n) == 'i' else z3.IntVal(1))
        return s

def rng(name):
    g = cur().ghost
    k = ("rng", name)
    if k not in g: g[k] = RNG(name)
    return g[k]

def draw(name, dist, shape):
    """array of draws; returns reader (raw reals) with range axioms attached"""
    n = 1
    for d in shape: n = R.mul(n, d)
    s = rng(name).advance(n)
    f = z3.Function(f"{name}_{dist}_{len(shape)}", R.INT, *([R.INT] * len(shape)), R.REAL)
    c = cur()
    def fn(idx):
        t = f(s, *[R.z(i) for i in idx])
        if dist == "uniform" and Ctx_active():
            note_uniform(t)
        return t
    return fn
def Ctx_active(): return C.Ctx.cur is not None
def note_uniform(t):
    C.UNIFORM_DECLS.add(t.decl().name())
def cur_rng(dist, shape): return draw("torchrng", dist, shape)

def shp(sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = sh[0]
    return A.dims(sh)

def tensor(v, dtype=None, requires_grad=False, device=None):
    d = dts(dtype)
    t = asarr("torch", v, None)
    if d is None and not isinstance(v, Arr) and t.kd == 'r': d = "float32"
    if d: t = t.map(lambda r: A.cast(r, d), d)
    t = asarr("torch", t)
    t.requires_grad = requires_grad
    return t
def as_tensor(v, dtype=None, device=None):
    if isinstance(v, Tensor): return v.to(dtype) if dtype else v
    if isinstance(v, Arr): return from_numpy(v) if not dtype else tensor(v, dtype)
    return tensor(v, dtype)
def from_numpy(v):
    t = Tensor.__new__(Tensor); Arr.__init__(t, v.st, v._shape, v.m, v.inv); return t
def FloatTensor(v): return tensor(v, float32)
def zeros(*sh, dtype=None, device=None, requires_grad=False, size=None, **k):
    return A.const("torch", shp(sh if size is None else (size,)), A.cast(0, dts(dtype) or "float32"), dts(dtype) or "float32")
def ones(*sh, dtype=None, device=None, requires_grad=False, size=None, **k):
    return A.const("torch", shp(sh if size is None else (size,)), A.cast(1, dts(dtype) or "float32"), dts(dtype) or "float32")
def full(sh, v, dtype=None, **k):
    r = unwrap(v); d = dts(dtype) or ("float32" if R.kind(r) == 'r' else "int64")
    return A.const("torch", A.dims(sh), A.cast(r, d), d)
def empty(*sh, dtype=None, **k):
    s = shp(sh)
    return mk("torch", s, draw("memory", "garbage", s), dts(dtype) or "float32")
def _like(v):
    def g(x, dtype=None, **k):
        d = dts(dtype) or x.st.dtype
        return A.const("torch", x._shape, A.cast(v, d), d)
    return g
zeros_like, ones_like = _like(0), _like(1)
def full_like(x, v, dtype=None, **k):
    d = dts(dtype) or x.st.dtype
    return A.const("torch", x._shape, A.cast(unwrap(v), d), d)
def empty_like(x, **k): return mk("torch", x._shape, draw("memory", "garbage", x._shape), x.st.dtype)
def rand(*sh, size=None, dtype=None, **k):
    s = shp(sh if size is None else (size,)); return mk("torch", s, cur_rng("uniform", s), "float32")
def randn(*sh, size=None, dtype=None, **k):
    s = shp(sh if size is None else (size,)); return mk("torch", s, cur_rng("normal", s), "float32")
def rand_like(x, **k): return mk("torch", x._shape, cur_rng("uniform", x._shape), x.st.dtype)
def randn_like(x, **k): return mk("torch", x._shape, cur_rng("normal", x._shape), x.st.dtype)
def randint(*a, **k): raise Unsupported("torch.randint")
def randperm(*a, **k): raise Unsupported("torch.randperm")
def manual_seed(s):
    g = rng("torchrng")
    for j in C.JOURNALS: j.note_rng(g)
    g.state = z3.Function("torchrng_seed", R.INT, R.INT)(R.z(R.to_int_exact(unwrap(s))))
def initial_seed(): raise Unsupported("initial_seed")
def fraction_of(t):
    """numerator and denominator (not yet shown to be non-zero) of an arithmetic term"""
    if not R.is_sym(t): return t, Fraction(1)
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        cs = [fraction_of(c) for c in t.children()]
        n, d = cs[0]
        if k == z3.Z3_OP_UMINUS: return R.neg(n), d
        for n2, d2 in cs[1:]:
            if k == z3.Z3_OP_MUL: n, d = R.mul(n, n2), R.mul(d, d2)
            elif k == z3.Z3_OP_DIV: n, d = R.mul(n, d2), R.mul(d, n2)
            else: n, d = (R.add if k == z3.Z3_OP_ADD else R.sub)(R.mul(n, d2), R.mul(n2, d)), R.mul(d, d2)
        return n, d
    if k == z3.Z3_OP_TO_REAL:
        c = t.arg(0)
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            r = None
            for x in c.children():
                y = fraction_of(R.to_real(x))[0]
                r = y if r is None else {z3.Z3_OP_ADD: R.add, z3.Z3_OP_SUB: R.sub, z3.Z3_OP_MUL: R.mul}[c.decl().kind()](r, y)
            return (R.neg(r) if c.decl().kind() == z3.Z3_OP_UMINUS else r), Fraction(1)
    return t, Fraction(1)
def known_ceiling(q):
    """the integer c offered by the contract with c - 1 < q < c, or None"""
    ctx = cur()
    for c in getattr(ctx, "ceilings", ()):
        c = unwrap(c); n, d = fraction_of(q)
        pr = lambda f: ctx.P.prove(ctx.assumed, f, 4000)[0] == "proved"
        if not pr(R.ne(d, Fraction(0))): continue
        # d*d > 0:  q < c  iff  n*d < c*d*d
        cr = R.to_real(c)
        for sg in (1, -1):
            if not pr(R.gt(R.mul(Fraction(sg), d), Fraction(0))): continue
            nn, dd = R.mul(Fraction(sg), n), R.mul(Fraction(sg), d)
            if pr(R.lt(nn, R.mul(cr, dd))) and pr(R.lt(R.mul(R.sub(cr, Fraction(1)), dd), nn)): return c
            break
    return None
def arange_raw(a, b, step):
    a, b, step = unwrap(a), unwrap(b), unwrap(step)
    if 'r' in (R.kind(a), R.kind(b), R.kind(step)):
        a, b, step = R.to_real(a), R.to_real(b), R.to_real(step)
        q = R.div(R.sub(b, a), step)
        n = known_ceiling(q)
        known = n is not None
        if known: cur().prove(True, "arange: the number of elements does not depend on rounding")
        else: n = R.ceil_(q)
        if R.is_sym(n) and not known:
            # the real arange computes this quotient in floating point: an exact integer may round up to one more element
            cur().prove(R.lt(q, R.to_real(n)), "arange: the number of elements does not depend on rounding")
    else: n = R.sub(b, a) if not R.is_sym(step) and step == 1 else R.ceil_(R.div(R.sub(b, a), step))
    n = A.canon_int(n)
    n = C.posdim(n)
    return n, (lambda i: R.add(a, R.mul(step, i[0])))
def arange(*a, dtype=None, step=None, device=None, **k):
    st, sp, sd = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if step is not None: sd = step
    n, f = arange_raw(st, sp, sd)
    d = dts(dtype) or ("float32" if 'r' in [R.kind(unwrap(x)) for x in (st, sp, sd)] else "int64")
    return mk("torch", (n,), lambda i: A.cast(f(i), d), d)
def linspace(a, b, steps, **k):
    a, b, n = R.to_real(unwrap(a)), R.to_real(unwrap(b)), unwrap(steps)
    return mk("torch", (n,), lambda i: R.add(a, R.mul(R.to_real(i[0]), R.div(R.sub(b, a), R.sub(n, 1)))), "float32")
def eye(n, m=None, **k):
    n = unwrap(n); m = n if m is None else unwrap(m)
    return mk("torch", (n, m), lambda i: R.ite(R.eq(i[0], i[1]), Fraction(1), Fraction(0)), "float32")
def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)): ts = ts[0]
    return mesh("torch", ts, indexing)
def mesh(lib, ts, indexing):
    ts = [t if isinstance(t, Arr) else asarr(lib, t) for t in ts]
    ns = [t._shape[0] for t in ts]
    rs = [t.reader() for t in ts]
    perm = list(range(len(ts)))
    if indexing == "xy" and len(ts) > 1: perm[0], perm[1] = 1, 0
    sh = tuple(ns[p] for p in perm)
    return [mk(lib, sh, (lambda r, k: lambda i: r((i[perm.index(k)],)))(r, k), t.st.dtype) for k, (r, t) in enumerate(zip(rs, ts))]

def T(x): return x if isinstance(x, Tensor) else asarr("torch", x)
def un(f, fl=True):
    def g(x, *a, **k):
        if not isinstance(x, Tensor): raise TypeError("argument 'input' must be Tensor")
        return x.map(f, ("float32" if x.kd != 'r' else None) if fl else None)
    return g
exp, log, sqrt, sin, cos, tanh = un(R.exp_), un(R.log_), un(R.sqrt_), un(R.sin_), un(R.cos_), un(R.tanh_)
sigmoid = un(R.sigm_)
abs = absolute = un(R.abs_, False)
neg = negative = un(R.neg, False)
square = un(lambda r: R.mul(r, r), False)
reciprocal = un(lambda r: R.div(1, r))
relu = un(lambda r: R.mx(r, 0 if R.kind(r) == 'i' else Fraction(0)), False)
floor = un(lambda r: R.to_real(R.floor_(r)), False)
ceil = un(lambda r: R.to_real(R.ceil_(r)), False)
trunc = un(lambda r: R.to_real(R.trunc(r)), False)
def half_even(r):
    """nearest integer, ties to the even one"""
    h = R.add(r, Fraction(1, 2)); f = R.floor_(h)
    return R.to_real(R.ite(R.and_(R.eq(R.to_real(f), h), R.ne(R.imod(f, 2), 0)), R.sub(f, 1), f))
_round = un(lambda r: R.to_real(half_even(r)) if R.kind(r) == 'r' else r, False)
def round(x, decimals=0):
    if not (isinstance(decimals, int) and decimals == 0): raise Unsupported("round to decimals")
    return _round(x)
sign = un(lambda r: R.ite(R.gt(r, 0), Fraction(1), R.ite(R.lt(r, 0), Fraction(-1), Fraction(0))), False)
rsqrt = un(lambda r: R.div(1, R.sqrt_(r)))
isnan = isinf = un(lambda r: False, False)
def isnan(x): return x.map(lambda r: False, "bool")
isinf = isnan
def isfinite(x): return x.map(lambda r: True, "bool")
def add(a, b, alpha=1): return T(a) + (b if alpha == 1 else b * alpha)
def sub(a, b, alpha=1): return T(a) - (b if alpha == 1 else b * alpha)
def mul(a, b): return T(a) * b
def div(a, b): return T(a) / b
def pow(a, b): return T(a) ** b
multiply, subtract, divide, true_divide = mul, sub, div, div
def lerp(a, b, w): return a + w * (b - a)
def addcmul(a, b, c, value=1): return a + value * b * c
def clamp(x, min=None, max=None):
    out = x
    dt = x.st.dtype
    if min is not None:
        out = A.binop(out, min, R.mx)
    if max is not None:
        out = A.binop(out, max, R.mn)
    return out
clip = clamp
def maximum(a, b): return A.binop(a, b, R.mx)
def minimum(a, b): return A.binop(a, b, R.mn)
def where(c, a=None, b=None):
    if a is None: raise Unsupported("where with one argument")
    c = T(c)
    a2, b2 = (x if isinstance(x, Arr) else asarr("torch", x) for x in (a, b))
    sh = A.bshape(c._shape, a2._shape, b2._shape)
    rc, ra, rb = (A.breader(t.reader(), t._shape, sh) for t in (c, a2, b2))
    dt = A.promote(a2 if isinstance(a, Arr) else a, b2 if isinstance(b, Arr) else b, "torch")
    return mk("torch", sh, lambda i: A.cast(R.ite(R.truth(rc(i)), ra(i), rb(i)), dt), dt)
def cmpf(op):
    def g(a, b): return getattr(T(a), op)(b)
    return g
gt, ge, lt, le, eq, ne = map(cmpf, ("__gt__", "__ge__", "__lt__", "__le__", "__eq__", "__ne__"))
greater, less, greater_equal, less_equal = gt, lt, ge, le
def logical_and(a, b): return T(a).to(bool_) & T(b).to(bool_)
def logical_or(a, b): return T(a).to(bool_) | T(b).to(bool_)
def logical_not(a): return ~T(a).to(bool_)
def equal(a, b): return all_eq(a, b)
def all_eq(a, b):
    if len(a._shape) != len(b._shape): return False
    if not builtins.all(A.dim_eq(x, y) for x, y in zip(a._shape, b._shape)): return False
    return wrap(unwrap(A.arr_all(a == b)))
def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    return wrap(unwrap(A.arr_all(abs(a - b) <= atol + rtol * abs(b))))
def isclose(a, b, **k): raise Unsupported("isclose")

def _dim(d, dim, axis): return dim if dim is not None else axis if axis is not None else d
def sum(x, d=None, keepdim=False, dim=None, axis=None, dtype=None): return A.arr_sum(x, _dim(d, dim, axis), keepdim)
def mean(x, d=None, keepdim=False, dim=None, axis=None, dtype=None): return A.arr_mean(x, _dim(d, dim, axis), keepdim)
def std(x, d=None, unbiased=True, keepdim=False, dim=None, axis=None, correction=None):
    return A.arr_var(x, _dim(d, dim, axis), keepdim, ddof=(1 if unbiased else 0) if correction is None else correction, root=True)
def var(x, d=None, unbiased=True, keepdim=False, dim=None, axis=None, correction=None):
    return A.arr_var(x, _dim(d, dim, axis), keepdim, ddof=(1 if unbiased else 0) if correction is None else correction)
def min(x, d=None, keepdim=False, dim=None):
    d = _dim(d, dim, None)
    if isinstance(d, Arr): return minimum(x, d)
    if d is None: return A.arr_min(x)
    return _MM(A.arr_min(x, d, keepdim))
def max(x, d=None, keepdim=False, dim=None):
    d = _dim(d, dim, None)
    if isinstance(d, Arr): return maximum(x, d)
    if d is None: return A.arr_max(x)
    return _MM(A.arr_max(x, d, keepdim))
class _MM(tuple):
    def __new__(cls, v): return tuple.__new__(cls, (v, None))
    @property
    def values(self): return self[0]
    @property
    def indices(self): raise Unsupported("argmin/argmax indices")
def amin(x, dim=None, keepdim=False): return A.arr_min(x, dim, keepdim)
def amax(x, dim=None, keepdim=False): return A.arr_max(x, dim, keepdim)
def all(x, d=None, keepdim=False, dim=None): return A.arr_all(x, _dim(d, dim, None), keepdim)
def any(x, d=None, keepdim=False, dim=None): return A.arr_any(x, _dim(d, dim, None), keepdim)
def prod(x, d=None, keepdim=False, dim=None): return A.arr_prod(x, _dim(d, dim, None), keepdim)
def cumsum(x, dim): raise Unsupported("cumsum")
def norm(x, *a, **k): raise Unsupported("norm")
def argmax(*a, **k): raise Unsupported("argmax")
def argsort(*a, **k): raise Unsupported("argsort")
def sort(*a, **k): raise Unsupported("sort")
def count_nonzero(x): return A.arr_sum((x != 0))
def clamp_min(x, v): return clamp(x, min=v)
def clamp_max(x, v): return clamp(x, max=v)
def masked_fill(x, m, v): return x.masked_fill(m, v)
def clone(x): return x.clone()
def detach(x): return x.detach()
def numel(x): return x.numel()
def swapaxes(x, a, b): return transpose(x, a, b)
def vstack(ts): return A.cat("torch", [A.unsqueeze(t, 0) if len(t._shape) == 1 else t for t in ts], 0)
def cat(ts, dim=0, axis=None):
    q = getattr(ts, "__vc_symseq__", None)
    if q is not None and q() is not None: return A.cat_list("torch", ts, dim if axis is None else axis)
    return A.cat("torch", list(ts), dim if axis is None else axis)
concat = concatenate = cat
def stack(ts, dim=0):
    q = getattr(ts, "__vc_symseq__", None)
    if q is not None and q() is not None:
        t = asarr("torch", ts)
        if dim == 0: return t
        p = list(range(1, len(t._shape))); p.insert(dim % len(t._shape), 0)
        return A.transpose(t, p)
    return A.stack("torch", list(ts), dim)
def reshape(x, sh): return A.reshape(x, sh)
def flatten(x, *a, **k): return x.flatten(*a, **k)
def ravel(x): return x.ravel()
def squeeze(x, dim=None): return A.squeeze(x, dim)
def unsqueeze(x, dim): return A.unsqueeze(x, dim)
def permute(x, p): return A.transpose(x, p)
def transpose(x, a, b): return x.transpose(a, b)
def flip(x, d): return A.flip(x, d)
def roll(x, shifts, dims=None):
    if dims is None:
        if len(x._shape) == 1: dims = 0
        else: raise Unsupported("roll without dims")
    return A.roll(x, shifts, dims)
def tile(x, reps):
    reps = A.dims(reps)
    n = builtins.max(len(reps), len(x._shape))
    sh = (1,) * (n - len(x._shape)) + x._shape
    reps = (1,) * (n - len(reps)) + tuple(reps)
    r = x.reader(); off = n - len(x._shape)
    def fn(i):
        out = []
        for j in range(off, n):
            if A.dim_is1(reps[j]): out.append(i[j])
            elif A.dim_is1(sh[j]): out.append(0)
            else: out.append(R.imod(i[j], sh[j]))
        return r(tuple(out))
    return mk(x.lib, tuple(A.canon_int(R.mul(a, b)) for a, b in zip(sh, reps)), fn, x.st.dtype)
def split(x, n, dim=0):
    dim %= len(x._shape); tot = conc(x._shape[dim])
    ns = n if isinstance(n, (list, tuple)) else [builtins.min(n, tot - k) for k in range(0, tot, n)]
    out, o = [], 0
    for k in ns: out.append(x.narrow(dim, o, k)); o += k
    return tuple(out)
def chunk(x, n, dim=0):
    tot = conc(x._shape[dim % len(x._shape)]); return split(x, -(-tot // n), dim)
def matmul(a, b): return A.matmul(a, b)
mm = bmm = matmul
def einsum(*a): raise Unsupported("einsum")
def outer(a, b): return A.unsqueeze(a, 1) * A.unsqueeze(b, 0)
def diag(x): raise Unsupported("diag")
def masked_select(x, m): return x[m]
def broadcast_to(x, s): return A.expand(x, s)
def get_default_dtype(): return float32
def set_default_dtype(d):
    if dts(d) != "float32": raise Unsupported("default dtype change")
def is_tensor(x): return isinstance(x, Tensor)
def set_num_threads(n): pass
def save(obj, path): raise Unsupported("torch.save")
def load(path, **k): raise Unsupported("torch.load")

class _GradMode:
    def __init__(self, v): self.v = v
    def __enter__(self): self.o = A._grad[0]; A._grad[0] = self.v
    def __exit__(self, *a): A._grad[0] = self.o
    def __call__(self, f):
        def g(*a, **k):
            with _GradMode(self.v): return f(*a, **k)
        return g
def no_grad(f=None): return _GradMode(False) if f is None else _GradMode(False)(f)
inference_mode = no_grad
def enable_grad(): return _GradMode(True)
def set_grad_enabled(v): return _GradMode(v)

# methods mirrored from functions
for _n in ("exp log sqrt sin cos tanh sigmoid abs absolute neg negative square reciprocal relu floor ceil trunc round sign rsqrt add sub mul "
           "div pow clamp clip maximum minimum gt ge lt le eq ne logical_and logical_or logical_not allclose sum mean std var min max amin amax "
           "all any prod cumsum norm argsort sort count_nonzero matmul mm bmm isnan isinf isfinite equal lerp multiply subtract divide true_divide tile "
           "masked_select broadcast_to outer").split():
    if _n not in Tensor.__dict__: setattr(Tensor, _n, globals()[_n])
for _n in ("exp sqrt abs neg sigmoid tanh floor sign square").split():
    def _mk(f):
        def g(self): self.write_fn(f(self).reader()); return self
        return g
    setattr(Tensor, _n + "_", _mk(globals()[_n]))
def _tga(self, name):
    raise Unsupported(f"Tensor.{name}")
Tensor.__getattr__ = _tga

# ======================= torch.nn ==========================================
class Module:
    def __init__(self):
        for j in C.JOURNALS: j.note_new(self)
        object.__setattr__(self, "_parameters", {})
        object.__setattr__(self, "_symparams", VList())     # parameters registered under names with a symbolic index
        object.__setattr__(self, "_modules", {})
        object.__setattr__(self, "_buffers", {})
        object.__setattr__(self, "training", True)
    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_parameters" not in d: raise AttributeError("cannot assign parameters before Module.__init__() call")
            d.pop(k, None); d["_modules"].pop(k, None)
            d["_parameters"][k] = v
            return
        if isinstance(v, Module):
            if "_modules" not in d: raise AttributeError("cannot assign module before Module.__init__() call")
            d.pop(k, None); d["_parameters"].pop(k, None)
            d["_modules"][k] = v
            return
        if "_parameters" in d and k in d["_parameters"]:
            if v is not None: raise TypeError(f"cannot assign '{type(v)}' as parameter '{k}' (torch.nn.Parameter or None expected)")
            d["_parameters"][k] = None; return
        if "_modules" in d and k in d["_modules"] and v is not None and not isinstance(v, Module):
            raise TypeError(f"cannot assign '{type(v)}' as child module '{k}'")
        object.__setattr__(self, k, v)
    def __getattr__(self, k):
        d = object.__getattribute__(self, "__dict__")
        for s in ("_parameters", "_modules", "_buffers"):
            if s in d and k in d[s]: return d[s][k]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")
    def __delattr__(self, k):
        for s in ("_parameters", "_modules", "_buffers"):
            if k in self.__dict__[s]: del self.__dict__[s][k]; return
        object.__delattr__(self, k)
    def register_parameter(self, k, p):
        if "\u27e8" in k:
            if p is not None and not isinstance(p, Parameter): raise TypeError("cannot assign as parameter")
            a, t, b = C.split_name(k)
            self._symparams.append((a, t, b, p)); return
        if self._symparams: 
            if k not in self._parameters: raise Unsupported("parameter registered after a symbolic family")
        if "." in k or k == "": raise KeyError("parameter name")
        if hasattr(self, k) and k not in self._parameters: raise KeyError(f"attribute '{k}' already exists")
        if p is not None and not isinstance(p, Parameter): raise TypeError("cannot assign as parameter")
        self._parameters[k] = p
    def register_buffer(self, k, b, persistent=True): self._buffers[k] = b
    def register_module(self, k, m): self._modules[k] = m
    add_module = register_module
    def named_parameters(self, prefix="", recurse=True, remove_duplicate=True):
        segs, seen = [], set()          # concrete pairs and symbolic families, in registration order
        for n, m in self.named_modules(prefix=prefix):
            for k, p in list(m._parameters.items()):
                if p is None or id(p) in seen: continue
                seen.add(id(p))
                segs.append([((n + "." if n else "") + k, p)])
            if m._symparams: segs.append(symfamily(m._symparams, n + "." if n else ""))
            if not recurse: break
        if builtins.all(type(g) is list for g in segs): return iter([x for g in segs for x in g])
        l = VList()
        for g in segs: l = seq_concat(l, g if isinstance(g, VList) else VList(g))
        return VList.__vc_symseq__(l) and SymIter(l.length(), l.item)
    def parameters(self, recurse=True):
        it = self.named_parameters(recurse=recurse)
        if isinstance(it, SymIter): return SymIter(it.n, lambda k: it.item(k)[1])
        return iter([p for _, p in it])
    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        memo = set() if memo is None else memo
        if id(self) in memo: return
        memo.add(id(self))
        yield prefix, self
        for k, m in list(self._modules.items()):
            if m is None: continue
            yield from m.named_modules(memo, prefix + ("." if prefix else "") + k)
    def modules(self):
        for _, m in self.named_modules(): yield m
    def children(self): return iter([m for m in self._modules.values() if m is not None])
    def named_children(self): return iter(list(self._modules.items()))
    def buffers(self): return iter(list(self._buffers.values()))
    def train(self, mode=True):
        object.__setattr__(self, "training", mode)
        for m in self.children(): m.train(mode)
        return self
    def eval(self): return self.train(False)
    def to(self, *a, **k):
        # device moves are the identity; dtype moves convert parameters
        d = k.get("dtype")
        for x in a:
            if isinstance(x, dtype_): d = x
        if d is not None:
            for m in self.modules():
                for n, p in m._parameters.items():
                    if p is not None and dts(d) != p.st.dtype:
                        raise Unsupported("module dtype conversion")
        return self
    def cpu(self): return self
    def cuda(self, *a): raise Unsupported("cuda")
    def float(self): return self.to(float32)
    def half(self): return self.to(float16)
    def double(self): return self.to(float64)
    def requires_grad_(self, v=True):
        it = self.parameters()
        if isinstance(it, SymIter): return self      # gradient flags carry no value semantics
        for p in it: p.requires_grad = v
        return self
    def zero_grad(self, *a, **k): pass
    def apply(self, fn):
        for m in self.children(): m.apply(fn)
        fn(self); return self
    def state_dict(self): return {k: p for k, p in self.named_parameters()}
    def load_state_dict(self, sd, strict=True):
        for k, p in self.named_parameters():
            p.data = sd[k]
    def __call__(self, *a, **k): return self.forward(*a, **k)
    def forward(self, *a, **k): raise NotImplementedError

def symfamily(l, prefix):
    """(name, parameter) pairs of a family registered under names with a symbolic index; distinct names"""
    l = l.copy(); n = l.length(); c = cur()
    k1, k2 = R.fresh_int("k"), R.fresh_int("k")
    saved = (list(c.assumed), c._cache)
    try:
        c._cache = dict(c._cache)
        c.assume(R.ge(k1, 0)); c.assume(R.lt(k1, k2)); c.assume(R.lt(k2, n))
        a, b = l.item(k1), l.item(k2)
        if a[0] == b[0] and a[2] == b[2] and not c.entails(R.ne(unwrap(a[1]), unwrap(b[1]))):
            raise Unsupported("parameters registered under names that may coincide")
    finally: c.assumed, c._cache = saved
    return VList.sym(n, lambda k: (prefix + l.item(k)[0] + str(l.item(k)[1]) + l.item(k)[2], l.item(k)[3]))

class Identity_(Module):
    def __init__(self, *a, **k): super().__init__()
    def forward(self, x): return x
def actmod(name, f):
    class M(Module):
        def __init__(self, *a, **k):
            super().__init__()
            if name == "ELU" and a: raise Unsupported("ELU alpha")
        def forward(self, x): return x.map(f)
    M.__name__ = M.__qualname__ = name
    M.__module__ = "torch.nn.modules.activation"
    return M
Tanh = actmod("Tanh", R.tanh_); ReLU = actmod("ReLU", lambda r: R.mx(r, Fraction(0)))
Sigmoid = actmod("Sigmoid", R.sigm_); SiLU = actmod("SiLU", R.silu_); ELU = actmod("ELU", R.elu_)

class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        for i, m in enumerate(ms): self._modules[str(i)] = m
    def __getitem__(self, i):
        ms = list(self._modules.values()); return ms[i]
    def __len__(self): return len(self._modules)
    def __iter__(self): return iter(list(self._modules.values()))
    def forward(self, x):
        for m in self._modules.values(): x = m(x)
        return x
class ModuleList(Sequential):
    def __init__(self, ms=()): super().__init__(*ms)
    def append(self, m): self._modules[str(len(self._modules))] = m
    def forward(self, x): raise NotImplementedError

class Dropout(Module):
    def __init__(self, p=Fraction(1, 2), inplace=False): super().__init__(); self.p = p
    def forward(self, x):
        if not self.training: return x
        f = cur_rng("uniform", x._shape)
        r = x.reader(); p = R.to_real(unwrap(self.p))
        return mk("torch", x._shape, lambda i: R.ite(R.lt(f(i), p), Fraction(0), R.div(r(i), R.sub(1, p))), x.st.dtype)

def pair(v): return tuple(v) if isinstance(v, (tuple, list)) else (v, v)

def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1, mode="zeros"):
    """trusted contract of torch 2-D convolution (stride 1, dilation 1): cross-correlation"""
    if not isinstance(x, Tensor): raise TypeError("conv2d(): argument 'input' must be Tensor")
    if len(x._shape) == 3:
        return A.squeeze(conv2d(A.unsqueeze(x, 0), w, bias, stride, padding, dilation, groups, mode), 0)
    if len(x._shape) != 4: raise RuntimeError("Expected 3D or 4D input to conv2d")
    if pair(stride) != (1, 1) or pair(dilation) != (1, 1): raise Unsupported("conv2d stride/dilation")
    g = unwrap(groups)
    co, cig, kh, kw = w._shape
    if x.st.dtype != w.st.dtype:
        raise RuntimeError(f"Input type ({x.st.dtype}) and weight type ({w.st.dtype}) should be the same")
    if padding == "same": ph, pw = R.idiv(R.sub(kh, 1), 2), R.idiv(R.sub(kw, 1), 2)
    elif padding == "valid": ph = pw = 0
    else: ph, pw = (unwrap(p) for p in pair(padding))
    ci = x._shape[1]
    if not A.dim_eq(ci, R.mul(cig, g)):
        raise RuntimeError("Given groups and weight, expected input to have a different number of channels")
    m = {"zeros": "constant", "circular": "circular", "replicate": "replicate", "reflect": "reflect"}[mode]
    if m == "circular":
        c = cur()
        for p, d in ((ph, x._shape[2]), (pw, x._shape[3])):
            if not A.is0(p) and not c.branch(R.le(p, d)):
                raise RuntimeError("Padding value causes wrapping around more than once.")
    xr = A.pad(x, [(0, 0), (0, 0), (ph, ph), (pw, pw)], m) if not (A.is0(ph) and A.is0(pw)) else x
    H = A.canon_int(R.add(R.sub(xr._shape[2], kh), 1)); W = A.canon_int(R.add(R.sub(xr._shape[3], kw), 1))
    for d in (H, W):
        if not R.is_sym(d):
            if d < 1: raise RuntimeError("Kernel size can't be greater than actual input size")
        elif not cur().branch(R.ge(d, 1)): raise RuntimeError("Kernel size can't be greater than actual input size")
    rx, rw = xr.reader(), w.reader()
    rb = bias.reader() if bias is not None else None
    cog = co if A.dim_is1(g) else R.idiv(co, g)
    def fn(i):
        b, o, y, x_ = i
        base = 0 if A.dim_is1(g) else R.mul(R.idiv(o, cog) if not (A.dim_is1(cog)) else o, cig)
        v = N.sum_(cig, lambda c: N.sum_(kh, lambda p: N.sum_(kw, lambda q:
            R.mul(rw((o, c, p, q)), rx((b, A.canon_small(R.add(base, c)), A.canon_small(R.add(y, p)), A.canon_small(R.add(x_, q))))))))
        if rb is not None: v = R.add(v, rb((o,)))
        return v
    return mk("torch", (x._shape[0], co, H, W), fn, x.st.dtype)

class Conv2d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True,
                 padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        if padding_mode not in ("zeros", "circular", "replicate", "reflect"): raise ValueError("padding_mode")
        ci, co, g = unwrap(in_channels), unwrap(out_channels), unwrap(groups)
        for a, n in ((ci, "in"), (co, "out")):
            ok = R.eq(R.imod(a, g), 0) if not (A.dim_is1(g) or (R.is_sym(a) and R.is_sym(g) and a.eq(g))) else True
            if ok is not True and not cur().branch(ok): raise ValueError(f"{n}_channels must be divisible by groups")
        kh, kw = (unwrap(k) for k in pair(kernel_size))
        self.in_channels, self.out_channels, self.groups = in_channels, out_channels, groups
        self.kernel_size = pair(kernel_size); self.stride = pair(stride); self.dilation = pair(dilation)
        self.padding = padding if isinstance(padding, str) else pair(padding)
        self.padding_mode = padding_mode
        cig = 1 if (R.is_sym(ci) and R.is_sym(g) and ci.eq(g)) else ci if A.dim_is1(g) else A.canon_int(R.idiv(ci, g))
        sh = (co, cig, kh, kw)
        self.weight = Parameter(mk("torch", sh, cur_rng("init", sh), "float32"))
        if bias: self.bias = Parameter(mk("torch", (co,), cur_rng("init", (co,)), "float32"))
        else: self.register_parameter("bias", None)
    def forward(self, x):
        return conv2d(x, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups, self.padding_mode)

class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        super().__init__()
        sh = (unwrap(o), unwrap(i))
        self.weight = Parameter(mk("torch", sh, cur_rng("init", sh), "float32"))
        if bias: self.bias = Parameter(mk("torch", (sh[0],), cur_rng("init", (sh[0],)), "float32"))
        else: self.register_parameter("bias", None)
    def forward(self, x):
        y = A.matmul(x, self.weight.T)
        return y + self.bias if self.bias is not None else y

def mse_loss(a, b, **k): return mean((a - b) ** 2)
class MSELoss(Module):
    def forward(self, a, b): return mse_loss(a, b)

class BCELoss(Module):
    def forward(self, a, b): raise Unsupported("the value of torch.nn.BCELoss")
def avg_pool2d(x, kernel_size, stride=None, padding=0, **k):
    """means of non-overlapping windows (incomplete windows at the far edges are dropped)"""
    kh, kw = (unwrap(v) for v in pair(kernel_size))
    if k or padding != 0 or (stride is not None and tuple(unwrap(v) for v in pair(stride)) != (kh, kw)) or R.is_sym(kh) or R.is_sym(kw): raise Unsupported("avg_pool2d with these options")
    sh = x._shape; r = x.reader()
    if len(sh) != 4: raise Unsupported("avg_pool2d of a tensor that is not 4-D")
    oh, ow = A.canon_int(R.idiv(sh[2], kh)), A.canon_int(R.idiv(sh[3], kw))
    if not cur().branch(R.and_(R.ge(oh, 1), R.ge(ow, 1))): raise RuntimeError("Output size is too small")
    def f(i):
        t = Fraction(0)
        for p in range(kh):
            for q in range(kw): t = R.add(t, R.to_real(r((i[0], i[1], R.add(R.mul(i[2], kh), p), R.add(R.mul(i[3], kw), q)))))
        return R.div(t, Fraction(kh * kw))
    return mk("torch", (sh[0], sh[1], oh, ow), f, x.st.dtype)
def fpad(x, p, mode="constant", value=0):
    p = list(p); n = len(x._shape)
    pads = [(0, 0)] * n
    for k in range(0, len(p), 2): pads[n - 1 - k // 2] = (unwrap(p[k]), unwrap(p[k + 1]))
    return A.pad(x, pads, mode, value)

def build():
    """-> dict of module name -> module object"""
    g = globals()
    t = types.ModuleType("torch")
    skip = {"Module", "Conv2d", "Sequential", "Dropout", "Linear", "build", "T", "un", "conc", "shp", "draw", "rng", "cmpf", "S", "C", "A", "N", "R"}
    for k, v in g.items():
        if not k.startswith("__") and k not in skip: setattr(t, k, v)
    t.Tensor, t.float, t.int, t.long, t.bool, t.half = Tensor, float32, int32, int64, bool_, float16
    t.pi = S(R.PI)
    t.__version__ = "2.0.1+stub"
    nn = types.ModuleType("torch.nn")
    for k in ("Module", "Conv2d", "Sequential", "ModuleList", "Dropout", "Linear", "Tanh", "ReLU", "Sigmoid", "SiLU", "ELU", "Parameter", "MSELoss", "BCELoss"):
        setattr(nn, k, g[k])
    nn.Identity = Identity_
    Ff = types.ModuleType("torch.nn.functional")
    Ff.conv2d = lambda x, w, bias=None, stride=1, padding=0, dilation=1, groups=1: conv2d(x, w, bias, stride, padding, dilation, groups)
    Ff.pad, Ff.mse_loss, Ff.avg_pool2d = fpad, mse_loss, avg_pool2d
    for k in ("relu", "tanh", "sigmoid"): setattr(Ff, k, g[k])
    Ff.silu = un(R.silu_); Ff.elu = un(R.elu_)
    op = types.ModuleType("torch.optim")
    op.Adam = op.SGD = type("Optim", (), {"__init__": lambda s, *a, **k: None, "zero_grad": lambda s, *a: None, "step": lambda s, *a: None})
    par = types.ModuleType("torch.nn.parameter"); par.Parameter = Parameter
    nn.functional, nn.parameter = Ff, par
    cu = types.ModuleType("torch.cuda"); cu.is_available = lambda: False; cu.manual_seed = cu.manual_seed_all = lambda s: None
    cu.device_count = lambda: 0
    t.nn, t.optim, t.cuda = nn, op, cu
    t.backends = types.SimpleNamespace(cudnn=types.SimpleNamespace(deterministic=False, benchmark=False))
    def ga(name): raise Unsupported(f"torch.{name}")
    for m in (t, nn, Ff, op):
        m.__getattr__ = (lambda mn: lambda name: (_ for _ in ()).throw(
            AttributeError(name) if name.startswith("__") else Unsupported(f"{mn}.{name}")))(m.__name__)
    return {"torch": t, "torch.nn": nn, "torch.nn.functional": Ff, "torch.optim": op, "torch.cuda": cu, "torch.nn.parameter": par}
