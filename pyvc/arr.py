"""Symbolic n-d arrays with symbolic shape, views that write through, and in-place update."""
import itertools, math, builtins
from fractions import Fraction
import z3
from . import raw as R
from . import norm as N
from . import core as C
from .core import S, wrap, unwrap, cur, posdim
from .raw import Unsupported

FLOATS = ("float16", "float32", "float64", "bfloat16")
INTS = ("int64", "int32", "int16", "int8", "uint8")
def dkind(dt): return 'r' if dt in FLOATS else ('b' if dt == "bool" else 'i')
_RANK = {"bool": 0, "uint8": 1, "int8": 1, "int16": 2, "int32": 3, "int64": 4,
         "float16": 5, "bfloat16": 5, "float32": 6, "float64": 7}

def cast(r, dt):
    k = dkind(dt)
    rk = R.kind(r)
    if k == rk: return r
    if k == 'r': return R.to_real(r)
    if k == 'i':
        return R.trunc(r) if rk == 'r' else R.to_int_exact(r)
    return R.truth(r)

def key(i):
    return i if not R.is_sym(i) else ("z", i.get_id())

class Storage:
    __slots__ = ("shape", "_fn", "dtype", "memo", "keep", "grad_leaf", "ver", "loc", "frozen")
    def __init__(self, shape, fn, dtype):
        self.shape, self.dtype = tuple(shape), dtype
        self.grad_leaf = None
        self.ver = 0
        self.loc = None
        self.frozen = False
        for j in C.JOURNALS: j.note_new(self)
        self.set(fn)
    def set(self, fn):
        if self.frozen: raise Unsupported("write to a tensor created by an iteration of a symbolic loop")
        if C.JOURNALS and self.ver:
            for j in C.JOURNALS: j.note_storage(self)
        self.ver += 1
        memo, keep = {}, []
        def g(idx):
            k = tuple(key(i) for i in idx)
            v = memo.get(k)
            if v is None:
                v = fn(idx)
                memo[k] = v
                keep.append(idx)
            return v
        self._fn = g
    @property
    def fn(self): return self._fn

def dim_eq(a, b):
    if not R.is_sym(a) and not R.is_sym(b): return a == b
    return cur().branch(R.eq(a, b))
def is0(a): return not R.is_sym(a) and a == 0
def dim_is1(a):
    if not R.is_sym(a): return a == 1
    return False

def bdim(a, b):
    """broadcast two dims -> dim"""
    if not R.is_sym(a) and not R.is_sym(b):
        if a == b or b == 1: return a
        if a == 1: return b
        raise RuntimeError(f"The size of tensor a ({a}) must match the size of tensor b ({b})")
    if dim_is1(a): return b
    if dim_is1(b): return a
    c = cur()
    if c.branch(R.eq(a, b)): return a
    if c.branch(R.eq(a, 1)): return b
    if c.branch(R.eq(b, 1)): return a
    raise RuntimeError("The size of tensor a must match the size of tensor b")

def bshape(*shapes):
    n = builtins.max([len(s) for s in shapes]) if shapes else 0
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0: d = bdim(d, s[j])
        out.append(d)
    return tuple(out)

def breader(read, shape, out):
    """reader of `shape` broadcast to `out`"""
    off = len(out) - len(shape)
    ones = []
    for j, d in enumerate(shape):
        o = out[off + j]
        if dim_is1(d): ones.append(True)
        elif R.is_sym(d) and not (R.is_sym(o) and d.eq(o)) and not (not R.is_sym(o) and False):
            # symbolic dim broadcast decided equal (or ==1) on this path
            if not R.is_sym(o) and o == 1: ones.append(False)
            else: ones.append(bool(cur().entails(R.eq(d, 1)) and not cur().entails(R.eq(d, o))))
        else: ones.append(False)
    def g(idx):
        return read(tuple(0 if ones[j] else idx[off + j] for j in range(len(shape))))
    return g

class Arr:
    lib = "numpy"
    __array_priority__ = 100
    def __init__(self, st, shape=None, m=None, inv=None):
        self.st = st
        self._shape = tuple(st.shape if shape is None else shape)
        self.m, self.inv = m, inv

    # ---- reading
    def reader(self):
        fn, m = self.st.fn, self.m
        if m is None: return fn
        return lambda idx: fn(m(idx))
    def at(self, *idx):
        return self.reader()(tuple(idx))
    @property
    def dtype_s(self): return self.st.dtype
    @property
    def kd(self): return dkind(self.st.dtype)
    @property
    def rshape(self): return self._shape
    def ndim_(self): return len(self._shape)
    def __vc_scalar__(self):
        if self.numel_r() != 1: raise TypeError("only size-1 arrays can be converted to Python scalars")
        return self.reader()((0,) * len(self._shape))
    def numel_r(self):
        n = 1
        for d in self._shape: n = R.mul(n, d)
        return n
    def new(self, shape, fn, dtype=None):
        return mk(self.lib, shape, fn, dtype or self.st.dtype)
    def __vc_iter__(self):
        if not self._shape: raise TypeError("iteration over a 0-d array")
        return self._shape[0], lambda k: self[wrap(k)]
    def __iter__(self):
        n, f = self.__vc_iter__()
        if R.is_sym(n): raise Unsupported("iteration over a symbolic dimension")
        return iter([f(k) for k in range(n)])
    def __len__(self):
        if not self._shape: raise TypeError("len() of a 0-d tensor")
        n = self._shape[0]
        if R.is_sym(n): raise Unsupported("len of symbolic dimension")
        return n
    def __bool__(self):
        n = self.numel_r()
        if R.is_sym(n) or n != 1:
            raise (RuntimeError if self.lib == "torch" else ValueError)("Boolean value of array with more than one value is ambiguous")
        return cur().branch(R.truth(self.__vc_scalar__()))
    def __index__(self):
        return S(self.__vc_scalar__()).__index__()
    def __int__(self): return S(self.__vc_scalar__()).__int__()
    def __float__(self): return S(self.__vc_scalar__()).__float__()
    def __format__(self, spec): return f"<arr>"
    def __repr__(self): return f"<{self.lib} array {self._shape} {self.st.dtype}>"
    __hash__ = object.__hash__

    # ---- indexing
    def view_spec(self, item):
        """-> (shape, fwd map, inverse map, mask) ; mask: boolean-mask selection"""
        if not isinstance(item, tuple): item = (item,)
        items = []
        for it in item:
            if isinstance(it, list): it = asarr(self.lib, it)
            if isinstance(it, SliceV): it = slice(it.start, it.stop, it.step)
            items.append(it)
        nd = len(self._shape)
        used = 0
        for it in items:
            if it is None or it is Ellipsis: continue
            if isinstance(it, Arr) and it.kd == 'b': used += len(it._shape)
            else: used += 1
        if any(it is Ellipsis for it in items):
            k = [i for i, it in enumerate(items) if it is Ellipsis][0]
            items = items[:k] + [slice(None)] * (nd - used) + items[k + 1:]
        else:
            items = items + [slice(None)] * (nd - used)
        if used > nd: raise IndexError("too many indices for tensor of dimension %d" % nd)
        return items

    def _resolve(self, item):
        items = self.view_spec(item)
        # boolean mask
        masks = [it for it in items if isinstance(it, Arr) and it.kd == 'b' and len(it._shape) > 0]
        if masks:
            if len(masks) > 1: raise Unsupported("several boolean masks")
            return ("mask", items, masks[0])
        fancy = [it for it in items if isinstance(it, Arr) and len(it._shape) > 0]
        if fancy: return ("fancy", items, None)
        shape, spec = [], []   # spec per base dim: ('i', raw) | ('s', outpos, start, step)
        d = 0
        for it in items:
            if it is None:
                shape.append(1); continue
            dim = self._shape[d]
            if isinstance(it, slice):
                st, n, step = norm_slice(it, dim)
                spec.append(("s", len(shape), st, step)); shape.append(n)
            else:
                r = unwrap(it)
                if r is None: raise Unsupported(f"index {type(it).__name__}")
                if R.kind(r) == 'b': raise Unsupported("boolean scalar index")
                if R.kind(r) == 'r': raise IndexError("only integers, slices are valid indices")
                r = norm_index(r, dim)
                spec.append(("i", r))
            d += 1
        return ("view", tuple(shape), spec)

    def __getitem__(self, item):
        k, a, b = self._resolve(item)
        if k == "view":
            shape, spec = a, b
            def fwd(idx):
                out = []
                for s in spec:
                    if s[0] == "i": out.append(s[1])
                    else: out.append(R.add(R.mul(idx[s[1]], s[3]) if s[3] != 1 else idx[s[1]], s[2]))
                return tuple(out)
            nshape = len(shape)
            bshape_ = self._shape
            def inv(bidx):
                conds, out = [], [0] * nshape
                for j, s in enumerate(spec):
                    if s[0] == "i": conds.append(R.eq(bidx[j], s[1]))
                    else:
                        off = R.sub(bidx[j], s[2])
                        if s[3] != 1:
                            conds.append(R.eq(R.imod(off, s[3]), 0) if s[3] > 0 else R.eq(R.imod(off, -s[3]), 0))
                            off = R.idiv(off, s[3]) if s[3] > 0 else R.idiv(R.neg(off), -s[3])
                        n = shape[s[1]]
                        full = is0(s[2]) and s[3] == 1 and \
                            (n is bshape_[j] or (R.is_sym(n) and R.is_sym(bshape_[j]) and n.eq(bshape_[j])) or
                             (not R.is_sym(n) and not R.is_sym(bshape_[j]) and n == bshape_[j]))
                        if not full: conds += [R.ge(off, 0), R.lt(off, n)]
                        out[s[1]] = off
                return R.and_(*conds), tuple(out)
            m0, i0 = self.m, self.inv
            if m0 is None: m2, i2 = fwd, inv
            else:
                m2 = lambda idx: m0(fwd(idx))
                if i0 is None: i2 = None
                else:
                    def i2(sidx):
                        c1, bi = i0(sidx)
                        c2, oi = inv(bi)
                        return R.and_(c1, c2), oi
            if self.lib == "numpy" and shape == () :
                return wrap_np_scalar(self.st.fn(m2(())), self.st.dtype)
            return view_of(self, shape, m2, i2)
        if k == "mask":
            items, mask = a, b
            mi = [i for i, x in enumerate(items) if x is mask][0]
            if builtins.any(not (isinstance(x, slice) and x == slice(None)) for i, x in enumerate(items) if i != mi) or mi != 0:
                raise Unsupported("mask combined with other indices")
            if len(mask._shape) != len(self._shape):
                raise Unsupported("partial boolean mask")
            return MaskSel(self.lib, self._shape, self.reader(), mask.reader(), self.st.dtype)
        if k == "fancy":
            return fancy_get(self, a)

    def __setitem__(self, item, v):
        k, a, b = self._resolve(item)
        if k == "view":
            if self.lib == "numpy" and a == ():
                tgt = _force_view(self, item)
            else: tgt = self[item]
            tgt.write_(v)
            return
        if k == "mask":
            items, mask = a, b
            if len(mask._shape) != len(self._shape): raise Unsupported("partial boolean mask")
            mr = breader(mask.reader(), mask._shape, self._shape)
            if isinstance(v, MaskSel):
                same_mask(v.mask, mr, self._shape)
                vr = v.read
            else:
                vr, vs = reader_of(v)
                if vs != ():
                    va = asarr(self.lib, v)
                    if builtins.all(dim_is1(d) for d in vs): 
                        r0 = vr; vr = lambda idx: r0((0,) * len(vs))
                    else: raise Unsupported("mask assignment from a general array")
                else:
                    r0 = vr; vr = lambda idx: r0(())
            old = self.reader()
            self.write_fn(lambda idx: R.ite(mr(idx), cast(vr(idx), self.st.dtype), old(idx)))
            return
        if k == "fancy":
            return fancy_set(self, a, v)

    # ---- writing
    def check_writable(self):
        g = self.st.grad_leaf
        if g is not None and g.requires_grad and grad_enabled():
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
    def write_fn(self, fn):
        """overwrite this (view of the) storage with view-indexed fn"""
        self.check_writable()
        st = self.st
        dt = st.dtype
        if self.m is None:
            st.set(lambda idx: cast(fn(idx), dt))
            return
        if self.inv is None: raise Unsupported("write through a non-invertible view")
        inv, old = self.inv, st.fn
        def new(sidx):
            c, vi = inv(sidx)
            if c is False: return old(sidx)
            if c is True: return cast(fn(vi), dt)
            return R.ite(c, cast(fn(vi), dt), old(sidx))
        st.set(new)
    def write_(self, v):
        if isinstance(v, MaskSel): raise Unsupported("assigning a masked selection")
        r, s = reader_of(v)
        # value must broadcast to self shape
        s2 = s
        while len(s2) > len(self._shape) and dim_is1(s2[0]):
            s2 = s2[1:]
        if len(s2) > len(self._shape): raise RuntimeError("shape mismatch in assignment")
        k = len(s) - len(s2)
        if k:
            r0 = r; r = lambda idx: r0((0,) * k + tuple(idx))
        out = bshape(s2, self._shape)
        for x, y in zip(out, self._shape):
            if not dim_eq(x, y): raise RuntimeError("shape mismatch: value cannot be broadcast to the indexed tensor")
        self.write_fn(breader(r, s2, self._shape))

    # ---- elementwise
    def map(self, f, dtype=None):
        r = self.reader()
        return self.new(self._shape, lambda idx: f(r(idx)), dtype)

    def _bin(name, f, swap=False, bool_=False, fl=False):
        def g(self, o):
            if isinstance(o, MaskSel): return NotImplemented
            return binop(self, o, f, swap, bool_, fl)
        g.__name__ = name
        return g
    __add__ = _bin("add", R.add); __radd__ = _bin("radd", R.add, True)
    __sub__ = _bin("sub", R.sub); __rsub__ = _bin("rsub", R.sub, True)
    __mul__ = _bin("mul", R.mul); __rmul__ = _bin("rmul", R.mul, True)
    __truediv__ = _bin("div", R.div, fl=True); __rtruediv__ = _bin("rdiv", R.div, True, fl=True)
    __floordiv__ = _bin("fdiv", R.idiv); __rfloordiv__ = _bin("rfdiv", R.idiv, True)
    __mod__ = _bin("mod", R.imod); __rmod__ = _bin("rmod", R.imod, True)
    __pow__ = _bin("pow", R.pow_); __rpow__ = _bin("rpow", R.pow_, True)
    __lt__ = _bin("lt", R.lt, bool_=True); __le__ = _bin("le", R.le, bool_=True)
    __gt__ = _bin("gt", R.gt, bool_=True); __ge__ = _bin("ge", R.ge, bool_=True)
    __eq__ = _bin("eq", R.eq, bool_=True); __ne__ = _bin("ne", R.ne, bool_=True)
    def _logical(self, o):
        for x in (self, o):
            if (x.kd if isinstance(x, Arr) else R.kind(unwrap(x))) != 'b': raise Unsupported("bitwise operation on integers")
    def __and__(self, o): self._logical(o); return binop(self, o, lambda a, b: R.and_(R.truth(a), R.truth(b)), False, True)
    def __or__(self, o): self._logical(o); return binop(self, o, lambda a, b: R.or_(R.truth(a), R.truth(b)), False, True)
    def __xor__(self, o): self._logical(o); return binop(self, o, lambda a, b: R.ne(R.truth(a), R.truth(b)), False, True)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self):
        if self.kd != 'b': raise Unsupported("~ on non-boolean array")
        return self.map(R.not_)
    def __neg__(self): return self.map(R.neg)
    def __pos__(self): return self
    def __abs__(self): return self.map(R.abs_)
    def _ibin(f, fl=False):
        def g(self, o):
            if fl and self.kd == 'i':
                raise (RuntimeError if self.lib == "torch" else TypeError)("result type Float can't be cast to Long")
            v = binop(self, o, f, False, False, fl)
            if self.kd == 'i' and v.kd == 'r':
                raise (RuntimeError if self.lib == "torch" else TypeError)("result type Float can't be cast to the desired output type Long")
            bs = bshape(v._shape, self._shape)
            if len(v._shape) != len(self._shape): raise RuntimeError("in-place output shape mismatch")
            for x, y in zip(v._shape, self._shape):
                if not dim_eq(x, y): raise RuntimeError("in-place output shape mismatch")
            self.write_fn(v.reader())
            return self
        return g
    __iadd__, __isub__, __imul__ = _ibin(R.add), _ibin(R.sub), _ibin(R.mul)
    __itruediv__ = _ibin(R.div, True); __ipow__ = _ibin(R.pow_); __ifloordiv__ = _ibin(R.idiv)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(asarr(self.lib, o), self)

_grad = [True]
def grad_enabled(): return _grad[0]

class SliceV:
    def __init__(self, *a):
        if len(a) == 1: a = (None, a[0], None)
        if len(a) == 2: a = (a[0], a[1], None)
        self.start, self.stop, self.step = a

_registry = {}
def register(lib, cls): _registry[lib] = cls
def mk(lib, shape, fn, dtype):
    return _registry[lib](Storage(shape, fn, dtype))
def view_of(a, shape, m, inv):
    cls = _registry[a.lib]
    v = cls.__new__(cls)
    Arr.__init__(v, a.st, shape, m, inv)
    return v
def _force_view(a, item):
    lib = a.lib
    _, shape, spec = a._resolve(item)
    idx = tuple(s[1] for s in spec)
    m0, i0 = a.m, a.inv
    m = (lambda _: idx) if m0 is None else (lambda _: m0(idx))
    def inv(sidx):
        c, bi = (True, sidx) if m0 is None else i0(sidx)
        return R.and_(c, *[R.eq(x, y) for x, y in zip(bi, idx)]), ()
    return view_of(a, (), m, inv)

def wrap_np_scalar(r, dt):
    return wrap(cast(r, dt)) if dkind(dt) != 'r' else wrap(R.to_real(r))

def norm_index(r, dim):
    if not R.is_sym(r) and not R.is_sym(dim):
        if r < -dim or r >= dim: raise IndexError(f"index {r} is out of bounds for dimension with size {dim}")
        return r + dim if r < 0 else r
    c = cur()
    if R.is_sym(r):
        if not c.entails(R.ge(r, 0)):
            if c.branch(R.lt(r, 0)): r = R.add(r, dim)
    elif r < 0: r = R.add(r, dim)
    ok = R.and_(R.ge(r, 0), R.lt(r, dim))
    if not c.entails(ok):
        if not c.branch(ok): raise IndexError("index out of bounds")
    return r

def norm_slice(sl, dim):
    st, sp, step = unwrap(sl.start) if sl.start is not None else None, \
        unwrap(sl.stop) if sl.stop is not None else None, unwrap(sl.step) if sl.step is not None else 1
    for x in (st, sp):
        if x is not None and R.kind(x) == 'r': raise TypeError("slice indices must be integers")
    if R.is_sym(step): raise Unsupported("symbolic slice step")
    if not R.is_sym(dim) and not R.is_sym(st) and not R.is_sym(sp):
        a, b, s = slice(st, sp, step).indices(dim)
        n = len(range(a, b, s))
        return a, n, s
    if step <= 0:
        if st is None and sp is None and step == -1: return R.sub(dim, 1), dim, -1
        raise Unsupported("negative slice step with symbolic bounds")
    c = cur()
    def clamp(x, default):
        if x is None: return default
        if R.is_sym(x):
            if not c.entails(R.ge(x, 0)):
                if c.branch(R.lt(x, 0)): x = R.add(x, dim)
        elif x < 0: x = R.add(x, dim)
        if R.is_sym(x):
            if not c.entails(R.ge(x, 0)):
                if c.branch(R.lt(x, 0)): return 0
        if R.is_sym(x) or R.is_sym(dim) or x > dim:
            if not c.entails(R.le(x, dim)):
                if c.branch(R.gt(x, dim)): return dim
        return x
    a, b = clamp(st, 0), clamp(sp, dim)
    d = R.sub(b, a)
    if step != 1: d = R.idiv(R.add(d, step - 1), step)
    if R.is_sym(d):
        d = canon_int(d)
        if R.is_sym(d) and not c.entails(R.ge(d, 0)):
            if c.branch(R.lt(d, 0)): d = 0
    else: d = builtins.max(d, 0)
    return a, d, step

def canon_int(d):
    """small canonical form, so that equal dims print equal"""
    if not R.is_sym(d): return d
    try: return R.val(cur().P.NM.canon(d))
    except Unsupported: return d

def reader_of(v):
    """value -> (reader, shape)"""
    if isinstance(v, Arr): return v.reader(), v._shape
    r = unwrap(v)
    if r is not None: return (lambda idx: r), ()
    if isinstance(v, (list, tuple)):
        a = asarr("numpy", v)
        return a.reader(), a._shape
    raise Unsupported(f"cannot use {type(v).__name__} as array value")

def value_dtype(v):
    if isinstance(v, Arr): return v.st.dtype
    if isinstance(v, MaskSel): return v.dtype
    k = R.kind(unwrap(v))
    return {'b': "bool", 'i': "int64", 'r': "float32"}[k]

def promote(a, b, lib):
    da, db = value_dtype(a), value_dtype(b)
    def isscalar(x): return not isinstance(x, Arr) or (lib == "torch" and len(x._shape) == 0)
    sa, sb = isscalar(a), isscalar(b)
    if sa != sb:
        arr, sc = (db, da) if sa else (da, db)
        ka, ks = dkind(arr), dkind(sc)
        order = "bir"
        if order.index(ks) <= order.index(ka): return arr
        return ("float64" if lib == "numpy" else "float32") if ks == 'r' else "int64"
    if dkind(da) == dkind(db): return da if _RANK[da] >= _RANK[db] else db
    r = da if _RANK[da] >= _RANK[db] else db
    if lib == "numpy" and dkind(r) == 'r' and not (sa and sb): 
        return r
    return r

def binop(a, o, f, swap=False, bool_=False, fl=False):
    if not isinstance(o, Arr):
        if isinstance(o, (list, tuple)): o = asarr(a.lib, o)
        elif unwrap(o) is None: return NotImplemented
    lib = a.lib
    if isinstance(o, Arr) and o.lib != lib:
        lib = "torch" if "torch" in (a.lib, o.lib) else a.lib
    r1, s1 = a.reader(), a._shape
    r2, s2 = reader_of(o)
    out = bshape(s1, s2)
    g1, g2 = breader(r1, s1, out), breader(r2, s2, out)
    dt = "bool" if bool_ else promote(a, o, lib)
    if fl and dkind(dt) != 'r': dt = "float64" if lib == "numpy" else "float32"
    if dt == "bool" and not bool_: dt = "int64"
    if swap: fn = lambda idx: f(g2(idx), g1(idx))
    else: fn = lambda idx: f(g1(idx), g2(idx))
    fn2 = (lambda idx: cast(fn(idx), dt)) if dkind(dt) == 'r' else fn
    if lib == "numpy" and out == (): return wrap_np_scalar(fn2(()), dt)
    return mk(lib, out, fn2, dt)

class MaskSel:
    """a[mask]: selection of unknown length"""
    def __init__(self, lib, shape, read, mask, dtype):
        self.lib, self.full, self.read, self.mask, self.dtype = lib, shape, read, mask, dtype
    def _b(f, swap=False):
        def g(self, o):
            if isinstance(o, MaskSel):
                same_mask(self.mask, o.mask, self.full)
                r2 = o.read
            else:
                r, s = reader_of(o)
                if s != () and not builtins.all(dim_is1(d) for d in s): raise Unsupported("masked selection with array")
                r2 = lambda idx: r((0,) * len(s))
            r1 = self.read
            return MaskSel(self.lib, self.full, (lambda idx: f(r2(idx), r1(idx))) if swap else
                           (lambda idx: f(r1(idx), r2(idx))), self.mask, self.dtype)
        return g
    __add__, __radd__ = _b(R.add), _b(R.add, True)
    __sub__, __rsub__ = _b(R.sub), _b(R.sub, True)
    __mul__, __rmul__ = _b(R.mul), _b(R.mul, True)
    __truediv__, __rtruediv__ = _b(R.div), _b(R.div, True)
    __pow__ = _b(R.pow_)
    __iadd__, __isub__, __imul__, __itruediv__ = __add__, __sub__, __mul__, __truediv__
    def count(self):
        return reduce_sum(lambda idx: R.ite(self.mask(idx), 1, 0), self.full)
    def sum(self, *a, **k):
        r = reduce_sum(lambda idx: R.ite(self.mask(idx), R.to_real(self.read(idx)), Fraction(0)), self.full)
        return mk(self.lib, (), lambda _: r, "float32") if self.lib == "torch" else wrap(r)
    def mean(self, *a, **k): 
        r = R.div(unwrap(self.sum()), R.to_real(self.count()))
        return mk(self.lib, (), lambda _: r, "float32") if self.lib == "torch" else wrap(r)
    def numel(self): return wrap(R.trunc(self.count()))
    @property
    def shape(self): return (self.numel(),)
    def __len__(self): raise Unsupported("len of masked selection")
    def __getattr__(self, n): raise Unsupported(f"masked selection .{n}")

def same_mask(m1, m2, shape):
    c = cur()
    idx = tuple(R.fresh_int("m") for _ in shape)
    rng = [R.and_(R.ge(i, 0), R.lt(i, d)) for i, d in zip(idx, shape)]
    st, _, _ = c.P.prove(c.assumed + rng, R.eq(R.truth(m1(idx)), R.truth(m2(idx))), 2000)
    if st != "proved": raise Unsupported("different boolean masks")

def reduce_sum(fn, shape):
    def rec(d, pre):
        if d == len(shape): return fn(tuple(pre))
        return N.sum_(shape[d], lambda v: rec(d + 1, pre + [v]))
    return rec(0, [])

# ---- construction
def dims(shape):
    """user shape -> tuple of raw dims"""
    if isinstance(shape, (int, S)) : shape = (shape,)
    if isinstance(shape, Arr): shape = list(shape)
    out = []
    for d in shape:
        r = unwrap(d)
        if r is None: raise TypeError(f"bad dimension {d!r}")
        if R.kind(r) == 'r': raise TypeError("'float' object cannot be interpreted as an integer")
        if not R.is_sym(r) and r < 0: raise RuntimeError("negative dimension")
        out.append(r)
    return tuple(out)

def const(lib, shape, r, dtype):
    return mk(lib, shape, lambda idx: r, dtype)

def select(items, i):
    """items: python list of raws, index raw"""
    if not R.is_sym(i): return items[i]
    if not items: raise Unsupported("select from empty")
    r = items[-1]
    for j in range(len(items) - 2, -1, -1): r = R.ite(R.eq(i, j), items[j], r)
    return r

def asarr(lib, v, dtype=None, copy=True):
    if isinstance(v, Arr):
        r = v.reader(); dt = dtype or v.st.dtype
        return mk(lib, v._shape, lambda idx: cast(r(idx), dt), dt)
    if isinstance(v, MaskSel): raise Unsupported("array from masked selection")
    sym = getattr(v, "__vc_symseq__", None)
    if sym is not None:
        s = sym()
        if s is not None:
            n, f = s
            q, c = R.fresh_int("p"), cur()
            saved = c.assumed, c._cache
            c.assumed, c._cache = c.assumed + [R.and_(R.ge(q, 0), R.lt(q, n))], dict(c._cache)
            try: probe = f(q)
            finally: c.assumed, c._cache = saved
            pr, ps = reader_of(probe)
            def fn(idx):
                r, s2 = reader_of(f(idx[0]))
                return r(idx[1:])
            dt = dtype or (value_dtype(probe) if isinstance(probe, Arr) else
                           {'b': "bool", 'i': "int64", 'r': "float64" if lib == "numpy" else "float32"}[R.kind(unwrap(probe))])
            return mk(lib, (n,) + tuple(ps), lambda idx: cast(fn(idx), dt), dt)
    if isinstance(v, (list, tuple)) or hasattr(v, "__vc_seq__"):
        v = list(v) if not hasattr(v, "__vc_seq__") else list(v.__vc_seq__())
        if not v:
            dt = dtype or ("float64" if lib == "numpy" else "float32")
            return mk(lib, (0,), lambda idx: Fraction(0), dt)
        subs = [asarr(lib, x) if isinstance(x, (list, tuple, Arr)) else x for x in v]
        if isinstance(subs[0], Arr):
            sh = subs[0]._shape
            rs = []
            dts = []
            for s in subs:
                if not isinstance(s, Arr): raise ValueError("ragged nested sequence")
                if len(s._shape) != len(sh) or not builtins.all(dim_eq(a, b) for a, b in zip(s._shape, sh)):
                    raise ValueError("expected sequence of equal lengths")
                rs.append(s.reader()); dts.append(s.st.dtype)
            dt = dtype or builtins.max(dts, key=lambda d: _RANK[d])
            return mk(lib, (len(v),) + sh, lambda idx: select([cast(r(idx[1:]), dt) for r in rs], idx[0])
                      if R.is_sym(idx[0]) else cast(rs[idx[0]](idx[1:]), dt), dt)
        rws = []
        for x in subs:
            r = unwrap(x)
            if r is None: raise Unsupported(f"array from {type(x).__name__}")
            rws.append(r)
        ks = {R.kind(r) for r in rws}
        dt = dtype or (("float64" if lib == "numpy" else "float32") if 'r' in ks else "int64" if 'i' in ks else "bool")
        rws = [cast(r, dt) for r in rws]
        return mk(lib, (len(rws),), lambda idx: select(rws, idx[0]), dt)
    r = unwrap(v)
    if r is None: raise Unsupported(f"array from {type(v).__name__}")
    dt = dtype or {'b': "bool", 'i': "int64", 'r': "float64" if lib == "numpy" else "float32"}[R.kind(r)]
    r = cast(r, dt)
    return mk(lib, (), lambda idx: r, dt)

# ---- shape manipulation
def _strip(shape): return [i for i, d in enumerate(shape) if not dim_is1(d)]

def reshape(a, shape):
    shape = list(shape)
    src = list(a._shape)
    raws = [unwrap(d) for d in shape]
    neg = [i for i, d in enumerate(raws) if not R.is_sym(d) and d == -1]
    if len(neg) > 1: raise RuntimeError("only one dimension can be inferred")
    if neg:
        rest = [d for i, d in enumerate(raws) if i != neg[0]]
        raws[neg[0]] = infer_dim(src, rest)
    raws = [canon_int(d) for d in raws]
    src_nz, dst_nz = _strip(src), _strip(raws)
    same = len(src_nz) == len(dst_nz) and builtins.all(
        dims_same(src[i], raws[j]) for i, j in zip(src_nz, dst_nz))
    if same:
        def fwd(idx):
            out = [0] * len(src)
            for i, j in zip(src_nz, dst_nz): out[i] = idx[j]
            return tuple(out)
        def inv(b):
            out = [0] * len(raws)
            for i, j in zip(src_nz, dst_nz): out[j] = b[i]
            return True, tuple(out)
    else:
        ps, pd = prod(src), prod(raws)
        if not (R.is_sym(ps) or R.is_sym(pd)):
            if ps != pd: raise RuntimeError(f"shape {shape} is invalid for input of size {ps}")
        elif not cur().branch(R.eq(ps, pd)):
            raise RuntimeError("shape is invalid for input size")
        fwd = lambda idx: unflatten(flatten(idx, raws), src)
        inv = lambda b: (True, unflatten(flatten(b, src), raws))
        if len(raws) == 1:
            out = compose(a, tuple(raws), fwd, inv); out.flat_of = a      # the same cells, as a row
            return out
    return compose(a, tuple(raws), fwd, inv)

def dims_same(x, y):
    if not R.is_sym(x) and not R.is_sym(y): return x == y
    return bool(cur().entails(R.eq(x, y)))

def prod(ds):
    n = 1
    for d in ds: n = R.mul(n, d)
    return canon_int(n)

def infer_dim(src, rest):
    s = list(src)
    r2 = []
    for d in rest:
        for i, x in enumerate(s):
            if (R.is_sym(x) and R.is_sym(d) and x.eq(d)) or (not R.is_sym(x) and not R.is_sym(d) and x == d):
                s.pop(i); break
        else:
            if not dim_is1(d): r2.append(d)
    n, m = prod(s), prod(r2)
    if not R.is_sym(m) and m == 1: return n
    return R.idiv(n, m)

def flatten(idx, shape):
    n = 0
    for i, d in zip(idx, shape):
        n = R.add(R.mul(n, d), i)
    return n

def unflatten(n, shape):
    out = []
    for k in range(len(shape) - 1, -1, -1):
        d = shape[k]
        if k == 0: out.append(n)
        else:
            q, r = smart_divmod(n, d)
            out.append(r); n = q
    return tuple(reversed(out))

def smart_divmod(n, d):
    if not R.is_sym(d) and d == 1: return n, 0
    if not R.is_sym(n) and not R.is_sym(d): return divmod(n, d)
    # n = q*d + r with 0<=r<d entailed
    nm = cur().P.NM
    try:
        p = nm.poly(n)
        if R.is_sym(d):
            pd = nm.poly(d)
            if len(pd) == 1 and list(pd.values()) == [1]:
                dm = dict(list(pd)[0])
                q, r = {}, {}
                for m, c in p.items():
                    dmm = dict(m)
                    if builtins.all(dmm.get(i, 0) >= e for i, e in dm.items()):
                        for i, e in dm.items():
                            dmm[i] -= e
                            if not dmm[i]: del dmm[i]
                        q[tuple(sorted(dmm.items()))] = c
                    else: r[m] = c
                qt, rt = R.val(nm.term(q, R.INT)), R.val(nm.term(r, R.INT))
                if cur().entails(R.and_(R.ge(rt, 0), R.lt(rt, d))): return qt, rt
        else:
            q = {m: c / d for m, c in p.items() if (c / d).denominator == 1}
            r = {m: c for m, c in p.items() if m not in q}
            qt, rt = R.val(nm.term(q, R.INT)), R.val(nm.term(r, R.INT))
            if cur().entails(R.and_(R.ge(rt, 0), R.lt(rt, d))): return qt, rt
    except Unsupported: pass
    if not R.is_sym(n) and R.is_sym(d):
        if cur().entails(R.lt(n, d)) and n >= 0: return 0, n
    q = z3.Int(R.fresh_name("q"))
    return R.idiv(n, d), R.imod(n, d)

def compose(a, shape, fwd, inv):
    m0, i0 = a.m, a.inv
    if m0 is None: return view_of(a, shape, fwd, inv)
    m = lambda idx: m0(fwd(idx))
    if i0 is None or inv is None: i2 = None
    else:
        def i2(s):
            c1, b = i0(s)
            c2, o = inv(b)
            return R.and_(c1, c2), o
    return view_of(a, shape, m, i2)

def transpose(a, perm):
    perm = tuple(perm)
    n = len(a._shape)
    perm = tuple(p % n for p in perm)
    shape = tuple(a._shape[p] for p in perm)
    def fwd(idx):
        out = [None] * n
        for j, p in enumerate(perm): out[p] = idx[j]
        return tuple(out)
    def inv(b): return True, tuple(b[p] for p in perm)
    return compose(a, shape, fwd, inv)

def unsqueeze(a, d):
    n = len(a._shape) + 1
    d %= n
    sh = a._shape[:d] + (1,) + a._shape[d:]
    return compose(a, sh, lambda i: i[:d] + i[d + 1:], lambda b: (True, b[:d] + (0,) + b[d:]))

def squeeze(a, d=None):
    if d is None:
        keep = []
        for i, x in enumerate(a._shape):
            if R.is_sym(x):
                if not cur().branch(R.eq(x, 1)): keep.append(i)
            elif x != 1: keep.append(i)
    else:
        ds = [d] if not isinstance(d, (tuple, list)) else d
        ds = [x % len(a._shape) for x in ds]
        keep = [i for i in range(len(a._shape)) if i not in ds or not dim_eq(a._shape[i], 1)]
    def fwd(idx):
        out = [0] * len(a._shape)
        for j, i in enumerate(keep): out[i] = idx[j]
        return tuple(out)
    return compose(a, tuple(a._shape[i] for i in keep), fwd, lambda b: (True, tuple(b[i] for i in keep)))

def cat_list(lib, ts, d):
    """cat of a list of symbolic length whose elements all have the same constant size along d"""
    n, f = ts.__vc_symseq__()
    st = asarr(lib, ts)
    es = list(st._shape[1:]); k = len(es)
    if k == 0: raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    if not -k <= d < k: raise IndexError("Dimension out of range")
    d %= k
    c = canon_int(es[d])
    if R.is_sym(c) or c == 0: raise Unsupported("cat of a list of symbolic length: size of the elements")
    if not cur().branch(R.gt(n, 0)): raise (RuntimeError if lib == "torch" else ValueError)("expected a non-empty list")
    for j, e in enumerate(es):
        if R.is_sym(e) and "p!" in str(e): raise Unsupported("cat of elements of varying sizes")
    r = st.reader()
    def fn(idx):
        q, t = (idx[d], 0) if c == 1 else smart_divmod(idx[d], c)
        return r((q,) + tuple(idx[:d]) + (t,) + tuple(idx[d + 1:]))
    sh = es[:d] + [canon_int(R.mul(n, c))] + es[d + 1:]
    return mk(lib, tuple(sh), fn, st.st.dtype)

def cat(lib, arrs, d):
    arrs = [x if isinstance(x, Arr) else asarr(lib, x) for x in arrs]
    arrs2 = [x for x in arrs if not (len(x._shape) == 1 and is0(x._shape[0]))] if lib == "torch" else arrs
    if not arrs2: return arrs[0]
    n = len(arrs2[0]._shape)
    if n == 0: raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    if not -n <= d < n: raise IndexError("Dimension out of range")
    d %= n
    sh = list(arrs2[0]._shape)
    for x in arrs2[1:]:
        if len(x._shape) != n: raise (RuntimeError if lib == "torch" else ValueError)("Tensors must have same number of dimensions")
        for j in range(n):
            if j != d and not dim_eq(sh[j], x._shape[j]):
                raise (RuntimeError if lib == "torch" else ValueError)("Sizes of tensors must match except in dimension")
    offs, tot = [], 0
    for x in arrs2:
        offs.append(tot); tot = R.add(tot, x._shape[d])
    sh[d] = canon_int(tot)
    rs = [x.reader() for x in arrs2]
    dts = [x.st.dtype for x in arrs2]
    dt = builtins.max(dts, key=lambda t: _RANK[t])
    def fn(idx):
        i = idx[d]
        res = None
        for k in range(len(rs) - 1, -1, -1):
            sub_ = idx[:d] + (canon_small(R.sub(i, offs[k])),) + idx[d + 1:]
            if not R.is_sym(i) and not R.is_sym(offs[k]) and not R.is_sym(arrs2[k]._shape[d]):
                if offs[k] <= i < offs[k] + arrs2[k]._shape[d]: return cast(rs[k](sub_), dt)
                continue
            if R.is_sym(i) or R.is_sym(offs[k]):
                if res is None:
                    res = cast(rs[k](sub_), dt) if k or True else res
                else: res = R.ite(R.lt(i, R.add(offs[k], arrs2[k]._shape[d])), cast(rs[k](sub_), dt), res)
            else:
                v = cast(rs[k](sub_), dt)
                res = v if res is None else R.ite(R.lt(i, R.add(offs[k], arrs2[k]._shape[d])), v, res)
        if res is None: return {'r': R.fresh_real, 'i': R.fresh_int, 'b': R.fresh_bool}[dkind(dt)]("oob")      # outside the array: only in branches not taken
        return res
    return mk(lib, tuple(sh), fn, dt)

def canon_small(r):
    if not R.is_sym(r): return r
    return canon_int(r)

def stack(lib, arrs, d=0):
    arrs = [x if isinstance(x, Arr) else asarr(lib, x) for x in arrs]
    return cat(lib, [unsqueeze(x, d) for x in arrs], d)

def expand(a, shape):
    shape = list(shape)
    off = len(shape) - len(a._shape)
    out = []
    for j, d in enumerate(shape):
        r = unwrap(d)
        if not R.is_sym(r) and r == -1: r = a._shape[j - off]
        out.append(r)
    r = a.reader()
    return view_of2(a, out)
def view_of2(a, out):
    r = breader(a.reader(), a._shape, tuple(out))
    return mk(a.lib, tuple(out), r, a.st.dtype)

def flip(a, ds):
    if not isinstance(ds, (list, tuple)): ds = [ds]
    n = len(a._shape); ds = [d % n for d in ds]
    f = lambda idx: tuple(R.sub(R.sub(a._shape[j], 1), i) if j in ds else i for j, i in enumerate(idx))
    r = a.reader()
    return mk(a.lib, a._shape, lambda idx: r(f(idx)), a.st.dtype)

def roll(a, shifts, ds):
    if not isinstance(shifts, (list, tuple)): shifts, ds = [shifts], [ds]
    n = len(a._shape)
    sh = {d % n: unwrap(s) for s, d in zip(shifts, ds)}
    r = a.reader()
    def f(idx): return tuple(R.wrap(R.sub(i, sh[j]), a._shape[j]) if j in sh else i for j, i in enumerate(idx))
    return mk(a.lib, a._shape, lambda idx: r(f(idx)), a.st.dtype)

def pad(a, pads, mode="constant", value=0):
    """pads: list per dim of (before, after)"""
    n = len(a._shape)
    r = a.reader()
    sh = tuple(canon_int(R.add(d, R.add(p[0], p[1]))) for d, p in zip(a._shape, pads))
    v = unwrap(value)
    def fn(idx):
        conds, src = [], []
        for i, d, p in zip(idx, a._shape, pads):
            if is0(p[0]) and is0(p[1]):
                src.append(i); continue
            j = canon_small(R.sub(i, p[0]))
            if mode == "circular": src.append(R.wrap(j, d))
            elif mode in ("replicate", "edge"): src.append(R.mx(0, R.mn(j, R.sub(d, 1))))
            else:
                src.append(j); conds += [R.ge(j, 0), R.lt(j, d)]
        if mode == "constant": return R.ite(R.and_(*conds), r(tuple(src)), cast(v, a.st.dtype))
        if mode in ("circular", "replicate", "edge"): return r(tuple(src))
        raise Unsupported(f"pad mode {mode}")
    return mk(a.lib, sh, fn, a.st.dtype)

# ---- reductions
def red_axes(a, d):
    n = len(a._shape)
    if d is None: return list(range(n))
    if isinstance(d, (list, tuple)): return [x % n for x in d]
    d = unwrap(d)
    if n == 0: return []
    if not -n <= d < n: raise IndexError("Dimension out of range")
    return [d % n]

def reduce_generic(a, d, keep, comb, dtype):
    ax = red_axes(a, d)
    rest = [i for i in range(len(a._shape)) if i not in ax]
    r = a.reader()
    sh = tuple((1 if i in ax else a._shape[i]) for i in range(len(a._shape))) if keep else tuple(a._shape[i] for i in rest)
    axs = [a._shape[i] for i in ax]
    def fn(idx):
        def body(vs):
            full = [None] * len(a._shape)
            for i, v in zip(ax, vs): full[i] = v
            for j, i in enumerate(rest): full[i] = idx[i] if keep else idx[j]
            return r(tuple(full))
        return comb(axs, body)
    if a.lib == "numpy" and sh == (): return wrap_np_scalar(fn(()), dtype)
    return mk(a.lib, sh, fn, dtype)

def c_sum(axs, body):
    v = reduce_sum(lambda vs: R.to_real(body(vs)), axs)
    return v
def arr_sum(a, d=None, keep=False, dtype=None):
    isint = a.kd in 'ib'
    def comb(axs, body):
        s = c_sum(axs, body)
        return R.intval(s) if isint else s
    return reduce_generic(a, d, keep, comb, "int64" if isint else a.st.dtype)
def arr_mean(a, d=None, keep=False):
    if a.lib == "torch" and a.kd != 'r': raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype")
    def comb(axs, body): return R.div(c_sum(axs, body), R.to_real(prod(axs)))
    return reduce_generic(a, d, keep, comb, a.st.dtype if a.kd == 'r' else "float64")
def arr_var(a, d=None, keep=False, ddof=0, root=False):
    def comb(axs, body):
        n = R.to_real(prod(axs))
        mu = R.div(c_sum(axs, body), n)
        def sq(vs):
            e = R.sub(R.to_real(body(vs)), mu)
            return R.mul(e, e)
        v = R.div(reduce_sum(sq, axs), R.sub(n, ddof))
        return R.sqrt_(v) if root else v
    return reduce_generic(a, d, keep, comb, a.st.dtype if a.kd == 'r' else "float64")
def arr_prod(a, d=None, keep=False):
    def comb(axs, body):
        n = prod(axs)
        if R.is_sym(n) or n > 64: raise Unsupported("prod over symbolic size")
        t = 1
        for vs in itertools.product(*[range(x) for x in axs]): t = R.mul(t, body(vs))
        return t
    return reduce_generic(a, d, keep, comb, a.st.dtype)

def extremum(name, axs, body, sort_r=True):
    n = prod(axs)
    if not R.is_sym(n):
        if n == 0: raise (ValueError if True else RuntimeError)("zero-size array to reduction operation which has no identity")
        if n <= N.EXPAND:
            f = R.mn if name == "MIN" else R.mx
            t = None
            for vs in itertools.product(*[range(x) for x in axs]):
                v = body(vs); t = v if t is None else f(t, v)
            return t
    # drop unit axes
    vs = [0 if dim_is1(x) else R.fresh_int("mv") for x in axs]
    bs = [(v, x) for v, x in zip(vs, axs) if not dim_is1(x)]
    b = R.to_real(body(tuple(vs)))
    if not R.is_sym(b): return b
    if not builtins.any(N.mentions(b, v) for v, _ in bs): return b
    try: b = cur().P.NM.canon(b)
    except Unsupported: pass
    # an extremum of extrema over ranges that do not depend on the index is the extremum over the product
    if z3.is_app(b) and b.decl().name()[:3] == name and b.decl().name()[3:].isdigit() and z3.is_quantifier(b.arg(0)) \
            and not builtins.any(N.mentions(d, v) for d in b.children()[1:] for v, _ in bs):
        ws = [R.fresh_int("mv") for _ in b.children()[1:]]
        bs = bs + [(w, R.val(d)) for w, d in zip(ws, b.children()[1:])]
        b = z3.substitute_vars(b.arg(0).body(), *reversed(ws))
    k = len(bs)
    fsym = z3.Function(f"{name}{k}", z3.ArraySort(*([R.INT] * k), R.REAL), *([R.INT] * k), R.REAL)
    try: b = cur().P.NM.canon(b)
    except Unsupported: pass
    t = fsym(z3.Lambda([v for v, _ in bs], b), *[R.z(x) for _, x in bs])
    cur().ghost.setdefault("extrema", {})[t.get_id()] = t
    return t
def extremum_facts(t, idx):
    """the definition of the minima and maxima inside t, instantiated at idx (an index inside their range)"""
    out, seen, st = [], set(), [R.z(t)] if R.is_sym(t) else []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            nm = x.decl().name()
            if nm[:3] in ("MIN", "MAX") and nm[3:].isdigit() and int(nm[3:]) == len(idx):
                b = z3.substitute_vars(x.arg(0).body(), *reversed([R.z(i) for i in idx]))
                out.append(b >= x if nm[:3] == "MIN" else b <= x)
                st.append(b)
            st.extend(x.children())
    return out
def arr_min(a, d=None, keep=False):
    return reduce_generic(a, d, keep, lambda axs, body: cast(extremum("MIN", axs, body), a.st.dtype if a.kd != 'b' else "int64"), a.st.dtype)
def arr_max(a, d=None, keep=False):
    return reduce_generic(a, d, keep, lambda axs, body: cast(extremum("MAX", axs, body), a.st.dtype if a.kd != 'b' else "int64"), a.st.dtype)

def quant(axs, body, forall):
    n = prod(axs)
    if not R.is_sym(n) and n <= N.EXPAND:
        vs = [R.truth(body(v)) for v in itertools.product(*[range(x) for x in axs])]
        return R.and_(*vs) if forall else R.or_(*vs)
    cnt = reduce_sum(lambda vs: R.ite(R.truth(body(vs)), Fraction(1), Fraction(0)), axs)
    return R.eq(cnt, R.to_real(n)) if forall else R.gt(cnt, 0)
def arr_all(a, d=None, keep=False): return reduce_generic(a, d, keep, lambda x, b: quant(x, b, True), "bool")
def arr_any(a, d=None, keep=False): return reduce_generic(a, d, keep, lambda x, b: quant(x, b, False), "bool")

def matmul(a, b):
    if not isinstance(b, Arr): b = asarr(a.lib, b)
    ra, rb = a.reader(), b.reader()
    na, nb = len(a._shape), len(b._shape)
    if na == 0 or nb == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    ka, kb = a._shape[-1], b._shape[-2] if nb > 1 else b._shape[0]
    if not dim_eq(ka, kb): raise (RuntimeError if a.lib == "torch" else ValueError)("matmul: size mismatch")
    dt = promote(a, b, a.lib)
    if na == 1 and nb == 1:
        v = N.sum_(ka, lambda k: R.mul(ra((k,)), rb((k,))))
        return mk(a.lib, (), lambda _: v, dt) if a.lib == "torch" else wrap(v)
    if na == 2 and nb == 2:
        return mk(a.lib, (a._shape[0], b._shape[1]), lambda i: N.sum_(ka, lambda k: R.mul(ra((i[0], k)), rb((k, i[1])))), dt)
    if na == 1 and nb == 2:
        return mk(a.lib, (b._shape[1],), lambda i: N.sum_(ka, lambda k: R.mul(ra((k,)), rb((k, i[0])))), dt)
    if na == 2 and nb == 1:
        return mk(a.lib, (a._shape[0],), lambda i: N.sum_(ka, lambda k: R.mul(ra((i[0], k)), rb((k,)))), dt)
    if na > 2 and nb == 2:
        return mk(a.lib, a._shape[:-1] + (b._shape[1],), lambda i: N.sum_(ka, lambda k: R.mul(ra(tuple(i[:-1]) + (k,)), rb((k, i[-1])))), dt)
    if na == nb:
        bs = bshape(a._shape[:-2], b._shape[:-2])
        ga = lambda i, j: breader(lambda q: ra(q), a._shape, tuple(bs) + a._shape[-2:])(tuple(i) + j)
        gb = lambda i, j: breader(lambda q: rb(q), b._shape, tuple(bs) + b._shape[-2:])(tuple(i) + j)
        return mk(a.lib, tuple(bs) + (a._shape[-2], b._shape[-1]),
                  lambda i: N.sum_(ka, lambda k: R.mul(ga(i[:-2], (i[-2], k)), gb(i[:-2], (k, i[-1])))), dt)
    raise Unsupported("matmul ranks")

def fancy_get(a, items):
    fs = [(i, it) for i, it in enumerate(items) if isinstance(it, Arr) and len(it._shape) > 0]
    if builtins.any(it is None for it in items): raise Unsupported("fancy + None")
    if len(fs) == 1 and len(fs[0][1]._shape) == 1:
        p, ix = fs[0]
        ir = ix.reader()
        pre = [it for i, it in enumerate(items) if i != p]
        if builtins.all(isinstance(it, slice) and it == slice(None) for it in pre):
            r = a.reader()
            sh = a._shape[:p] + (ix._shape[0],) + a._shape[p + 1:]
            dm = a._shape[p]
            def fn(idx):
                j = ir((idx[p],))
                if not R.is_sym(j):
                    if j < 0: j = R.add(j, dm)
                elif not cur().entails(R.ge(j, 0)): j = R.ite(R.lt(j, 0), R.add(j, dm), j)
                return r(idx[:p] + (j,) + idx[p + 1:])
            return mk(a.lib, sh, fn, a.st.dtype)
        # resolve the plain parts first
        b = a[tuple(slice(None) if i == p else it for i, it in enumerate(items))]
        pos = p - sum(1 for it in items[:p] if not isinstance(it, slice))
        return b[tuple([slice(None)] * pos + [ix])]
    if len(fs) == len(items):
        irs = [it.reader() for _, it in fs]
        shs = bshape(*[it._shape for _, it in fs])
        brs = [breader(r, it._shape, shs) for r, (_, it) in zip(irs, fs)]
        r = a.reader()
        def fn(idx):
            js = []
            for q, b in enumerate(brs):
                j = b(idx)
                if not R.is_sym(j):
                    if j < 0: j = R.add(j, a._shape[q])
                elif not cur().entails(R.ge(j, 0)): j = R.ite(R.lt(j, 0), R.add(j, a._shape[q]), j)
                js.append(j)
            return r(tuple(js))
        return mk(a.lib, shs, fn, a.st.dtype)
    raise Unsupported("fancy indexing pattern")

def fancy_set(a, items, v):
    raise Unsupported("fancy assignment")
