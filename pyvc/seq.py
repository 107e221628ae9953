"""Sequences of symbolic length."""
import builtins
from fractions import Fraction
from . import raw as R, core as C, arr as A
from .core import S, wrap, unwrap, cur
from .raw import Unsupported

class Poison:
    """value that the verifier could not summarise: any use is Unsupported"""
    def __init__(self, why): self.__dict__["why"] = why
    def _p(self, *a, **k): raise Unsupported(f"use of unsummarised value: {self.why}")
    __getitem__ = __setitem__ = __iter__ = __len__ = __call__ = __add__ = __radd__ = __mul__ = __rmul__ = __bool__ = _p
    __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __index__ = __float__ = __int__ = _p
    __hash__ = object.__hash__
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        self._p()

class SymIter:
    """an iterable with n (raw, possibly symbolic) items; item(k) for raw k"""
    def __init__(self, n, item): self.n, self.item = n, item
    def __vc_symseq__(self): return self.n, self.item
    def __iter__(self): raise Unsupported("native iteration over a symbolic sequence")
    def __getitem__(self, k): return self.item(unwrap(k))

class SRange(SymIter):
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step
        SymIter.__init__(self, A.canon_int(C.srange_len(a, b, step)), lambda k: wrap(R.add(a, R.mul(k, step))))

def either(c, a, b):
    """item a() where c holds and b() elsewhere"""
    ctx = cur()
    if c is True or ctx.entails(c): return a()
    if c is False or ctx.entails(R.not_(c)): return b()
    def under(q, f):
        saved = ctx.assumed, ctx._cache
        ctx.assumed, ctx._cache = ctx.assumed + [q], dict(ctx._cache)
        k = len(ctx.assumed)
        try:
            v = f()
            # decisions taken on the way stay decided where q holds
            kept.extend(R.implies(q, e) for e in ctx.assumed[k:])
            return v
        finally: ctx.assumed, ctx._cache = saved
    kept = []
    try: x, y = under(c, a), under(R.not_(c), b)
    except IndexError: x = y = None
    for e in kept: ctx.assume(e)
    if x is not None:
        if not isinstance(x, A.Arr) and not isinstance(y, A.Arr):
            rx, ry = unwrap(x), unwrap(y)
            if rx is not None and ry is not None: return wrap(R.ite(c, rx, ry))
        elif isinstance(x, A.Arr) and isinstance(y, A.Arr) and x.lib == y.lib and x.st.dtype == y.st.dtype and len(x._shape) == len(y._shape) \
                and all(A.dim_eq(p, q) for p, q in zip(x._shape, y._shape)):
            fx, fy = x.reader(), y.reader()
            r = A.mk(x.lib, x._shape, lambda i: R.ite(c, fx(i), fy(i)), x.st.dtype)
            r.st.frozen = True
            return r
    return a() if ctx.branch(c) else b()

def note_list(l):
    for j in C.JOURNALS: j.note_list(l)

def storages(x, out):
    """the storages (and objects) reachable from x"""
    if id(x) in out: return out
    if isinstance(x, A.Arr): out[id(x.st)] = x.st
    elif isinstance(x, dict):
        for v in x.values(): storages(v, out)
    elif isinstance(x, (builtins.list, tuple)):
        for v in x: storages(v, out)
    elif hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x) or hasattr(x, "forward"):
        out[id(x)] = x
        for v in x.__dict__.values(): storages(v, out)
    return out
class VList(builtins.list):
    """python list; when `pre` is set, a symbolic prefix (n, item) precedes the concrete items"""
    __slots__ = ("pre",)
    def __init__(self, it=()):
        self.pre = None
        for j in C.JOURNALS: j.note_new(self)
        builtins.list.__init__(self, it)
    @classmethod
    def sym(cls, n, item):
        v = cls(); v.pre = (n, memo1(item)); return v
    def __vc_symseq__(self):
        if self.pre is None: return None
        return self.length(), self.item
    def rawlist(self): return [builtins.list.__getitem__(self, i) for i in range(builtins.list.__len__(self))]
    def length(self):
        n = builtins.list.__len__(self)
        return n if self.pre is None else A.canon_int(R.add(self.pre[0], n))
    def item(self, k):
        n0 = 0
        if self.pre is not None:
            n0 = self.pre[0]
            if builtins.list.__len__(self) == 0: return self.pre[1](k)
            p = self.pre[1]
            return either(R.lt(k, n0), lambda: p(k), lambda: self.tail(A.canon_int(R.sub(k, n0))))
        return self.tail(k)
    def tail(self, k):
        L = builtins.list.__len__(self)
        if not R.is_sym(k): return builtins.list.__getitem__(self, k)
        vals = self.rawlist()
        if all(not isinstance(v, A.Arr) and unwrap(v) is not None for v in vals):
            return wrap(A.select([unwrap(v) for v in vals], k))
        for i in range(L - 1):
            if cur().branch(R.eq(k, i)): return vals[i]
        return vals[L - 1]
    def __len__(self):
        if self.pre is not None: raise Unsupported("len of a symbolic list in native code")
        return builtins.list.__len__(self)
    def __bool__(self):
        n = self.length()
        return n > 0 if not R.is_sym(n) else cur().branch(R.gt(n, 0))
    def __iter__(self):
        if self.pre is not None: raise Unsupported("native iteration over a symbolic list")
        return builtins.list.__iter__(self)
    def __getitem__(self, k):
        if isinstance(k, slice) or isinstance(k, A.SliceV):
            sym = self.pre is not None or any(x is not None and R.is_sym(unwrap(x)) for x in (k.start, k.stop, k.step))
            if not sym:
                f = lambda x: None if x is None else int(unwrap(x))
                return VList(builtins.list.__getitem__(self, slice(f(k.start), f(k.stop), f(k.step))))
            st, n, step = A.norm_slice(slice(k.start, k.stop, k.step), self.length())
            me = self.copy()
            return VList.sym(n, lambda i: me.item(A.canon_int(R.add(st, R.mul(i, step)))))
        r = unwrap(k)
        if r is None: raise TypeError("list indices must be integers or slices")
        if R.kind(r) == 'r': raise TypeError("list indices must be integers or slices, not float")
        if self.pre is None and not R.is_sym(r): return builtins.list.__getitem__(self, r)
        return self.item(A.norm_index(r, self.length()))
    def __setitem__(self, k, v):
        note_list(self)
        r = unwrap(k) if not isinstance(k, slice) else None
        if self.pre is None and isinstance(k, slice):
            return builtins.list.__setitem__(self, slice(*[None if x is None else int(unwrap(x)) for x in (k.start, k.stop, k.step)]), v)
        if r is None: raise Unsupported("slice assignment to a symbolic list")
        if self.pre is None and not R.is_sym(r): return builtins.list.__setitem__(self, r, v)
        n = self.length()
        r = A.norm_index(r, n)
        old = self.copy()
        def item(i):
            e = R.eq(i, r)
            o = old.item(i) if e is not True else None
            if e is True: return v
            if e is False: return o
            return either(e, lambda: v, lambda: o)
        builtins.list.clear(self)
        self.pre = (n, memo1(item))
    def append(self, v):
        note_list(self); builtins.list.append(self, v)
    def extend(self, vs):
        note_list(self)
        if isinstance(vs, VList) and vs.pre is not None or isinstance(vs, SymIter):
            a, b = self.copy(), (vs.copy() if isinstance(vs, VList) else VList.sym(vs.n, vs.item))
            r = concat(a, b)
            builtins.list.clear(self); self.pre = r.pre
            builtins.list.extend(self, r.rawlist())
        else:
            builtins.list.extend(self, vs.rawlist() if isinstance(vs, VList) else vs)
    def __add__(self, o):
        if not isinstance(o, builtins.list): return NotImplemented
        return concat(self, o if isinstance(o, VList) else VList(o))
    def __radd__(self, o): return concat(VList(o), self)
    def __iadd__(self, o): self.extend(o); return self
    def __mul__(self, k):
        r = unwrap(k)
        if R.is_sym(r):
            if self.pre is None and builtins.list.__len__(self) == 1:
                v = builtins.list.__getitem__(self, 0)
                return VList.sym(C.posdim(r), lambda i: v)
            raise Unsupported("list * symbolic")
        if self.pre is not None: raise Unsupported("symbolic list repetition")
        return VList(self.rawlist() * r)
    __rmul__ = __mul__
    def copy(self):
        v = VList(self.rawlist()); v.pre = self.pre; return v
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo):
        import copy
        v = VList(); memo[id(self)] = v
        if self.pre is not None:
            n, it = self.pre
            # the elements as they are now: copied once, as a function of the index
            from . import loops
            k0 = R.fresh_int("dc")
            try:
                x0 = copy.deepcopy(it(k0)); cp = loops.Copier([], k0, n, storages(x0, {}))
                item = memo1(lambda k: cp.copy(x0, k))
            except Unsupported as e:        # the elements cannot be read here: neither can those of the copy
                why = str(e)
                def item(k): raise Unsupported(why)
            v.pre = (n, item)
        for x in self.rawlist(): builtins.list.append(v, copy.deepcopy(x, memo))
        return v
    def __reduce_ex__(self, p): raise Unsupported("pickle of list")
    def pop(self, *a):
        note_list(self)
        if self.pre is not None: raise Unsupported("pop on symbolic list")
        return builtins.list.pop(self, *a)
    def insert(self, i, v):
        note_list(self)
        if self.pre is not None:
            if unwrap(i) == 0:
                r = concat(VList([v]), self.copy()); builtins.list.clear(self); self.pre = r.pre; builtins.list.extend(self, r.rawlist()); return
            raise Unsupported("insert on symbolic list")
        builtins.list.insert(self, i, v)
    def clear(self): note_list(self); self.pre = None; builtins.list.clear(self)
    def _uns(name):
        def g(self, *a, **k):
            if self.pre is not None: raise Unsupported(f"list.{name} on symbolic list")
            note_list(self)
            return getattr(builtins.list, name)(self, *a, **k)
        return g
    for _n in ("remove", "index", "count", "__contains__", "__delitem__", "sort", "__lt__", "__gt__"):
        locals()[_n] = _uns(_n)
    del _n, _uns
    def reverse(self):
        note_list(self)
        if self.pre is None: return builtins.list.reverse(self)
        me, n = self.copy(), self.length()
        builtins.list.clear(self)
        self.pre = (n, memo1(lambda k: me.item(A.canon_int(R.sub(R.sub(n, 1), k)))))
    def __eq__(self, o):
        if not isinstance(o, builtins.list): return False
        if self.pre is not None or isinstance(o, VList) and o.pre is not None: raise Unsupported("comparison of symbolic lists")
        return builtins.list.__eq__(self, o)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return f"VList({self.pre}, {self.rawlist()})"

def memo1(f):
    m = {}
    def g(k):
        key = A.key(k)
        if key not in m: m[key] = (k, f(k))
        return m[key][1]
    return g

def concat(a, b):
    if b.pre is None:
        r = VList(a.rawlist() + b.rawlist()); r.pre = a.pre; return r
    a, b = a.copy(), b.copy()
    na, nb = a.length(), b.length()
    if not R.is_sym(na) and na == 0: return b
    def item(k):
        return either(R.lt(k, na), lambda: a.item(k), lambda: b.item(A.canon_int(R.sub(k, na))))
    return VList.sym(A.canon_int(R.add(na, nb)), item)
