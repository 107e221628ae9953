"""Runtime names injected into every loaded yuca module."""
import builtins, operator
from fractions import Fraction
from . import raw as R, core as C, arr as A
from .core import S, wrap, unwrap, cur, PathEnd
from .raw import Unsupported
from .seq import VList, SymIter, SRange, Poison
from . import loops as L

# ---- type markers ----------------------------------------------------------
class Marker:
    def __init__(self, name, py, f, kinds): 
        self.__name__ = name; self.__vc_type__ = name; self.py, self.f, self.kinds = py, f, kinds
    def __call__(self, *a, **k): return self.f(*a, **k)
    def __eq__(self, o): return o is self or o is self.py
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return hash(self.py)
    def __repr__(self): return f"<class '{self.__name__}'>"
    def __getattr__(self, n): return getattr(self.py, n)
    def __or__(self, o): return (self, o)

def _scalar(x):
    r = unwrap(x) if not isinstance(x, builtins.str) else None
    return r
def f_int(x=0, *a):
    if isinstance(x, builtins.str): return builtins.int(x, *a)
    r = _scalar(x)
    if r is None: return builtins.int(x)
    return wrap(R.trunc(r))
def f_float(x=0):
    if isinstance(x, builtins.str): return S(Fraction(x)) if "inf" not in x and "nan" not in x else builtins.float(x)
    r = _scalar(x)
    if r is None: return builtins.float(x)
    return wrap(R.to_real(r))
def f_bool(x=False):
    r = _scalar(x) if not isinstance(x, A.Arr) else None
    if isinstance(x, A.Arr): return builtins.bool(x)
    if r is None: return builtins.bool(x)
    return wrap(R.truth(r))
INT = Marker("int", builtins.int, f_int, "i")
FLOAT = Marker("float", builtins.float, f_float, "r")
BOOL = Marker("bool", builtins.bool, f_bool, "b")
def f_list(x=()):
    if isinstance(x, VList): return x.copy()
    it = L.viter(x)
    if isinstance(it, SymIter): return VList.sym(it.n, it.item)
    return VList(it)
LIST = Marker("list", builtins.list, f_list, "")
_mk = {builtins.int: INT, builtins.float: FLOAT, builtins.bool: BOOL, builtins.list: LIST, VList: LIST}

def v_type(*a):
    if len(a) != 1: return builtins.type(*a)
    x = a[0]
    if isinstance(x, S): return {"i": INT, "r": FLOAT, "b": BOOL}[x.k]
    t = builtins.type(x)
    if t is VStr: return builtins.str
    return _mk.get(t, t)
def _flat(t):
    if isinstance(t, tuple):
        for x in t: yield from _flat(x)
    else: yield t
def v_isinstance(x, t):
    for m in _flat(t):
        if isinstance(m, Marker):
            if isinstance(x, S):
                if x.k in m.kinds: return True
            elif isinstance(x, m.py): return True
        elif isinstance(m, builtins.type):
            if m in _mk:
                if v_isinstance(x, _mk[m]): return True
            elif isinstance(x, m): return True
        else:
            if isinstance(x, m): return True
    return False
def v_issubclass(x, t): return issubclass(x, tuple(m.py if isinstance(m, Marker) else m for m in _flat(t)))

# ---- builtins ----------------------------------------------------------------
def v_len(x):
    if isinstance(x, VList): return wrap(x.length())
    if isinstance(x, A.Arr):
        if not x._shape: raise TypeError("len() of a 0-d tensor")
        return wrap(x._shape[0])
    if isinstance(x, SymIter): return wrap(x.n)
    if isinstance(x, VStr): return x.__vc_len__()
    return builtins.len(x)
LONG = 64
def v_range(*a):
    rs = [unwrap(x) for x in a]
    if any(r is None for r in rs): raise TypeError("range() argument")
    if any(R.kind(r) == 'r' for r in rs): raise TypeError("'float' object cannot be interpreted as an integer")
    if not any(R.is_sym(r) for r in rs):
        rg = range(*[builtins.int(r) for r in rs])
        if len(rg) <= LONG: return rg      # longer loops are summarised, not unrolled
    st, sp, sd = (0, rs[0], 1) if len(rs) == 1 else (rs[0], rs[1], 1) if len(rs) == 2 else rs
    return SRange(st, sp, sd)
def v_abs(x): return abs(x)
def _minmax(name, f, bi):
    def g(*a, **k):
        xs = a
        if len(a) == 1:
            if isinstance(a[0], A.Arr) : return (A.arr_min if name == "min" else A.arr_max)(a[0])
            it = L.viter(a[0])
            if isinstance(it, SymIter):
                if k: raise Unsupported(f"{name} with keywords over symbolic sequence")
                v = A.extremum(name.upper(), (it.n,), lambda vs: unwrap(it.item(vs[0])))
                return wrap(v)
            xs = builtins.list(it)
            if not xs:
                if "default" in k: return k["default"]
                raise ValueError(f"{name}() arg is an empty sequence")
        if "key" in k:
            key = k["key"]; best = xs[0]; kb = key(best)
            for x in xs[1:]:
                kx = key(x)
                if builtins.bool((kx < kb) if name == "min" else (kx > kb)): best, kb = x, kx
            return best
        rs = [unwrap(x) for x in xs]
        if any(r is None for r in rs): return bi(*xs)
        r = rs[0]
        for y in rs[1:]: r = f(r, y)
        return wrap(r)
    return g
v_min, v_max = _minmax("min", R.mn, builtins.min), _minmax("max", R.mx, builtins.max)
def v_sum(x, start=0):
    if isinstance(x, A.Arr): it = L.viter(x)
    else: it = L.viter(x)
    if isinstance(it, SymIter):
        from . import norm as N
        probe = it.item(R.fresh_int("p"))
        if isinstance(probe, A.Arr) and probe._shape:
            return A.mk(probe.lib, probe._shape, lambda i: R.add(unwrap(start), N.sum_(it.n, lambda k: it.item(k).reader()(i))), probe.st.dtype)
        k = R.kind(unwrap(probe))
        s = N.sum_(it.n, lambda k: R.to_real(unwrap(it.item(k))))
        if k != 'r': s = R.trunc(s)
        return start + wrap(s)
    t = start
    for v in it: t = t + v
    return t
def v_all(x):
    it = L.viter(x)
    if isinstance(it, SymIter): return wrap(A.quant((it.n,), lambda vs: unwrap(it.item(vs[0])), True))
    for v in it:
        if not v: return False
    return True
def v_any(x):
    it = L.viter(x)
    if isinstance(it, SymIter): return wrap(A.quant((it.n,), lambda vs: unwrap(it.item(vs[0])), False))
    for v in it:
        if v: return True
    return False
def v_enumerate(x, start=0):
    it = L.viter(x)
    if isinstance(it, SymIter): return SymIter(it.n, lambda k: (wrap(R.add(k, unwrap(start))), it.item(k)))
    return L.EnumIter(it, start)
def v_zip(*xs):
    its = [L.viter(x) for x in xs]
    if not any(isinstance(i, SymIter) for i in its): return zip(*its)
    its2 = []
    for i in its:
        if isinstance(i, SymIter): its2.append(i)
        else:
            l = builtins.list(i)
            its2.append(SymIter(builtins.len(l), (lambda l: lambda k: VList(l)[wrap(k)])(l)))
    n = its2[0].n
    for i in its2[1:]:
        if R.is_sym(n) and R.is_sym(i.n) and n.eq(i.n): continue
        n = R.mn(n, i.n) if not cur().entails(R.eq(n, i.n)) else n
    return SymIter(n, lambda k: tuple(i.item(k) for i in its2))
def v_reversed(x):
    it = L.viter(x)
    if isinstance(it, SymIter): return SymIter(it.n, lambda k: it.item(R.sub(R.sub(it.n, 1), k)))
    return reversed(builtins.list(it))
def v_map(f, *xs):
    if len(xs) == 1:
        it = L.viter(xs[0])
        if isinstance(it, SymIter): return SymIter(it.n, lambda k: f(it.item(k)))
        return map(f, it)
    return map(f, *xs)
def v_sorted(x, key=None, reverse=False):
    h = getattr(C.Ctx.cur, "sorted_contract", None)
    it = L.viter(x)
    if isinstance(it, SymIter) or (h is not None):
        if h is None: raise Unsupported("sorted() of a symbolic sequence")
        return h(it, key, reverse)
    l = builtins.list(it)
    ks = [key(v) if key else v for v in l]
    if any(isinstance(k, S) and R.is_sym(k.r) for k in ks): raise Unsupported("sorted() of symbolic keys")
    return VList(v for _, v in sorted(zip(ks, l), key=lambda t: t[0], reverse=reverse))
def v_tuple(x=()):
    it = L.viter(x)
    if isinstance(it, SymIter): return VList.sym(it.n, it.item)
    return tuple(it)
TUPLE = tuple
def v_round(x, n=None):
    r = unwrap(x)
    if isinstance(r, Fraction) or isinstance(r, int): 
        v = builtins.round(Fraction(r), n) if n is not None else builtins.round(Fraction(r))
        return wrap(v)
    raise Unsupported("round() of a symbolic value")
def v_pow(a, b, *m): return pow2(a, b)
def v_print(*a, **k): pass
from .strs import v_open, retag, VStr, join as text_join
def v_id(x): return builtins.id(x)
def v_divmod(a, b): return a // b, a % b

# ---- transformed operators ---------------------------------------------------
def f(s): return S(Fraction(s))
def div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) :
        return wrap(R.div(unwrap(a), unwrap(b)))
    return a / b
def pow2(a, b):
    if isinstance(a, int) and isinstance(b, int): return wrap(R.pow_(a, b))
    return a ** b
def aug(op, a, b):
    if isinstance(a, VList):
        if op == "iadd": a.extend(b); return a
        return getattr(operator, op)(a, b)
    if op == "idiv":
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return wrap(R.div(unwrap(a), unwrap(b)))
        return operator.itruediv(a, b)
    if op == "ipow": 
        if isinstance(a, int) and isinstance(b, int): return pow2(a, b)
    return getattr(operator, op)(a, b)
def setattr_(v, o, n):
    L.note_attr(o, n)
    setattr(o, n, v)
def v_setattr(o, n, v): setattr_(v, o, n)

def new_dict(d):
    for j in C.JOURNALS: j.note_new(d)
    return d
def _int(x):
    r = unwrap(x)
    return r is not None and not isinstance(r, (str, list, dict)) and (R.is_sym(r) or type(r) is builtins.int) and R.kind(r) == 'i'
def wcounts(where, v, hi): return _int(v) and _int(hi)
def wrange(v, hi, incl): return v_range(v, hi + 1 if incl else hi)
def wsame(now, h0):
    a, b = unwrap(now), unwrap(h0)
    if not (a is b or (R.is_sym(a) and R.is_sym(b) and a.eq(b)) or (not R.is_sym(a) and not R.is_sym(b) and a == b)):
        raise Unsupported("while loop whose bound changes")
def wend(v, hi, incl):
    a, b = unwrap(v), unwrap(hi + 1 if incl else hi)
    return wrap(R.ite(R.lt(a, b), b, a))
def names():
    return {
        "vc0_wcounts": wcounts, "vc0_wrange": wrange, "vc0_wsame": wsame, "vc0_wend": wend,
        "vc0_f": f, "vc0_text": retag, "vc0_join": text_join, "vc0_div": div, "vc0_pow": pow2, "vc0_aug": aug, "vc0_list": lambda l: VList(l), "vc0_dict": new_dict,
        "vc0_comp": L.comp, "vc0_setattr": setattr_, "vc0_setitem": L.setitem, "vc0_slice": slice, "vc0_iter": L.viter, "vc0_concrete": lambda it: not isinstance(it, SymIter),
        "vc0_loop": L.sym_for, "vc0_while": L.sym_while, "vc0_while_contract": L.while_contract, "vc0_wtest": L.wtest,
        "vc0_escape": L.Escape, "vc0_ctl": (PathEnd, Unsupported, L.Escape, C.CheckFailure),
        "len": v_len, "range": v_range, "int": INT, "float": FLOAT, "bool": BOOL, "list": LIST, "type": v_type,
        "isinstance": v_isinstance, "issubclass": v_issubclass, "min": v_min, "max": v_max, "sum": v_sum, "all": v_all, "any": v_any,
        "enumerate": v_enumerate, "zip": v_zip, "reversed": v_reversed, "map": v_map, "sorted": v_sorted, "round": v_round, "pow": v_pow,
        "print": v_print, "open": v_open, "divmod": v_divmod, "setattr": v_setattr, "tuple": v_tuple_marker(),
    }
def v_tuple_marker():
    m = Marker("tuple", builtins.tuple, v_tuple, "")
    _mk[builtins.tuple] = m
    return m
