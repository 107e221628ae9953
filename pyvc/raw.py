"""Raw terms: python int / bool / Fraction (concrete) or z3 expressions (symbolic).

All arithmetic is mathematical (unbounded integers, exact reals).  Division by
zero is the total function x/0 := 0 of the underlying logic (see DESIGN.md).
"""
from fractions import Fraction
import itertools, math
import z3

class Unsupported(Exception):
    """construct outside the verifier's reach (never a proof)"""

Z3 = z3.ExprRef
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STR = z3.StringSort()

_cnt = itertools.count()
def fresh_name(p): return f"{p}!{next(_cnt)}"
def reset_names():
    global _cnt
    _cnt = itertools.count()
def fresh_int(p="k"): return z3.Int(fresh_name(p))
def fresh_real(p="x"): return z3.Real(fresh_name(p))
def fresh_bool(p="b"): return z3.Bool(fresh_name(p))

def is_sym(a): return isinstance(a, Z3)

def kind(a):
    if isinstance(a, bool): return 'b'
    if isinstance(a, int): return 'i'
    if isinstance(a, Fraction): return 'r'
    if isinstance(a, Z3):
        s = a.sort()
        if s == INT: return 'i'
        if s == REAL: return 'r'
        if s == BOOL: return 'b'
        if s == STR: return 's'
    raise Unsupported(f"not a raw scalar: {type(a).__name__} {a!r:.80}")

def fl(x):
    """python float -> exact decimal rational of its shortest repr"""
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite float constant")
    return Fraction(repr(x))

def z(a):
    """raw -> z3 term"""
    if isinstance(a, Z3): return a
    if isinstance(a, bool): return z3.BoolVal(a)
    if isinstance(a, int): return z3.IntVal(a)
    if isinstance(a, Fraction): return z3.RealVal(a)
    raise Unsupported(f"z: {a!r:.80}")

def val(a):
    """z3 literal -> concrete"""
    if not isinstance(a, Z3): return a
    if z3.is_int_value(a): return a.as_long()
    if z3.is_rational_value(a): return a.as_fraction()
    if z3.is_true(a): return True
    if z3.is_false(a): return False
    return a

def to_real(a):
    k = kind(a)
    if k == 'r': return a
    if k == 'b':
        if isinstance(a, bool): return Fraction(int(a))
        return ite(a, Fraction(1), Fraction(0))
    if isinstance(a, int): return Fraction(a)
    # push ToReal through ite so that 0/1 masks stay simple
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return ite(a.arg(0), to_real(val(a.arg(1))), to_real(val(a.arg(2))))
    if z3.is_app(a) and a.decl().eq(INTVAL): return a.arg(0)
    return z3.ToReal(a)

def to_int_exact(a):
    """int or bool raw -> int raw"""
    k = kind(a)
    if k == 'i': return a
    if k == 'b':
        if isinstance(a, bool): return int(a)
        return ite(a, 1, 0)
    raise Unsupported("real used where int needed")

def trunc(a):
    """python int(): truncation towards zero"""
    k = kind(a)
    if k in 'ib': return to_int_exact(a)
    if isinstance(a, Fraction): return int(a)
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL): return a.arg(0)
    return ite(ge(a, 0), z3.ToInt(a), neg(z3.ToInt(-a)))

def floor_(a):
    k = kind(a)
    if k in 'ib': return to_int_exact(a)
    if isinstance(a, Fraction): return math.floor(a)
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL): return a.arg(0)
    return z3.ToInt(a)

def ceil_(a): return neg(floor_(neg(a)))

def join(a, b):
    """coerce two raws to a common arithmetic kind"""
    ka, kb = kind(a), kind(b)
    if ka == kb: return a, b
    if 'r' in (ka, kb): return to_real(a), to_real(b)
    return to_int_exact(a), to_int_exact(b)

def _arith(a, b):
    a, b = join(a, b)
    if kind(a) == 'b': a, b = to_int_exact(a), to_int_exact(b)
    return a, b

def add(a, b):
    a, b = _arith(a, b)
    if not is_sym(a) and not is_sym(b): return a + b
    if not is_sym(a) and a == 0: return b
    if not is_sym(b) and b == 0: return a
    return z(a) + z(b)
def neg(a):
    if kind(a) == 'b': a = to_int_exact(a)
    return -a
def sub(a, b):
    a, b = _arith(a, b)
    if not is_sym(a) and not is_sym(b): return a - b
    if not is_sym(b) and b == 0: return a
    if is_sym(a) and is_sym(b) and a.eq(b): return 0 if kind(a) == 'i' else Fraction(0)
    return z(a) - z(b)
def mul(a, b):
    a, b = _arith(a, b)
    if not is_sym(a) and not is_sym(b): return a * b
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            if p == 0: return p
            if p == 1: return q
            if p == -1: return neg(q)
    # 0/1 indicator factors: lift ite so products with masks stay piecewise
    return z(a) * z(b)
def div(a, b):
    a, b = to_real(a), to_real(b)
    if not is_sym(b):
        if b == 0: raise ZeroDivisionError("division by zero")
        if not is_sym(a): return a / b
        return mul(a, 1 / b)
    if not is_sym(a) and a == 0: return Fraction(0)
    return z(a) / z(b)
def idiv(a, b):
    """floor division of ints (b>0 or concrete)"""
    ka, kb = kind(a), kind(b)
    if 'r' in (ka, kb):
        return to_real(floor_(div(a, b)))
    a, b = to_int_exact(a), to_int_exact(b)
    if not is_sym(a) and not is_sym(b): return a // b
    if not is_sym(b):
        if b == 1: return a
        if b > 0: return z(a) / z(b)
        if b == 0: raise ZeroDivisionError()
        return idiv(neg(a), -b)
    # z3 div is euclidean: equals floor for b>0; callers guarantee b>0 via ctx
    return z3.If(z(b) > 0, z(a) / z(b), (-z(a)) / (-z(b)))
def imod(a, b):
    ka, kb = kind(a), kind(b)
    if 'r' in (ka, kb): return sub(a, mul(b, idiv(a, b)))
    a, b = to_int_exact(a), to_int_exact(b)
    if not is_sym(a) and not is_sym(b): return a % b
    if not is_sym(b):
        if b == 1: return 0
        if b > 0: return z(a) % z(b)
        if b == 0: raise ZeroDivisionError()
    return sub(a, mul(b, idiv(a, b)))

def _cmp(a, b):
    return _arith(a, b)
def lt(a, b):
    a, b = _cmp(a, b)
    if not is_sym(a) and not is_sym(b): return a < b
    return z(a) < z(b)
def le(a, b):
    a, b = _cmp(a, b)
    if not is_sym(a) and not is_sym(b): return a <= b
    return z(a) <= z(b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if kind(a) == 'b' and kind(b) == 'b':
        if not is_sym(a) and not is_sym(b): return a == b
        if a is True: return b
        if b is True: return a
        if a is False: return not_(b)
        if b is False: return not_(a)
        return z(a) == z(b)
    a, b = _cmp(a, b)
    if not is_sym(a) and not is_sym(b): return a == b
    if is_sym(a) and is_sym(b) and a.eq(b): return True
    return z(a) == z(b)
def ne(a, b): return not_(eq(a, b))
def truth(a):
    if kind(a) == 'b': return a
    return ne(a, 0)
def not_(a):
    if not is_sym(a): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def and_(*xs):
    out = []
    for x in xs:
        if not is_sym(x):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def or_(*xs):
    out = []
    for x in xs:
        if not is_sym(x):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def implies(a, b): return or_(not_(a), b)
def ite(c, a, b):
    if not is_sym(c): return a if c else b
    if is_sym(a) and is_sym(b) and a.eq(b): return a
    if not is_sym(a) and not is_sym(b) and a == b and type(a) == type(b): return a
    if kind(a) == 'b' and kind(b) == 'b':
        if a is True and b is False: return c
        if a is False and b is True: return not_(c)
    else:
        a, b = join(a, b)
    return z3.If(c, z(a), z(b))
_MM = {}       # results of min/max against a constant: id -> (term, kind, constant, other operand)
def _mm(k, c, x):
    h = _MM.get(x.get_id())
    if h is not None:
        _, k2, c2, x2 = h
        if k2 == k: return _mm(k, (min if k == "n" else max)(c, c2), x2)
        if k == "x" and c <= c2: return _mm("n", c2, _mm("x", c, x2))      # clamp in canonical order: min after max
    r = ite(le(x, c) if k == "n" else ge(x, c), x, c)
    _MM[r.get_id()] = (r, k, c, x)
    return r
def _minmax(k, a, b):
    a, b = _cmp(a, b)
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb: return (min if k == "n" else max)(a, b)
    if sa and sb: return ite(le(a, b) if k == "n" else ge(a, b), a, b)
    a, b = join(a, b)
    return _mm(k, b, a) if sa else _mm(k, a, b)
def mn(a, b): return _minmax("n", a, b)
def mx(a, b): return _minmax("x", a, b)
def abs_(a):
    if not is_sym(a): return abs(a)
    return ite(ge(a, 0), a, neg(a))

# ---- uninterpreted functions with instantiated axioms -------------------
def F(name, *sorts): return z3.Function(name, *sorts)
EXP = F("exp", REAL, REAL); LOG = F("log", REAL, REAL); SQRT = F("sqrt", REAL, REAL)
SIN = F("sin", REAL, REAL); COS = F("cos", REAL, REAL); TANH = F("tanh", REAL, REAL)
SIGM = F("sigmoid", REAL, REAL); SILU = F("silu", REAL, REAL); ELU = F("elu", REAL, REAL)
RPOW = F("rpow", REAL, REAL, REAL)
PI = z3.Real("pi")
WRAP = F("wrap", INT, INT, INT)
POWI = F("powi", REAL, INT, REAL)
def powi(c, k):
    """c**k for a positive rational constant c and an integer k"""
    if not is_sym(k): return Fraction(c) ** k
    if c == 1: return Fraction(1)
    if c <= 0: raise Unsupported("power of a non-positive constant")
    return POWI(z(Fraction(c)), k)
ARR1 = z3.ArraySort(INT, REAL)
SUM = F("SUM", ARR1, INT, REAL)
INTVAL = F("intval", REAL, INT)
def intval(s):
    """the integer value of a real known to be integral (a sum of integers)"""
    if not is_sym(s): return int(s)
    return s.arg(0) if z3.is_app_of(s, z3.Z3_OP_TO_REAL) else INTVAL(z(s))
COUNT_NAMES = {}

def exp_(a):
    a = to_real(a)
    if not is_sym(a) and a == 0: return Fraction(1)
    return EXP(z(a))
def log_(a):
    a = to_real(a)
    if not is_sym(a) and a == 1: return Fraction(0)
    return LOG(z(a))
def sqrt_(a):
    a = to_real(a)
    if not is_sym(a):
        if a < 0: raise Unsupported("sqrt of negative")
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator: return Fraction(n, d)
    return SQRT(z(a))
def fun1(f):
    def g(a): return f(z(to_real(a)))
    return g
sin_, cos_, tanh_, sigm_, silu_, elu_ = map(fun1, (SIN, COS, TANH, SIGM, SILU, ELU))
def pow_(a, b):
    kb = kind(b)
    if isinstance(b, Fraction) and b.denominator == 1: b = int(b); kb = 'i'
    if kb in 'i' and not is_sym(b):
        if not is_sym(a):
            if kind(a) == 'b': a = int(a)
            if b >= 0: return a ** b
            return Fraction(a) ** b
        if b == 0: return 1 if kind(a) == 'i' else Fraction(1)
        r = a
        for _ in range(abs(b) - 1): r = mul(r, a)
        return r if b > 0 else div(1, r)
    if isinstance(b, Fraction) and b == Fraction(1, 2): return sqrt_(a)
    return RPOW(z(to_real(a)), z(to_real(b)))

def wrap(a, n):
    """a mod n for n>0, uninterpreted when symbolic; collapses nested wraps"""
    if not is_sym(a) and not is_sym(n): return a % n
    if not is_sym(n) and n == 1: return 0
    a = _strip_wrap(z(a), z(n))
    a = val(a)
    if not is_sym(a) and a == 0: return 0
    return WRAP(z(a), z(n))
def _strip_wrap(a, n):
    if z3.is_app(a):
        if a.decl().eq(WRAP) and a.arg(1).eq(n): return _strip_wrap(a.arg(0), n)
        k = a.decl().kind()
        if k == z3.Z3_OP_ADD: return z3.Sum(*[_strip_wrap(c, n) for c in a.children()])
        if k == z3.Z3_OP_SUB and a.num_args() == 2:
            return _strip_wrap(a.arg(0), n) - _strip_wrap(a.arg(1), n)
    return a
