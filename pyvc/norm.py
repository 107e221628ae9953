"""Exact canonical forms for z3 arithmetic terms (commutative ring + total inverse),
normalising under binders (SUM / MIN / MAX) and inside uninterpreted applications."""
from fractions import Fraction
import z3
from . import raw as R

_K = {}
def _k(name): return getattr(z3, name)
OP_ADD, OP_SUB, OP_MUL, OP_UMINUS = z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS
OP_DIV, OP_TOREAL, OP_ITE, OP_IDIV, OP_MOD = z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_ITE, z3.Z3_OP_IDIV, z3.Z3_OP_MOD
INV = z3.Function("inv", R.REAL, R.REAL)

class Norm:
    def __init__(self):
        self.memo = {}      # ast id -> poly
        self.bmemo = {}     # bool ast id -> z3 bool
        self.keep = []      # keep refs alive (ids stay valid)
        self.atoms = {}     # atom ast id -> z3 term
        self.inds = {}      # atoms that are 0/1 indicators -> condition
        self.depth = 0
        self.ranges = {}    # bound variable of a sum (ast id) -> its bound

    # ---- polynomials: dict {monomial(tuple of (atom id, pow))): Fraction}
    def real_of(self, a):
        """an integer atom as a real (the integer value of an integral real sum is that sum)"""
        return self.poly(a.arg(0)) if a.decl().eq(R.INTVAL) else self.atom(z3.ToReal(a))
    def poly(self, t):
        if not R.is_sym(t):
            v = Fraction(int(t)) if isinstance(t, bool) else Fraction(t)
            return {(): v} if v else {}
        i = t.get_id()
        if i in self.memo: return self.memo[i]
        p = self._poly(t)
        self.memo[i] = p
        self.keep.append(t)
        return p

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = t
        return {((i, 1),): Fraction(1)}

    def indicator(self, c):
        """0/1 polynomial of a normalised condition: multilinear in its atomic conditions"""
        one = {(): Fraction(1)}
        if z3.is_not(c): return self.padd(one, self.indicator(c.arg(0)), -1)
        if z3.is_and(c) and c.num_args() <= 8:
            p = one
            for k in c.children(): p = self.pmul(p, self.indicator(k))
            return p
        if z3.is_or(c) and c.num_args() <= 3:
            p = one
            for k in c.children(): p = self.pmul(p, self.padd(one, self.indicator(k), -1))
            return self.padd(one, p, -1)
        a = z3.If(c, z3.RealVal(1), z3.RealVal(0))
        p = self.atom(a)
        self.inds[a.get_id()] = c
        return p
    def padd(self, p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            s = r.get(m, 0) + c * v
            if s: r[m] = s
            else: r.pop(m, None)
        return r
    def pmul(self, p, q):
        if len(p) * len(q) > 4000: raise R.Unsupported("normal form too large")
        r = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                m = self.mmul(m1, m2)
                s = r.get(m, 0) + v1 * v2
                if s: r[m] = s
                else: r.pop(m, None)
        return r
    def mmul(self, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for i, e in b: d[i] = d[i] if i in d and i in self.inds else d.get(i, 0) + e
        # sqrt(x)^2 -> handled by prover axioms, not here
        return tuple(sorted(d.items()))

    def _poly(self, t):
        if z3.is_int_value(t): 
            v = t.as_long(); return {(): Fraction(v)} if v else {}
        if z3.is_rational_value(t):
            v = t.as_fraction(); return {(): v} if v else {}
        if z3.is_var(t): return self.atom(t)
        k = t.decl().kind()
        ch = t.children()
        if k == OP_ADD:
            r = {}
            for c in ch: r = self.padd(r, self.poly(c))
            return r
        if k == OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]: r = self.padd(r, self.poly(c), -1)
            return r
        if k == OP_UMINUS: return self.padd({}, self.poly(ch[0]), -1)
        if k == OP_MUL:
            r = {(): Fraction(1)}
            for c in ch: r = self.pmul(r, self.poly(c))
            return r
        if k == OP_DIV:
            return self.pmul(self.poly(ch[0]), self.pinv(self.poly(ch[1])))
        if t.decl().eq(INV): return self.pinv(self.poly(ch[0]))
        if k == OP_TOREAL:
            p = self.poly(ch[0])
            if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1:
                a = self.atoms[list(p)[0][0][0]]
                return self.real_of(a) if a.sort() == R.INT else p
            r = {}
            for m, v in p.items():
                q = {(): v}
                for i, e in m:
                    a = self.atoms[i]
                    b = self.real_of(a) if a.sort() == R.INT else self.atom(a)
                    for _ in range(e): q = self.pmul(q, b)
                r = self.padd(r, q)
            return r
        if k == OP_ITE:
            c = self.bnorm(ch[0])
            if z3.is_true(c): return self.poly(ch[1])
            if z3.is_false(c): return self.poly(ch[2])
            pa, pb = self.poly(ch[1]), self.poly(ch[2])
            if pa == pb: return pa
            ea, eb = ch[1], ch[2]
            if z3.is_not(c): c, pa, pb, ea, eb = c.arg(0), pb, pa, eb, ea
            # a first element that agrees with the general one is no special case (v >= 0 is the variable of a sum)
            if (z3.is_le(c) or z3.is_eq(c)) and c.arg(0).get_id() in self.ranges and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == 0:
                z = (c.arg(0), z3.IntVal(0))
                if self.poly(z3.substitute(ea, z)) == self.poly(z3.substitute(eb, z)): return pb
            # a choice against zero is a product with the 0/1 indicator of the condition
            if t.sort() == R.REAL and (not pa or not pb) and len(pa) + len(pb) <= 3:
                ind = self.indicator(c)
                return self.pmul(pa, ind) if not pb else self.padd(pb, self.pmul(pb, ind), -1)
            a, b = self.term(pa, t.sort()), self.term(pb, t.sort())
            return self.atom(z3.If(c, a, b))
        if k in (OP_IDIV, OP_MOD):
            a, b = self.poly(ch[0]), self.poly(ch[1])
            if list(b.keys()) == [()] and b[()] > 0 and all(c.denominator == 1 for c in a.values()):
                d = b[()]
                if d == 1: return a if k == OP_IDIV else {}
                q = {m: c / d for m, c in a.items() if m and (c / d).denominator == 1}
                r = {m: c for m, c in a.items() if m not in q}
                c0 = r.pop((), Fraction(0))
                q0, c0 = c0 // d, c0 % d
                if c0: r[()] = c0
                if q0: q[()] = Fraction(q0)
                if not r or list(r.keys()) == [()]:
                    return q if k == OP_IDIV else r
                tt = self.atom(t.decl()(self.term(r, R.INT), self.term(b, R.INT)))
                return self.padd(q, tt) if k == OP_IDIV else tt
            return self.atom(t.decl()(self.canon(ch[0]), self.canon(ch[1])))
        if t.decl().eq(R.SUM) and z3.is_quantifier(ch[0]):
            return self.sum_poly(ch[0], self.canon(ch[1]))
        if not ch: return self.atom(t)
        # uninterpreted application (incl. binders)
        if t.decl().eq(R.WRAP):
            a = R.wrap(R.val(self.canon(ch[0])), R.val(self.canon(ch[1])))
            if not R.is_sym(a): return self.poly(a)
            return self.atom(a)
        if t.decl().eq(R.POWI):
            b, e = R.val(self.canon(ch[0])), self.poly(ch[1])
            c0 = e.get((), Fraction(0))
            if not R.is_sym(b) and c0.denominator == 1:
                f = {(): Fraction(b) ** int(c0)}
                e = {m: c for m, c in e.items() if m}
                return self.pmul(f, self.atom(R.POWI(R.z(Fraction(b)), self.term(e, R.INT)))) if e else f
        args = [self.canon(c) for c in ch]
        s = t.decl()(*args)
        if s.decl().eq(R.EXP):
            p = self.poly(args[0])
            if not p: return {(): Fraction(1)}
        return self.atom(s)

    def sum_poly(self, lam, n):
        nv = R.val(n)
        if not R.is_sym(nv) and nv <= EXPAND:
            r = {}
            for i in range(max(nv, 0)):
                r = self.padd(r, self.poly(z3.substitute_vars(lam.body(), z3.IntVal(i))))
            return r
        self.depth += 1
        try:
            nz = R.z(nv); self.keep.append(nz)
            v = z3.Int(f"sbv!{self.depth}!{nz.get_id()}")
            self.ranges[v.get_id()] = nz; self.keep.append(v)
            p = self.poly(z3.substitute_vars(lam.body(), v))
            groups = {}
            for m, c in p.items():
                fr = tuple(x for x in m if not mentions(self.atoms[x[0]], v))
                bd = tuple(x for x in m if mentions(self.atoms[x[0]], v))
                groups.setdefault(bd, {})[fr] = c
            tot = {}
            for bd, outer in groups.items():
                if not bd:
                    f = self.poly(R.to_real(nv))
                else:
                    f = self.delta(bd, v, nv)
                    if f is None:
                        inner = self.term({bd: Fraction(1)}, R.REAL)
                        # the bound variable is named by the nesting below it: the same sum has the same name everywhere
                        w = z3.Int(f"sbv!h{height(inner)}!{nz.get_id()}")
                        self.ranges[w.get_id()] = nz; self.keep.append(w)
                        inner = self.term(self.poly(z3.substitute(inner, (v, w))), R.REAL)
                        f = self.atom(R.SUM(z3.Lambda([w], inner), R.z(nv)))
                tot = self.padd(tot, self.pmul(outer, f))
            return tot
        finally:
            self.depth -= 1

    def delta(self, bd, v, n):
        """SUM_{0<=v<n} [v == e] * rest(v)  =  [0 <= e < n] * rest(e)"""
        for x in bd:
            c = self.inds.get(x[0])
            if c is None or not z3.is_eq(c) or c.arg(0).sort() not in (R.INT, R.REAL): continue
            l = self.poly(c.arg(0) - c.arg(1))
            vid = v.get_id()
            cs = [(m, k) for m, k in l.items() if any(mentions(self.atoms[y[0]], v) for y in m)]
            if len(cs) != 1: continue
            (m, k), = cs
            if len(m) != 1 or m[0][1] != 1 or self.atoms[m[0][0]].get_id() != vid or abs(k) != 1: continue
            rest = {q: -w / k for q, w in l.items() if q != m}
            if any(w.denominator != 1 for w in rest.values()) or any(self.atoms[y[0]].sort() != R.INT for q in rest for y in q): continue
            e = self.term(rest, R.INT)
            others = tuple(y for y in bd if y is not x)
            r = {(): Fraction(1)}
            if others: r = self.poly(z3.substitute(self.term({others: Fraction(1)}, R.REAL), (v, e)))
            for g in (self.bnorm(e >= 0), self.bnorm(e < R.z(n))):
                if z3.is_true(g): continue
                if z3.is_false(g): return {}
                r = self.pmul(r, self.indicator(g))
            return r
        return None

    def pinv(self, p):
        if not p: return {}   # 1/0 := 0
        if len(p) == 1:
            (m, v), = p.items()
            r = {(): 1 / v}
            for i, e in m:
                a = self.atoms[i]
                if a.decl().eq(INV): q = self.poly(a.arg(0))
                else: q = self.atom(INV(a if a.sort() == R.REAL else z3.ToReal(a)))
                for _ in range(e): r = self.pmul(r, q)
            return r
        # make leading coefficient 1 for canonicity
        lead = max(p)  # deterministic within a run
        v = p[lead]
        q = {m: c / v for m, c in p.items()}
        a = self.atom(INV(self.term(q, R.REAL)))
        return {m: c / v for m, c in a.items()}

    def term(self, p, sort):
        """canonical z3 term of a polynomial"""
        ts = []
        for m in sorted(p):
            v = p[m]
            fs, conds = [], []
            for i, e in m:
                a = self.atoms[i]
                if i in self.inds: conds.append(self.inds[i]); continue
                if sort == R.REAL and a.sort() == R.INT: a = z3.ToReal(a)
                fs += [a] * e
            if sort == R.INT:
                if v.denominator != 1: raise R.Unsupported("fraction in int poly")
                cv = z3.IntVal(v.numerator)
            else: cv = z3.RealVal(v)
            if not fs: ts.append(cv)
            else:
                pr = fs[0]
                for f in fs[1:]: pr = pr * f
                ts.append(pr if v == 1 else cv * pr)
            if conds:
                x = ts.pop()
                for c in conds: x = z3.If(c, x, z3.RealVal(0))
                ts.append(x)
        if not ts: return z3.IntVal(0) if sort == R.INT else z3.RealVal(0)
        if len(ts) == 1: return ts[0]
        return z3.Sum(*ts)

    def canon(self, t):
        if not R.is_sym(t): return t
        if z3.is_quantifier(t):
            assert t.is_lambda()
            n = t.num_vars()
            self.depth += 1
            vs = [z3.Const(f"cbv!{self.depth}!{j}", t.var_sort(j)) for j in range(n)]
            body = z3.substitute_vars(t.body(), *reversed(vs))
            body = self.canon(body)
            self.depth -= 1
            hh = height(body)
            ws = [z3.Const(f"cbv!h{hh}!{j}", t.var_sort(j)) for j in range(n)]
            return z3.Lambda(ws, self.canon(z3.substitute(body, *zip(vs, ws))))
        s = t.sort()
        if s == R.BOOL: return self.bnorm(t)
        if s in (R.INT, R.REAL): return self.term(self.poly(t), s)
        if z3.is_app(t) and t.num_args():
            if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return z3.Concat(*[self.canon(c) for c in t.children()])
            return t.decl()(*[self.canon(c) for c in t.children()])
        return t

    def in_range(self, p):
        """truth of the integer comparison p <= 0 that follows from 0 <= v < n for a bound variable v of a sum over n; None if it does not"""
        for m, c in p.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: continue
            n = self.ranges.get(self.atoms[m[0][0]].get_id())
            if n is None: continue
            rest = {q: w for q, w in p.items() if q != m}
            const = lambda r: r.get((), 0) if all(q == () for q in r) else None
            k, j = const(rest), const(self.padd(rest, self.poly(n), int(c)))
            if c == -1:                                   # p = rest - v
                if k is not None and k <= 0: return True
                if j is not None and j >= 0: return False     # rest = n + j
            else:                                         # p = rest + v
                if k is not None and k > 0: return False
                if j is not None and j <= 1: return True      # rest = j - n
        return None
    # ---- booleans
    def bnorm(self, t):
        i = t.get_id()
        if i in self.bmemo: return self.bmemo[i]
        r = self._bnorm(t)
        self.bmemo[i] = r
        self.keep.append(t)
        return r
    def _bnorm(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if k == z3.Z3_OP_NOT:
            c = self.bnorm(ch[0])
            if z3.is_true(c): return z3.BoolVal(False)
            if z3.is_false(c): return z3.BoolVal(True)
            if z3.is_not(c): return c.arg(0)
            return z3.Not(c)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            cs = {}
            for c in ch:
                c = self.bnorm(c)
                if z3.is_app(c) and c.decl().kind() == k:
                    for d in c.children(): cs[d.get_id()] = d
                else: cs[c.get_id()] = c
            unit = z3.is_true if k == z3.Z3_OP_AND else z3.is_false
            zero = z3.is_false if k == z3.Z3_OP_AND else z3.is_true
            out = []
            for j in sorted(cs):
                if zero(cs[j]): return cs[j]
                if not unit(cs[j]): out.append(cs[j])
            if not out: return z3.BoolVal(k == z3.Z3_OP_AND)
            if len(out) == 1: return out[0]
            return z3.And(*out) if k == z3.Z3_OP_AND else z3.Or(*out)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = ch
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            isint = a.sort() == R.INT
            p = self.padd(self.poly(a), self.poly(b), -1)
            if isint and strict:
                p = self.padd(p, {(): Fraction(1)}); strict = False
            if not p or (len(p) == 1 and () in p):
                v = p.get((), 0)
                return z3.BoolVal(v < 0 if strict else v <= 0)
            if isint and self.ranges:
                f = self.in_range(p)
                if f is not None: return z3.BoolVal(f)
            lead = max(p)
            v = abs(p[lead])
            if not isint or all((c / v).denominator == 1 for c in p.values()):
                p = {m: c / v for m, c in p.items()}
            if p[lead] < 0:
                # keep positive leading coefficient:  p <= 0  <=>  not(-p < 0)
                q = {m: -c for m, c in p.items()}
                if isint:
                    # p<=0 <=> q>=0 <=> not(q+1<=0)
                    q = self.padd(q, {(): Fraction(1)})
                    return z3.Not(self.term(q, R.INT) <= 0)
                tq = self.term(q, R.REAL)
                return z3.Not(tq <= 0) if strict else z3.Not(tq < 0)
            tp = self.term(p, R.INT if isint else R.REAL)
            return tp < 0 if strict else tp <= 0
        if k == z3.Z3_OP_EQ:
            a, b = ch
            if a.sort() == R.BOOL:
                a, b = self.bnorm(a), self.bnorm(b)
                if a.eq(b): return z3.BoolVal(True)
                if a.get_id() > b.get_id(): a, b = b, a
                return a == b
            if a.sort() in (R.INT, R.REAL):
                p = self.padd(self.poly(a), self.poly(b), -1)
                if not p: return z3.BoolVal(True)
                if len(p) == 1 and () in p: return z3.BoolVal(False)
                lead = max(p); v = p[lead]
                if a.sort() == R.REAL or all((c / v).denominator == 1 for c in p.values()):
                    p = {m: c / v for m, c in p.items()}
                return self.term(p, a.sort()) == 0
            return t
        if k == z3.Z3_OP_ITE:
            c, a, b = [self.bnorm(x) for x in ch]
            if z3.is_true(c): return a
            if z3.is_false(c): return b
            return z3.If(c, a, b)
        if z3.is_app(t) and ch:
            return t.decl()(*[self.canon(c) for c in ch])
        return t

def equal(a, b, nm=None):
    """True when a==b is a ring identity (under the x/0:=0 convention)"""
    nm = nm or Norm()
    try:
        if R.kind(a) == 'b' and R.kind(b) == 'b':
            return nm.bnorm(R.z(a)).eq(nm.bnorm(R.z(b)))
        a, b = R.join(a, b)
        return not nm.padd(nm.poly(a), nm.poly(b), -1)
    except R.Unsupported:
        return False

_height = {}
def height(t):
    """how deeply binders are nested in t"""
    hit = _height.get(t.get_id())
    if hit is not None: return hit[1]
    if z3.is_quantifier(t): r = 1 + height(t.body())
    else: r = max([height(c) for c in t.children()], default=0)
    _height[t.get_id()] = (t, r)
    return r
# ---- binders ------------------------------------------------------------
_uses_cache = {}
def mentions(t, v):
    """does z3 term t contain constant v"""
    seen = set(); st = [t]
    if not R.is_sym(v) or not R.is_sym(t): return False
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid: return True
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

EXPAND = 30
def sum_(n, f):
    """SUM_{0<=v<n} f(v) as a raw real, with constants pulled out"""
    n = R.to_int_exact(n)
    if not R.is_sym(n) and n <= EXPAND:
        r = Fraction(0)
        for i in range(max(n, 0)): r = R.add(r, R.to_real(f(i)))
        return r
    v = R.fresh_int("bv")
    body = R.to_real(f(v))
    return sum_body(n, v, body)

def sum_body(n, v, body):
    n0 = nonneg(n)
    if not R.is_sym(body) or not mentions(body, v):
        return R.mul(R.to_real(n0), body)
    if z3.is_app_of(body, OP_ITE) and not mentions(body.arg(0), v):
        return R.ite(body.arg(0), sum_body(n, v, R.val(body.arg(1))), sum_body(n, v, R.val(body.arg(2))))
    nm = Norm()
    try:
        nm.ranges[v.get_id()] = R.z(n)
        p = nm.poly(body)
    except R.Unsupported:
        return R.SUM(z3.Lambda([v], body), R.z(n))
    groups = {}
    for m, c in p.items():
        fr = tuple(x for x in m if not mentions(nm.atoms[x[0]], v))
        bd = tuple(x for x in m if mentions(nm.atoms[x[0]], v))
        groups.setdefault(bd, {})[fr] = c
    # collect identical outer factor -> keep one SUM per inner monomial (canonical)
    total = Fraction(0)
    for bd, outer in groups.items():
        o = nm.term(outer, R.REAL)
        if not bd:
            total = R.add(total, R.mul(R.to_real(n0), R.val(o)))
            continue
        inner = nm.term({bd: Fraction(1)}, R.REAL)
        s = None
        if len(bd) == 1 and bd[0][1] == 1:
            a = nm.atoms[bd[0][0]]
            s = _delta(n, v, a)
        if s is None: s = R.SUM(z3.Lambda([v], inner), R.z(n))
        total = R.add(total, R.mul(R.val(o), s))
    return total

def nonneg(n):
    """a symbolic count: dims/ranges are non-negative by construction"""
    return n if R.is_sym(n) else max(n, 0)

def _delta(n, v, a):
    return None
