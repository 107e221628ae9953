"""Path exploration, obligations and the prover."""
import time, os, subprocess, tempfile, itertools
from fractions import Fraction
import z3
from . import raw as R
from . import norm as N
from .raw import Unsupported

class Enough(BaseException): pass     # several obligations of the contract have failed: the rest is not generated
class PathEnd(BaseException):
    """current path is infeasible / fully handled"""

class CheckFailure(BaseException):
    """an obligation of a called contract failed on this path"""

JOURNALS = []
RANGE_DECLS = {}
EXP_FACTS = []       # numeric bounds of exp a contract asks for
FACT_DECLS = {}      # name -> application -> facts (contracts of library functions)
UNIFORM_DECLS = set()

class Ob:
    __slots__ = ("name", "status", "backend", "time", "model", "detail", "path", "where")
    def __init__(self, name, status, backend, t, model=None, detail="", where=""):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.detail, self.where = model, detail, where

class Prover:
    """decides validity of  assumptions => goal"""
    def __init__(self, timeout=6000, deep=False):
        self.timeout, self.deep = timeout, deep
        self.NM = N.Norm()
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self._ax_cache = {}
        self._int = {}
        self._nn = {}

    # -- helpers
    _SPECIAL = {"exp", "sqrt", "tanh", "sigmoid", "sin", "cos", "wrap", "inv", "pi", "log", "powi", "intval"}
    def subterms(self, ts):
        seen = {}
        st = [t for t in ts if R.is_sym(t)]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen[i] = x
            if z3.is_quantifier(x): continue      # binders are opaque here
            st.extend(x.children())
        return seen

    def interesting(self, t):
        """applications below t that carry axioms, and binder applications (cached per term)"""
        hit = self._int.get(t.get_id())
        if hit is not None: return hit[1]
        out = []
        for x in self.subterms([t]).values():
            if not z3.is_app(x): continue
            d = x.decl()
            if d.kind() != z3.Z3_OP_UNINTERPRETED: continue
            nm = d.name()
            n = x.num_args()
            b = n > 0 and z3.is_quantifier(x.arg(0))
            if b or nm in self._SPECIAL or nm in UNIFORM_DECLS or nm in RANGE_DECLS or nm in FACT_DECLS: out.append((x.get_id(), x, nm, b))
        self._int[t.get_id()] = (t, out)
        return out

    def axioms_of(self, t, nm):
        """ground axiom instances of one application"""
        out = []
        if nm == "exp":
            a = t.arg(0)
            out += [t > 0, z3.Implies(a <= 0, t <= 1), z3.Implies(a == 0, t == 1),
                    z3.Implies(a < 0, t < 1), z3.Implies(a > 0, t > 1), t >= 1 + a]
            for lo, up in EXP_FACTS:      # exp(x) <= up for x <= lo and exp(x) >= 1/up for x >= -lo
                out += [z3.Implies(a <= R.z(lo), t <= R.z(up)), z3.Implies(a >= R.z(-lo), t >= R.z(1 / up))]
        elif nm == "sqrt":
            a = t.arg(0)
            out += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
        elif nm == "tanh": out += [t > -1, t < 1]
        elif nm == "sigmoid": out += [t > 0, t < 1]
        elif nm in ("sin", "cos"): out += [t >= -1, t <= 1]
        elif nm == "wrap":
            a, n = t.arg(0), t.arg(1)
            out += [z3.Implies(n > 0, z3.And(t >= 0, t < n)),
                    z3.Implies(z3.And(a >= 0, a < n), t == a),
                    z3.Implies(z3.And(a < 0, a >= -n), t == a + n),
                    z3.Implies(z3.And(a >= n, a < 2 * n), t == a - n)]
        elif nm == "inv":
            a = t.arg(0)
            out += [z3.Implies(a != 0, a * t == 1), z3.Implies(a == 0, t == 0),
                    z3.Implies(a > 0, t > 0)]
        elif nm == "intval": out += [z3.ToReal(t) == t.arg(0)]
        elif nm == "pi": out += [t > z3.RealVal("3.14159"), t < z3.RealVal("3.1416")]
        elif nm == "log":
            a = t.arg(0)
            out += [z3.Implies(z3.And(a > 0, a <= 1), t <= 0), z3.Implies(a >= 1, t >= 0),
                    z3.Implies(z3.And(a > 0, a < 1), t < 0), z3.Implies(a > 1, t > 0),
                    z3.Implies(a > 0, t <= a - 1)]
        elif nm == "powi":
            c, k = t.arg(0), t.arg(1)
            out += [t > 0, z3.Implies(k == 0, t == 1), z3.Implies(z3.And(c < 1, k >= 0), t <= 1), z3.Implies(z3.And(c < 1, k >= 1), t <= c),
                    z3.Implies(z3.And(c > 1, k >= 0), t >= 1)]
        elif nm in UNIFORM_DECLS: out += [t >= 0, t < 1]
        elif nm in RANGE_DECLS:
            for lo, hi in RANGE_DECLS[nm]:
                if lo is not None: out.append(t >= R.z(lo))
                if hi is not None: out.append(t <= R.z(hi))
        elif nm in FACT_DECLS: out += [R.z(f) for f in FACT_DECLS[nm](t)]
        return out

    def axioms(self, ts):
        """ground instances of the axioms of the uninterpreted functions"""
        out, seen, exps, logs = [], set(), [], []
        for r in ts:
            if not R.is_sym(r): continue
            for i, t, nm, b in self.interesting(r):
                if i in seen or b: continue
                seen.add(i)
                if nm == "exp": exps.append(t)
                elif nm == "log": logs.append(t)
                ax = self._ax_cache.get(i)
                if ax is None: ax = self._ax_cache[i] = (t, self.axioms_of(t, nm))
                out += ax[1]
        # congruent/monotone exp instances (few)
        if 1 < len(exps) <= 8:
            for x, y in itertools.combinations(exps, 2):
                out += [z3.Implies(x.arg(0) <= y.arg(0), x <= y), z3.Implies(y.arg(0) <= x.arg(0), y <= x),
                        z3.Implies(x.arg(0) < y.arg(0), x < y), z3.Implies(y.arg(0) < x.arg(0), y < x)]
        if 1 < len(logs) <= 6:
            for x, y in itertools.permutations(logs, 2):
                out += [z3.Implies(z3.And(x.arg(0) > 0, x.arg(0) <= y.arg(0)), x <= y), z3.Implies(z3.And(x.arg(0) > 0, x.arg(0) < y.arg(0)), x < y)]
        return out

    def sign_nn(self, t):
        """syntactic: t >= 0 (exp, sqrt, sums and products of such, squares, sums over them)"""
        i = t.get_id()
        hit = self._nn.get(i)
        if hit is None: hit = self._nn[i] = (t, self._sign_nn(t))
        return hit[1]

    def _sign_nn(self, t):
        if not z3.is_app(t): return False
        if z3.is_int_value(t): return t.as_long() >= 0
        if z3.is_rational_value(t): return t.numerator_as_long() >= 0
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ADD: return all(self.sign_nn(c) for c in ch)
        if k == z3.Z3_OP_MUL:
            odd = {}
            for c in ch:
                if self.sign_nn(c): continue
                odd[c.get_id()] = odd.get(c.get_id(), 0) + 1
            return all(v % 2 == 0 for v in odd.values())
        if k == z3.Z3_OP_ITE: return self.sign_nn(ch[1]) and self.sign_nn(ch[2])
        if k == z3.Z3_OP_TO_REAL: return self.sign_nn(ch[0])
        if k != z3.Z3_OP_UNINTERPRETED: return False
        nm = t.decl().name()
        if nm in ("exp", "sigmoid", "powi") or nm in UNIFORM_DECLS: return True
        if nm in ("inv", "sqrt"): return self.sign_nn(ch[0])
        if nm in RANGE_DECLS: return any(lo is not None and not R.is_sym(lo) and lo >= 0 for lo, hi in RANGE_DECLS[nm])
        if ch and z3.is_quantifier(ch[0]) and t.decl().eq(R.SUM): return self.sign_nn(ch[0].body())
        return False

    def binders(self, ts):
        out = {}
        for r in ts:
            if not R.is_sym(r): continue
            for i, t, nm, b in self.interesting(r):
                if b: out[i] = t
        return list(out.values())

    def determined(self, An, g):
        """integer constants in binder bounds whose value the assumptions determine"""
        cs = {}
        for b in self.all_binders(g):
            for d in b.children()[1:]:
                for t in self.subterms([d]).values():
                    if z3.is_const(t) and t.sort() == R.INT and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.decl().name().startswith(("cbv!", "sbv!")):
                        cs[t.get_id()] = t
                    elif (z3.is_app_of(t, z3.Z3_OP_IDIV) or z3.is_app_of(t, z3.Z3_OP_MOD)) and self.closed(t): cs[t.get_id()] = t
        out = []
        for t in cs.values():
            rel = [a for a in An if N.mentions(a, t) and not self.binders([a])]
            if not rel: continue
            s = z3.Solver(); s.set("timeout", 500)
            for a in rel: s.add(a)
            if s.check() != z3.sat: continue
            v = s.model().eval(t, model_completion=True)
            s.add(t != v)
            if s.check() == z3.unsat: out.append((t, v))
        return out

    def closed(self, t):
        """no variable of a binder occurs in t"""
        st = [t]
        while st:
            x = st.pop()
            if not z3.is_app(x): return False
            if z3.is_const(x) and x.decl().name().startswith(("cbv!", "sbv!", "bv!")): return False
            st.extend(x.children())
        return True

    def all_binders(self, g):
        """binder applications, also below other binders"""
        out, seen, st = [], set(), [g]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if not z3.is_app(x): continue
            ch = x.children()
            if ch and z3.is_quantifier(ch[0]): out.append(x)
            st.extend(ch)
        return out

    def ext_lemmas(self, assumptions, goal, depth, budget):
        """extensionality: equal bodies on the range => equal binder terms"""
        out = []
        bs = self.binders([goal])
        allb = self.binders(list(assumptions) + [goal]) if depth < 2 else bs
        done = set()
        for a in bs:
            for b in allb:
                if a.get_id() == b.get_id() or not a.decl().eq(b.decl()): continue
                if depth > 0 and N.height(a) != N.height(b): continue
                key = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
                if key in done: continue
                done.add(key)
                if len(done) > 60: return out
                la, lb = a.arg(0), b.arg(0)
                n = la.num_vars()
                if n == 1 and a.decl().eq(R.SUM):
                    sh = self.shift_lemma(assumptions, a, b, depth, budget)
                    if sh is not None: out += sh; continue
                vs = [R.fresh_int("e") for _ in range(n)]
                ba = z3.substitute_vars(la.body(), *reversed(vs))
                bb = z3.substitute_vars(lb.body(), *reversed(vs))
                dims_eq = [a.arg(i) == b.arg(i) for i in range(1, a.num_args())]
                rng = [z3.And(v >= 0, v < a.arg(i + 1)) for i, v in enumerate(vs)]
                g = z3.And(*dims_eq, ba == bb) if dims_eq else ba == bb
                st, _, _ = self.check(list(assumptions) + rng, g, depth + 1, budget=min(budget, 3000))
                if st == "proved": out.append(b == a if b.get_id() > a.get_id() else a == b)
        return out

    def shift_lemma(self, assumptions, a, b, depth, budget):
        """SUM(f, n+d) against SUM(g, n) for a literal d>0: leading or trailing terms split off"""
        d = R.val(self.NM.canon(b.arg(1) - a.arg(1)))
        if R.is_sym(d) or d == 0 or abs(d) > 4: return None
        if d < 0: a, b, d = b, a, -d
        la, lb, na = a.arg(0), b.arg(0), a.arg(1)
        out = []
        for off in range(d + 1):         # off terms in front, d - off behind
            v = R.fresh_int("e")
            ba = z3.substitute_vars(la.body(), v); bb = z3.substitute_vars(lb.body(), v + off)
            st, _, _ = self.check(list(assumptions) + [v >= 0, v < na], ba == bb, depth + 1, budget=min(budget, 3000))
            if st == "proved":
                ext = [z3.substitute_vars(lb.body(), z3.IntVal(t)) for t in range(off)]
                ext += [z3.substitute_vars(lb.body(), na + off + t) for t in range(d - off)]
                if self.check(assumptions, na >= 0, depth + 1, budget=min(budget, 2000))[0] == "proved": out.append(b == z3.Sum(a, *ext))
                break
        return out
    def prove(self, assumptions, goal, budget=None):
        """-> (status, backend, model)"""
        t0 = time.time()
        try:
            r = self.check(assumptions, goal, 0, budget or self.timeout)
        finally:
            self.solver_time += time.time() - t0
        return r

    def check(self, assumptions, goal, depth=0, budget=6000):
        goal = goal if R.is_sym(goal) else z3.BoolVal(bool(goal))
        if z3.is_true(goal): return "proved", "syntactic", None
        try:
            g = self.NM.bnorm(goal)
        except Unsupported:
            g = goal
        if z3.is_true(g): return "proved", "ring-normaliser", None
        if z3.is_and(g) and depth < 6:
            for c in g.children():
                st, be, m = self.check(assumptions, c, depth, budget)
                if st != "proved": return st, be, m
            return "proved", be, None
        As = [a for a in assumptions if R.is_sym(a)]
        if any(a is False for a in assumptions): return "proved", "vacuous-path", None
        try: An = [self.NM.bnorm(a) for a in As]
        except Unsupported: An = As
        if depth == 0:
            sub = self.determined(An, g)
            if sub:
                try:
                    g = self.NM.bnorm(z3.substitute(g, *sub))
                    An = An + [self.NM.bnorm(z3.substitute(a, *sub)) for a in An]
                except Unsupported: pass
                if z3.is_true(g): return "proved", "ring-normaliser", None
        if self.binders([g]) and self.quick(An, g): return "proved", "z3", None
        lem = self.ext_lemmas(An, g, depth, budget) if depth < 4 or (depth < 8 and len(self.binders([g])) <= 4) else []
        if lem:
            # rewrite with the proved equalities (larger side first), then normalise again
            try:
                g2 = g
                for _ in range(3):
                    sub = [(l.arg(0), l.arg(1)) for l in lem if z3.is_eq(l)]
                    g3 = self.NM.bnorm(z3.substitute(g2, *sub))
                    if g3.eq(g2): break
                    g2 = g3
                if z3.is_true(g2): return "proved", "ring-normaliser", None
                st, be, m = self.smt(An + lem, g2, budget)
                if st == "proved" or g2.eq(g): return st, be, m
            except Unsupported: pass
        st, be, m = self.smt(An + lem, g, budget)
        return st, be, m

    def abstract(self, ts):
        """replace outermost binder applications by constants"""
        bs = self.binders(ts)
        if not bs: return ts, []
        subs = []
        for b in bs:
            subs.append((b, z3.Const(f"abs!{b.get_id()}", b.sort())))
        # outermost first: substitute handles simultaneously at maximal terms
        return [z3.substitute(t, *subs) for t in ts], subs

    def quick(self, An, g):
        """provable with sums and extrema as unrelated values and products uninterpreted"""
        ts2, subs = self.abstract(list(An) + [g])
        q = z3.Solver(); q.set("timeout", 300); q.set("arith.nl", False)
        for a in ts2[:-1]: q.add(a)
        q.add(z3.Not(ts2[-1]))
        self.queries += 1
        return q.check() == z3.unsat
    def smt(self, An, g, budget):
        ts = list(An) + [g]
        ts2, subs = self.abstract(ts)
        extra = []
        # a SUM of syntactically non-negative terms is non-negative
        nn = [c >= 0 for b, c in subs if self.sign_nn(b)]
        ax = self.axioms(ts2) + nn
        An2, g2 = ts2[:-1], ts2[-1]
        # products, inverses and transcendental terms as uninterpreted values first
        q = z3.Solver(); q.set("timeout", min(1000, int(budget))); q.set("arith.nl", False)
        for a in An2 + nn: q.add(a)
        q.add(z3.Not(g2))
        self.queries += 1
        if q.check() == z3.unsat: return "proved", "z3", None
        s = z3.Solver()
        s.set("timeout", int(budget))
        for a in An2 + ax: s.add(a)
        s.add(z3.Not(g2))
        self.queries += 1
        r = s.check()
        if r == z3.unsat: return "proved", "z3", None
        if r == z3.sat:
            return "cex", "z3", s.model()
        # relevance filtered retry + nlsat tactic
        s2 = z3.Tactic("qfnra-nlsat").solver() if False else None
        st = self.cvc5(An2 + ax, g2, budget)
        if st == "unsat": return "proved", "cvc5", None
        return "unknown", "z3+cvc5", None

    def cvc5(self, As, g, budget):
        s = z3.Solver()
        for a in As: s.add(a)
        s.add(z3.Not(g))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt); p = f.name
        try:
            o = subprocess.run(["cvc5", f"--tlimit={int(budget)}", p], capture_output=True, text=True,
                               timeout=budget / 1000 + 5).stdout
        except Exception:
            o = ""
        finally:
            os.unlink(p)
        return "unsat" if o.strip().startswith("unsat") else "unknown"

    def feasible(self, assumptions, budget=1500):
        """False only if assumptions are provably contradictory"""
        As = [a for a in assumptions if R.is_sym(a)]
        if any((not R.is_sym(a)) and not a for a in assumptions): return False
        t0 = time.time()
        ts2, _ = self.abstract(As) if As else ([], [])
        s = z3.Solver(); s.set("timeout", budget)
        for a in ts2 + self.axioms(ts2): s.add(a)
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r != z3.unsat


class Ctx:
    """verification context of one function contract"""
    cur = None
    def __init__(self, prover, name="", max_paths=400, time_limit=300):
        self.P = prover
        self.name = name
        self.obs = []
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.assumed = []     # path condition (raw bools)
        self.decisions = []
        self.pos = 0
        self.trail = []
        self.notes = []
        self.ghost = {}
        self.scopes = []      # stack of in-loop local explorations
        self._cache = {}
        self.memo = {}

    # -- assumptions
    def assume(self, c):
        if c is True: return
        if not R.is_sym(c):
            if not c: raise PathEnd()
            return
        self.assumed.append(c)
        self._cache = {}

    def entails(self, c, budget=800):
        if not R.is_sym(c): return bool(c)
        k = ("e", c.get_id())
        if k in self._cache: return self._cache[k][0]
        # names are reset on every path, so identical queries recur on replays
        As = [a for a in self.assumed if R.is_sym(a)]
        g = (tuple(a.get_id() for a in As), c.get_id())
        hit = self.memo.get(g)
        if hit is None:
            st, _, _ = self.P.prove(self.assumed, c, budget)
            hit = self.memo[g] = (st == "proved", c, As)
        self._cache[k] = hit
        return hit[0]

    def branch(self, c):
        """decide a symbolic condition, forking the path when both sides are possible"""
        if not R.is_sym(c): return bool(c)
        if time.time() > self.deadline: raise Unsupported("verification time limit")
        try: cn = self.P.NM.bnorm(c)
        except Unsupported: cn = c
        if z3.is_true(cn): return True
        if z3.is_false(cn): return False
        k = ("b", cn.get_id())
        if k in self._cache: return self._cache[k][0]
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            t = self.P.feasible(self.assumed + [c])
            f = self.P.feasible(self.assumed + [R.not_(c)])
            if t and f: d = [True, True]       # [value, alternatives left]
            elif t: d = [True, False]
            elif f: d = [False, False]
            else: raise PathEnd()
            self.decisions.append(d)
        self.pos += 1
        v = d[0]
        self.assume(c if v else R.not_(c))
        self._cache[k] = (v, cn)
        return v

    def next_path(self):
        while self.decisions:
            d = self.decisions[-1]
            if d[1]:
                d[0], d[1] = False, False
                return True
            self.decisions.pop()
        return False

    # -- obligations
    def prove(self, goal, name, budget=None, where=""):
        if time.time() > self.deadline:
            self.obs.append(Ob(name, "unknown", "time-limit", 0.0)); raise Enough()
        t0 = time.time()
        if not R.is_sym(goal):
            st, be, m = ("proved", "evaluation", None) if goal else \
                (("proved", "vacuous-path", None) if not self.P.feasible(self.assumed) else ("cex", "evaluation", None))
        else:
            st, be, m = self.P.prove(self.assumed, goal, budget)
        det = ""
        if st != "proved":
            det = str(goal)[:600]
        self.obs.append(Ob(name, st, be, time.time() - t0, m, det, where))
        self.enough()
        return st == "proved"

    def enough(self):
        if sum(o.status != "proved" for o in self.obs) >= 4: raise Enough()

    def fail(self, name, detail, status="cex"):
        if self.P.feasible(self.assumed):
            self.obs.append(Ob(name, status, "execution", 0.0, None, detail)); self.enough()
        else:
            self.obs.append(Ob(name, "proved", "vacuous-path", 0.0))

def explore(ctx, run):
    """run(ctx) once per path"""
    n = 0
    ctx.decisions = []
    while True:
        n += 1
        ctx.pos = 0; ctx.assumed = []; ctx._cache = {}; ctx.ghost = {}; ctx.scopes = []
        Ctx.cur = ctx
        try:
            run(ctx)
        except PathEnd:
            pass
        finally:
            Ctx.cur = None
        if not ctx.next_path(): return n
        if n >= ctx.max_paths: raise Unsupported(f"more than {ctx.max_paths} paths")

def cur():
    c = Ctx.cur
    if c is None: raise Unsupported("symbolic value used outside a verification context")
    return c

# ---- symbolic python scalars ---------------------------------------------
def wrap(r):
    """raw -> python-facing value"""
    if isinstance(r, R.Z3):
        if r.sort() == R.STR:
            from . import strs
            return strs.of(r)
        r = R.val(r)
    if isinstance(r, bool) or isinstance(r, int): return r
    if isinstance(r, Fraction): return S(r)
    return S(r)

def unwrap(x):
    """python-facing scalar -> raw (or None)"""
    if isinstance(x, S): return x.r
    if isinstance(x, (bool, int, Fraction)): return x
    if isinstance(x, float): return R.fl(x)
    if isinstance(x, R.Z3): return x
    f = getattr(x, "__vc_scalar__", None)
    if f is not None: return f()
    return None

def _other(x):
    if isinstance(x, (S, bool, int, Fraction, float)): return unwrap(x)
    return None

class S:
    """symbolic (or exact rational) scalar"""
    __slots__ = ("r",)
    __array_priority__ = 1
    def __init__(self, r): self.r = r
    @property
    def k(self): return R.kind(self.r)
    def _bin(f, swap=False):
        def g(self, o):
            o = _other(o)
            if o is None: return NotImplemented
            return wrap(f(o, self.r) if swap else f(self.r, o))
        return g
    __add__ = _bin(R.add); __radd__ = _bin(R.add, True)
    __sub__ = _bin(R.sub); __rsub__ = _bin(R.sub, True)
    __mul__ = _bin(R.mul); __rmul__ = _bin(R.mul, True)
    __truediv__ = _bin(R.div); __rtruediv__ = _bin(R.div, True)
    __floordiv__ = _bin(R.idiv); __rfloordiv__ = _bin(R.idiv, True)
    __mod__ = _bin(R.imod); __rmod__ = _bin(R.imod, True)
    __pow__ = _bin(R.pow_); __rpow__ = _bin(R.pow_, True)
    __lt__ = _bin(R.lt); __le__ = _bin(R.le); __gt__ = _bin(R.gt); __ge__ = _bin(R.ge)
    def __eq__(self, o):
        o = _other(o)
        if o is None: return NotImplemented
        return wrap(R.eq(self.r, o))
    def __ne__(self, o):
        o = _other(o)
        if o is None: return NotImplemented
        return wrap(R.ne(self.r, o))
    def __neg__(self): return wrap(R.neg(self.r))
    def __pos__(self): return self
    def __abs__(self): return wrap(R.abs_(self.r))
    def __and__(self, o): return wrap(R.and_(R.truth(self.r), R.truth(unwrap(o))))
    __rand__ = __and__
    def __or__(self, o): return wrap(R.or_(R.truth(self.r), R.truth(unwrap(o))))
    __ror__ = __or__
    def __xor__(self, o): return wrap(R.ne(R.truth(self.r), R.truth(unwrap(o))))
    def __invert__(self):
        if self.k == 'b': return wrap(R.not_(self.r))
        raise Unsupported("~ on symbolic int")
    def __bool__(self): return cur().branch(R.truth(self.r))
    def __index__(self):
        if R.is_sym(self.r): raise Unsupported("symbolic integer used as a concrete index")
        if isinstance(self.r, Fraction): raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.r)
    def __int__(self):
        r = R.trunc(self.r)
        if R.is_sym(r): raise Unsupported("int() of a symbolic value")
        return r
    def __float__(self):
        if R.is_sym(self.r): raise Unsupported("float() of a symbolic value")
        return float(self.r)
    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")
    def __hash__(self):
        if R.is_sym(self.r): raise Unsupported("hash of a symbolic value")
        return hash(self.r)
    def __repr__(self): return f"<{self.r}>"
    def __str__(self):
        if Ctx.cur is not None and "textfs" in Ctx.cur.ghost and self.k == 'i':
            from . import strs
            return strs.retag(strs.fmt_int(self.r, ""))
        return f"<{self.r}>"
    def __format__(self, spec):
        if R.is_sym(self.r) and self.k == 'i' and not spec and "textfs" not in cur().ghost:
            NAMED[str(self.r.get_id())] = self
            return f"\u27e8{self.r.get_id()}\u27e9"
        if R.is_sym(self.r) and self.k == 'i':
            from . import strs
            return strs.fmt_int(self.r, spec)
        return f"<{self.r}>"
    # torch/numpy-like scalar conveniences
    def item(self): return self
    def detach(self): return self
    def cpu(self): return self
    def numpy(self): return self
    def astype(self, *_): return self
    def squeeze(self, *_): return self
    def copy(self): return self
    @property
    def shape(self): return ()
    @property
    def dtype(self): return {"i": "int64", "r": "float64", "b": "bool"}[self.k]
    ndim = 0
    def is_integer(self):
        if R.is_sym(self.r): raise Unsupported("is_integer")
        return Fraction(self.r).denominator == 1

NAMED = {}     # symbolic integers formatted into names
def split_name(k):
    """name with one symbolic integer -> (prefix, integer, suffix)"""
    a, r = k.split("\u27e8", 1)
    t, b = r.split("\u27e9", 1)
    if "\u27e8" in b or t not in NAMED: raise Unsupported("name with several symbolic parts")
    return a, NAMED[t], b

def srange_len(a, b, step):
    if not R.is_sym(step):
        if step == 1: d = R.sub(b, a)
        elif step > 0: d = R.idiv(R.add(R.sub(b, a), step - 1), step)
        else: d = R.idiv(R.add(R.sub(a, b), -step - 1), -step)
    else: raise Unsupported("symbolic range step")
    return posdim(d)

def posdim(d):
    """max(d,0), simplified when the sign is entailed"""
    if not R.is_sym(d): return max(d, 0)
    c = cur()
    if c.entails(R.ge(d, 0)): return d
    return R.mx(d, 0)
