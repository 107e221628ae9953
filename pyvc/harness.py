"""Contract registry and the helper object given to every contract."""
import time, traceback, sys, os
from fractions import Fraction
import z3
from . import raw as R, norm as N, core as C, arr as A
from .core import S, wrap, unwrap, Ctx, explore, PathEnd, CheckFailure
from .raw import Unsupported
from .seq import VList, SymIter

REG = {}      # property -> [Contract]
class Contract:
    def __init__(self, prop, name, fn, functions, **k):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.max_paths = k.pop("max_paths", 300)
        self.time_limit = k.pop("time_limit", 90)
        self.bounded = k.pop("bounded", None)
        self.tier = k.pop("tier", "quick")
        self.min_obs = k.pop("min_obs", 1)
        assert not k, k

def contract(prop, name, functions=(), **k):
    def deco(fn):
        REG.setdefault(prop, []).append(Contract(prop, name, fn, list(functions), **k))
        return fn
    return deco

def T():
    from . import torch_impl
    return torch_impl

class H:
    """one path of one contract"""
    def __init__(self, ctx): self.c = ctx
    # -- symbolic inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None: self.c.assume(R.ge(v, unwrap(lo)))
        if hi is not None: self.c.assume(R.le(v, unwrap(hi)))
        return S(v)
    def real(self, name, lo=None, hi=None, strict=False):
        v = z3.Real(name)
        if lo is not None: self.c.assume(R.gt(v, unwrap(lo)) if strict else R.ge(v, unwrap(lo)))
        if hi is not None: self.c.assume(R.lt(v, unwrap(hi)) if strict else R.le(v, unwrap(hi)))
        return S(v)
    def bool(self, name): return S(z3.Bool(name))
    def assume(self, c):
        c = unwrap(c)
        self.c.assume(c)
    def reader(self, name, n, kind='r', lo=None, hi=None):
        srt = {'r': R.REAL, 'i': R.INT, 'b': R.BOOL}[kind]
        if n:
            f = z3.Function(name, *([R.INT] * n), srt)
            rd = lambda idx: f(*[R.z(i) for i in idx])
        else:
            cst = z3.Const(name, srt)
            rd = lambda idx: cst
        if lo is not None or hi is not None:
            C.RANGE_DECLS[name] = [(lo, hi)]
        return rd
    def tensor(self, name, shape, dtype="float32", lo=None, hi=None):
        T()
        sh = tuple(unwrap(d) for d in shape)
        return A.mk("torch", sh, self.reader(name, len(sh), A.dkind(dtype), lo, hi), dtype)
    def ndarray(self, name, shape, dtype="float64", lo=None, hi=None):
        from . import numpy_impl
        sh = tuple(unwrap(d) for d in shape)
        return A.mk("numpy", sh, self.reader(name, len(sh), A.dkind(dtype), lo, hi), dtype)
    def const_array(self, lib, shape, fn, dtype):
        return A.mk(lib, tuple(unwrap(d) for d in shape), fn, dtype)

    # -- calls
    def call(self, name, f, *a, **k):
        try:
            return f(*a, **k)
        except (PathEnd, Unsupported, CheckFailure): raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [t for t in tb if "/yuca/" in t.filename] or tb
            self.c.fail(f"{name}: no exception", f"{type(e).__name__}: {e} at {fr[-1].filename}:{fr[-1].lineno}")
            raise PathEnd()
    def raises(self, name, exc, f, *a, **k):
        """the call must raise exc on every feasible path"""
        try:
            f(*a, **k)
        except exc:
            self.c.prove(True, name); return True
        except (PathEnd, Unsupported, CheckFailure): raise
        except Exception as e:
            self.c.fail(name, f"raised {type(e).__name__}: {e} instead of {exc}")
            return False
        self.c.fail(name, "no exception was raised")
        return False

    # -- obligations
    def ensure(self, goal, name, budget=None):
        g = unwrap(goal) if not isinstance(goal, bool) else goal
        return self.c.prove(R.truth(g), name, budget)
    def scope(self): return _Scope(self.c)
    def skolems(self, shape, prefix="i"):
        """arbitrary indices inside shape (assumed in the current scope)"""
        idx = []
        for d in map(unwrap, shape):
            if not R.is_sym(d) and d == 1: idx.append(0); continue
            i = R.fresh_int(prefix)
            self.c.assume(i >= 0); self.c.assume(R.lt(i, d))
            idx.append(i)
        return tuple(idx)
    def shape_is(self, arr, shape, name):
        if not isinstance(arr, A.Arr):
            self.c.fail(name, f"expected an array, got {type(arr).__name__}"); raise PathEnd()
        shape = tuple(unwrap(d) for d in shape)
        if len(arr._shape) != len(shape):
            self.c.fail(f"{name}: rank", f"rank {len(arr._shape)} instead of {len(shape)}"); raise PathEnd()
        g = R.and_(*[R.eq(a, b) for a, b in zip(arr._shape, shape)])
        if not self.c.prove(g, f"{name}: shape"): raise PathEnd()
    def equals(self, arr, shape, fn, name, budget=None, dtype=None):
        """arr has the shape and arr[i] == fn(i) for every index"""
        self.shape_is(arr, shape, name)
        with self.scope():
            idx = self.skolems(tuple(unwrap(d) for d in shape))
            got = arr.reader()(idx); want = unwrap(fn(idx))
            r = self.c.prove(R.eq(got, want), f"{name}: elements", budget)
        return r
    def forall(self, shape, pred, name, budget=None):
        with self.scope():
            idx = self.skolems(tuple(unwrap(d) for d in shape))
            return self.c.prove(R.truth(unwrap(pred(idx))), name, budget)
    def in_unit(self, arr, name):
        with self.scope():
            idx = self.skolems(arr._shape)
            v = arr.reader()(idx)
            return self.c.prove(R.and_(R.ge(v, 0), R.le(v, 1)), name)
    def snapshot(self, arr):
        return (arr, arr.st, arr.st._fn, arr._shape)
    def unchanged(self, snap, name):
        arr, st, fn, sh = snap
        if arr.st is st and st._fn is fn:
            return self.c.prove(True, name)
        with self.scope():
            idx = self.skolems(st.shape)
            return self.c.prove(R.eq(st._fn(idx), fn(idx)), name)
    def value(self, x):
        """raw value of a scalar-like result (python number or one-element array)"""
        if isinstance(x, A.Arr):
            return x.reader()((0,) * len(x._shape))
        return unwrap(x)
    def eq(self, a, b, name, budget=None):
        a, b = self.value(a), self.value(b)
        if a is None or b is None:
            self.c.fail(name, "not a scalar"); return False
        return self.c.prove(R.eq(a, b), name, budget)
    def sums(self, dims, fn):
        """the nested sum over non-empty ranges, in all its forms with or without the first terms split off"""
        def go(k, idx):
            if k == len(dims): return [fn(idx)]
            n = unwrap(dims[k])
            if self.c.entails(R.eq(n, 1)): return go(k + 1, idx + (0,))
            out = []
            for f in range(2 ** (len(dims) - k - 1)):
                out.append(N.sum_(n, lambda x, f=f: pick(k + 1, idx + (x,), f)))
                for g in range(2 ** (len(dims) - k - 1)):
                    out.append(R.add(pick(k + 1, idx + (0,), g), N.sum_(R.sub(n, 1), lambda x, f=f: pick(k + 1, idx + (R.add(x, 1),), f))))
            return out
        def pick(k, idx, f):
            l = go(k, idx); return l[f % len(l)]
        return go(0, ())
    def eq_forms(self, a, forms, name, budget=None):
        """a == any of the forms, which are all equal by the definition of the finite sum"""
        a = self.value(a)
        if a is None: self.c.fail(name, "not a scalar"); return False
        for f in forms[:-1]:
            if self.c.P.prove(self.c.assumed, R.eq(a, f), 2000)[0] == "proved": return self.c.prove(R.eq(a, f), name, budget)
        return self.c.prove(R.eq(a, forms[-1]), name, budget)
    def has_sum(self, a, n):
        """does a contain, at its top level, a finite sum over range(n)?"""
        nm = N.Norm(); nk = self.c.P.NM.canon(R.z(unwrap(n)))
        return any(z3.is_app(t) and t.decl().eq(R.SUM) and self.c.P.NM.canon(t.arg(1)).eq(nk) for m in nm.poly(R.z(R.to_real(self.value(a)))) for t in (nm.atoms[x[0]] for x in m))
    def eq_sum(self, a, b, n, name, facts=None, budget=None, start=0):
        """a == b, comparing the sums over range(n) on both sides term by term: the summands are equal for an arbitrary index, and so is the rest"""
        a, b, n = R.to_real(self.value(a)), R.to_real(self.value(b)), unwrap(n)
        nm = N.Norm(); p = nm.poly(R.z(R.sub(a, b)))
        nk = self.c.P.NM.canon(R.z(n))
        rest, terms = {}, []
        for m, c in p.items():
            ss = [x for x in m if x[1] == 1 and z3.is_app(nm.atoms[x[0]]) and nm.atoms[x[0]].decl().eq(R.SUM) and self.c.P.NM.canon(nm.atoms[x[0]].arg(1)).eq(nk)]
            if len(ss) == 1: terms.append((nm.term({tuple(x for x in m if x is not ss[0]): c}, R.REAL), nm.atoms[ss[0][0]].arg(0)))
            else: rest[m] = c
        ok = True
        if terms:
            for k in list(range(start)) + [None]:
                with self.scope():
                    if k is None: k = R.fresh_int("term"); self.c.assume(R.ge(k, start))
                    self.c.assume(R.lt(k, n))
                    if facts: facts(k)
                    v = Fraction(0)
                    for c, f in terms: v = R.add(v, R.mul(R.val(c), R.val(z3.substitute_vars(f.body(), R.z(k)))))
                    ok = self.c.prove(R.eq(v, 0), f"{name}: equal terms", budget) and ok
        return self.c.prove(R.eq(R.val(nm.term(rest, R.REAL)) if rest else Fraction(0), 0), name, budget) and ok
    # -- lemmas of finite sums and extrema (definitional properties of SUM / MIN / MAX over a non-empty range);
    #    every premise is an obligation, the conclusion is then assumed
    def nested(self, dims, fn):
        def go(k, idx):
            if k == len(dims): return R.to_real(unwrap(fn(tuple(idx))))
            return N.sum_(dims[k], lambda v: go(k + 1, idx + [v]))
        return go(0, [])
    def _terms(self, dims, pred, name, steps):
        with self.scope():
            idx = self.skolems(dims)
            if steps: steps(idx)
            return self.c.prove(R.truth(unwrap(pred(idx))), name)
    def sum_nonneg(self, dims, fn, name, steps=None):
        """fn >= 0 on the range  =>  SUM fn >= 0 (steps(i): intermediate obligations about the arbitrary index i)"""
        dims = [unwrap(d) for d in dims]
        if self._terms(dims, lambda i: R.ge(fn(i), 0), f"{name}: every term is non-negative", steps):
            self.c.assume(R.ge(self.nested(dims, fn), Fraction(0)))
    def sum_ge(self, dims, fn, w, name, steps=None):
        """fn >= 0 on the range, w inside it  =>  SUM fn >= fn(w)"""
        dims = [unwrap(d) for d in dims]
        a = self._terms(dims, lambda i: R.ge(fn(i), 0), f"{name}: every term is non-negative", steps)
        b = self.ensure(R.and_(*[R.and_(R.ge(i, 0), R.lt(i, d)) for i, d in zip(w, dims)]), f"{name}: inside the range")
        if a and b: self.c.assume(R.ge(self.nested(dims, fn), R.to_real(unwrap(fn(tuple(w))))))
    def sum_pos(self, dims, fn, w, name, steps=None):
        """fn >= 0 on the range and fn(w) > 0  =>  SUM fn > 0"""
        dims = [unwrap(d) for d in dims]
        a = self._terms(dims, lambda i: R.ge(fn(i), 0), f"{name}: every term is non-negative", steps)
        b = self.ensure(R.and_(*[R.and_(R.ge(i, 0), R.lt(i, d)) for i, d in zip(w, dims)], R.gt(fn(w), 0)), f"{name}: a positive term")
        if a and b: self.c.assume(R.gt(self.nested(dims, fn), Fraction(0)))
    def sum_cong(self, dims, f, g, name):
        """f = g on the range  =>  SUM f = SUM g"""
        dims = [unwrap(d) for d in dims]
        if self.forall(dims, lambda i: R.eq(f(i), g(i)), f"{name}: the terms are equal"):
            self.c.assume(R.eq(self.nested(dims, f), self.nested(dims, g)))
    def min_at(self, arr, *idxs, name="minimum"):
        """definition of arr.min(): a lower bound of the entries (instantiated at idxs), attained at a fresh index (returned)"""
        m = unwrap(arr.min().item() if isinstance(arr, A.Arr) and isinstance(arr.min(), A.Arr) else arr.min())
        sh = arr._shape
        self.ensure(R.and_(*[R.ge(d, 1) for d in sh]), f"{name}: non-empty")
        w = tuple(0 if (not R.is_sym(d) and d == 1) else R.fresh_int("argmin") for d in sh)
        for i, d in zip(w, sh):
            self.c.assume(R.ge(i, 0)); self.c.assume(R.lt(i, d))
        r = arr.reader()
        self.c.assume(R.eq(r(w), m))
        for i in idxs: self.c.assume(R.le(m, r(i)))
        self.c.assume(R.le(m, r(w)))
        return m, w
    def max_at(self, arr, *idxs, name="maximum"):
        """definition of arr.max(): an upper bound of the entries (instantiated at idxs), attained at a fresh index (returned)"""
        m = unwrap(arr.max().item() if isinstance(arr.max(), A.Arr) else arr.max())
        sh = arr._shape
        self.ensure(wrap(R.and_(*[R.ge(d, 1) for d in sh])), f"{name}: non-empty")
        w = tuple(0 if (not R.is_sym(d) and d == 1) else R.fresh_int("argmax") for d in sh)
        for i, d in zip(w, sh):
            self.c.assume(R.ge(i, 0)); self.c.assume(R.lt(i, d))
        r = arr.reader()
        self.c.assume(R.eq(r(w), m))
        for i in idxs: self.c.assume(R.ge(m, r(i)))
        return m, w
    def reachable(self, name="precondition is satisfiable"):
        """vacuity guard: the assumptions have a model (up to the solver)"""
        s = z3.Solver(); s.set("timeout", 4000)
        As = [a for a in self.c.assumed if R.is_sym(a)]
        ts, _ = self.c.P.abstract(As) if As else ([], [])
        for a in ts: s.add(a)
        r = s.check()
        self.c.obs.append(C.Ob(name, "proved" if r == z3.sat else "unknown", "z3-cover", 0.0))

class _Scope:
    def __init__(self, c): self.c = c
    def __enter__(self):
        self.saved = (list(self.c.assumed), self.c._cache)
        self.c._cache = dict(self.c._cache)
    def __exit__(self, *a):
        self.c.assumed, self.c._cache = self.saved
        return False

def run_contract(k, timeout=6000, deep=False, time_scale=1.0):
    """-> dict"""
    t0 = time.time()
    C.RANGE_DECLS.clear(); C.UNIFORM_DECLS.clear()
    P = C.Prover(timeout)
    ctx = Ctx(P, k.name, k.max_paths, k.time_limit * time_scale)
    err = None; paths = 0
    def run(c):
        R.reset_names()
        C.RANGE_DECLS.clear(); C.UNIFORM_DECLS.clear()
        k.fn(H(c))
    try:
        paths = explore(ctx, run)
    except C.Enough: ctx.notes.append("several obligations failed: the remaining ones of this contract were not generated")
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [t for t in tb if "/yuca/" in t.filename]
        err = f"outside the verifier's reach: {e}" + (f" (at {os.path.relpath(fr[-1].filename, '/')}:{fr[-1].lineno})" if fr else "")
    except CheckFailure as e:
        err = f"check failure: {e}"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        err = f"verifier error {type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-6:])
    obs = []
    for o in ctx.obs:
        m = None
        if o.model is not None:
            try: m = {str(d): str(o.model[d]) for d in o.model.decls() if d.arity() == 0 and not str(d).startswith(("abs!", "inv"))}
            except Exception: m = None
        obs.append({"name": o.name, "status": o.status, "backend": o.backend, "time": round(o.time, 3), "model": m, "detail": o.detail})
    return {"contract": k.name, "functions": k.functions, "bounded": k.bounded, "obs": obs, "error": err, "paths": paths,
            "time": round(time.time() - t0, 2), "solver_time": round(P.solver_time, 2), "queries": P.queries,
            "notes": list(dict.fromkeys(ctx.notes))}
