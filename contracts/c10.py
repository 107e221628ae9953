"""C10: radial kernels are the normalised profile of the distance to the centre"""
from .common import *
from .c12 import bell, clip01
PRELOAD = ["yuca.kernels"]
EPS = Fraction(1, 10**9)
def ker(): return mod("yuca.kernels")
def side(r): return R.add(R.mul(2, r), 1)
def dist(h, r, scale=None, dx=None, axis=None):
    """distance of cell (y, x) to the centre over r, optionally scaled / shifted"""
    def f(i):
        y, x = R.to_real(R.sub(i[2], r)), R.to_real(R.sub(i[3], r))
        if axis == "x": x = R.add(x, dx)
        if axis == "y": y = R.add(y, dx)
        d = R.div(R.sqrt_(R.add(R.mul(x, x), R.mul(y, y))), R.to_real(r))
        return d if scale is None else R.mul(d, scale)
    return f
def normalised(h, sh, p):
    """(p - min p) / (1e-9 + sum(p - min p)) of a profile p over the shape"""
    P = h.const_array("torch", sh, p, "float64")
    Q = P - P.min()
    return (Q / (wrap(EPS) + Q.sum())).reader()
def conclude(h, k, r, p, edge=False):
    sh = (1, 1, side(r.r), side(r.r))
    h.equals(k, sh, normalised(h, sh, p), "normalised profile")
    if not edge:
        kr = k.reader()
        h.forall(sh, lambda i: R.eq(kr(i), kr((0, 0, i[3], i[2]))), "invariant under transposition")
        h.forall(sh, lambda i: R.eq(kr(i), kr((0, 0, R.sub(R.mul(2, r.r), i[2]), i[3]))), "invariant under vertical reflection")
        h.forall(sh, lambda i: R.eq(kr(i), kr((0, 0, i[2], R.sub(R.mul(2, r.r), i[3])))), "invariant under horizontal reflection")
def dg(v, mu, sg, dx=Fraction(1, 100)): return R.sub(bell(R.add(v, dx), mu, sg), bell(R.sub(v, dx), mu, sg))
def cosp(v, mu, om):
    d = R.abs_(R.sub(mu, v))
    return R.add(R.div(R.cos_(R.mul(om, d)), R.add(Fraction(1), R.mul(Fraction(100), R.mul(d, d)))), Fraction(1))
def simple(fn, prof, scaled):
    def f(h):
        r = h.int("radius", 1); a, b = h.real("a"), h.real("b")
        kw = {"omega": b} if "cos" in fn else {"sigma": b}
        s = h.real("scale") if scaled else None
        if scaled: kw["r_scale"] = s
        k = h.call(fn, getattr(ker(), fn), radius=r, mu=a, **kw)
        d = dist(h, r.r, None if s is None else s.r)
        conclude(h, k, r, lambda i: prof(d(i), a.r, b.r))
    return f
def edge(fn, prof, mode):
    def f(h):
        r = h.int("radius", 1); a, b, dx = h.real("mu"), h.real("sigma"), h.real("dx")
        m = h.int("mode")
        h.assume(m != 0 if mode else m == 0)
        k = h.call(fn, getattr(ker(), fn), radius=r, mu=a, sigma=b, mode=m if mode else 0, dx=dx)
        ax = "x" if mode else "y"
        d1, d2 = dist(h, r.r, None, R.neg(dx.r), ax), dist(h, r.r, None, dx.r, ax)
        conclude(h, k, r, lambda i: R.sub(prof(d1(i), a.r, b.r), prof(d2(i), a.r, b.r)), edge=True)
    return f
def mix_profile(h, per):
    n = h.int("n", 1)
    if per == 2: h.assume(R.ne(R.imod((n * 2).r, 3), 0))
    p = h.tensor("p", (n * per,)); pr = p.reader()
    at = lambda k, o: pr((R.add(R.mul(k, per), o),))
    if per == 3: term = lambda k, v: R.mul(at(k, 0), bell(v, at(k, 1), at(k, 2)))
    else: term = lambda k, v: bell(v, at(k, 0), at(k, 1))
    return p, lambda v: clip01(N.sum_(n.r, lambda k: term(k, v)))
def mixk(per):
    def f(h):
        r = h.int("radius", 1); s = h.real("scale")
        p, prof = mix_profile(h, per)
        k = h.call("get_gaussian_mixture_kernel", ker().get_gaussian_mixture_kernel, radius=r, parameters=p, r_scale=s)
        d = dist(h, r.r, s.r)
        conclude(h, k, r, lambda i: prof(d(i)))
    return f
def by_name(name, build):
    """get_kernel of a configuration"""
    def f(h):
        r = h.int("radius", 1)
        kw, prof = build(h)
        k = h.call("get_kernel", ker().get_kernel, {"name": name, "radius": r, "kernel_kwargs": kw})
        d = dist(h, r.r)
        conclude(h, k, r, lambda i: prof(d(i)))
    return f
def two(n1, n2, prof):
    def b(h):
        x, y = h.real(n1), h.real(n2)
        return {n1: x, n2: y}, lambda v: prof(v, x.r, y.r)
    return b
def b_mix(per):
    def b(h):
        p, prof = mix_profile(h, per); return {"parameters": p}, prof
    return b
def b_dog(h):
    x, y, dx = h.real("mu"), h.real("sigma"), h.real("dx")
    return {"mu": x, "sigma": y, "dx": dx}, lambda v: dg(v, x.r, y.r, dx.r)
def b_slk(h):
    a, i = h.real("r_a"), h.real("r_i")
    return {"r_a": a, "r_i": i}, lambda v: R.ite(R.and_(R.ge(v, i.r), R.le(v, a.r)), Fraction(1), Fraction(0))
def lemma(h):
    """consequences of the normalised form, for an arbitrary profile: entries >= 0, the smallest is 0, sum <= 1"""
    r = h.int("radius", 1); sh = (1, 1, side(r.r), side(r.r))
    P = h.tensor("profile", sh)
    k = normalised(h, sh, P.reader()); pr = P.reader()
    i = h.skolems(sh)
    m, w = h.min_at(P, i)
    h.ensure(R.ge(R.sub(pr(i), m), 0), "p - min p is non-negative")
    q = lambda v: R.sub(pr(v), m)
    s = h.nested(sh, q)
    h.assume(R.ge(s, Fraction(0)))    # SUM of the non-negative terms above (i is arbitrary)
    h.ensure(R.ge(k(i), 0), "entries are non-negative")
    h.eq(S(k(w)), 0, "the smallest entry is 0")
    t = h.nested(sh, k)
    h.ensure(R.le(t, 1), "entries sum to at most 1")
c = lambda name, fn, f: contract("C10", name, fn)(f)
for fn, prof, sc in (("get_gaussian_kernel", bell, True), ("get_cosx2_kernel", cosp, True), ("get_dogaussian_kernel", dg, False)):
    c(fn, [fn], simple(fn, prof, sc))
for fn, prof in (("get_gaussian_edge_kernel", bell), ("get_dogaussian_edge_kernel", dg)):
    for m in (0, 1): c(f"{fn}, mode {'0 (vertical)' if not m else 'not 0 (horizontal)'}", [fn], edge(fn, prof, m))
for per in (2, 3): c(f"get_gaussian_mixture_kernel, {'pairs' if per == 2 else 'triples'}", ["get_gaussian_mixture_kernel"], mixk(per))
GK = [("Gaussian", two("mu", "sigma", bell)), ("CosOverX2", two("mu", "omega", cosp)), ("DoGaussian", b_dog), ("SmoothLifeKernel", b_slk),
      ("GaussianMixture", b_mix(3)), ("GaussianMixture", b_mix(2))]
for j, (n, b) in enumerate(GK): c(f"get_kernel {n}" + (", pairs" if j == 5 else ""), ["get_kernel"], by_name(n, b))
c("normalisation lemma", [], lemma)
