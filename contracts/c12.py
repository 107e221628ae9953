"""C12: the activation functions evaluate their documented closed forms elementwise"""
from .common import *
PRELOAD = ["yuca.activations"]
EPS = Fraction(1, 10**9)
def act(): return mod("yuca.activations")
def bell(x, mu, sg, eps=EPS):
    t = R.div(R.sub(x, mu), R.add(eps, sg))
    return R.exp_(R.div(R.neg(R.mul(t, t)), Fraction(2)))
def lin(v): return R.sub(R.mul(Fraction(2), v), Fraction(1))
def clip01(v): return R.mx(Fraction(0), R.mn(Fraction(1), v))
def clip11(v): return R.mx(Fraction(-1), R.mn(Fraction(1), v))
def modes(h):
    """mode of the curve: 0, or any non-zero (symbolic) integer"""
    m = h.int("mode")
    return m, bool(m != 0)
def inputs(h, lib):
    B, Cc, Hh, W = h.int("B", 1), h.int("C", 1), h.int("H", 1), h.int("W", 1)
    x = h.tensor("x", (B, Cc, Hh, W)) if lib == "torch" else h.ndarray("x", (B, Cc, Hh, W))
    return x, (B, Cc, Hh, W)
def scalars(h, form, *names):
    """scalar arguments: as numbers, as zero-dimensional tensors or as one-element tensors"""
    vs = [h.real(n) for n in names]
    t = torch()
    if form == "number": return vs, vs
    if form == "0-d": return vs, [t.tensor(v) for v in vs]
    return vs, [t.tensor([v]) for v in vs]
def check(h, f, x, sh, want):
    xr = x.reader(); snap = h.snapshot(x)
    out = h.call("forward", f, x)
    h.equals(out, sh, lambda i: want(xr(i)), "closed form")
    h.unchanged(snap, "input not modified")
    if out.st is x.st: h.c.fail("output is a new array", "the output aliases the input")
def gaussian(lib, form):
    def f(h):
        m, on = modes(h)
        (mu, sg), a = scalars(h, form, "mu", "sigma")
        x, sh = inputs(h, lib)
        g = h.call("constructor", act().Gaussian, mu=a[0], sigma=a[1], mode=m)
        w = lambda v: bell(v, mu.r, sg.r)
        check(h, g, x, sh, (lambda v: lin(w(v))) if on else w)
    return f
def cosine(lib, form):
    def f(h):
        m, on = modes(h)
        (mu, om), a = scalars(h, form, "mu", "omega")
        x, sh = inputs(h, lib)
        g = h.call("constructor", act().CosOverX2, mu=a[0], omega=a[1], mode=m)
        def w(v):
            d = R.abs_(R.sub(mu.r, v))
            return R.div(R.cos_(R.mul(om.r, d)), R.add(Fraction(1), R.mul(Fraction(100), R.mul(d, d))))
        check(h, g, x, sh, w if on else (lambda v: R.add(w(v), Fraction(1))))
    return f
def dog(lib, form):
    def f(h):
        m, on = modes(h)
        (mu, sg), a = scalars(h, form, "mu", "sigma")
        dx = h.real("dx")
        x, sh = inputs(h, lib)
        g = h.call("constructor", act().DoGaussian, mu=a[0], sigma=a[1], dx=dx, mode=m)
        w = lambda v: R.sub(bell(R.add(v, dx.r), mu.r, sg.r), bell(R.sub(v, dx.r), mu.r, sg.r))
        check(h, g, x, sh, (lambda v: lin(w(v))) if on else w)
    return f
def double(lib, n_mu, n_sg):
    def f(h):
        m, on = modes(h)
        t = torch()
        mu = h.tensor("mu", (n_mu,)); sg = h.tensor("sigma", (n_sg,))
        x, sh = inputs(h, lib)
        rm, rs = mu.reader(), sg.reader()
        g = h.call("constructor", act().DoubleGaussian, mu=mu, sigma=sg, mode=m)
        p = lambda k, n: (0,) if n == 1 else (k,)
        w = lambda v: R.add(bell(v, rm(p(0, n_mu)), rs(p(0, n_sg))), bell(v, rm(p(1, n_mu)), rs(p(1, n_sg))))
        check(h, g, x, sh, (lambda v: clip11(lin(w(v)))) if on else (lambda v: clip01(w(v))))
    return f
def polynomial(lib, as_list=False):
    def f(h):
        m, on = modes(h)
        x, sh = inputs(h, lib)
        n = h.int("n", 0)
        c = h.tensor("c", (n,)); cr = c.reader()
        g = h.call("constructor", act().Polynomial, coefficients=c, mode=m)
        w = lambda v: N.sum_(n.r, lambda k: R.mul(cr((k,)), R.pow_(v, k)))
        check(h, g, x, sh, (lambda v: lin(w(v))) if on else w)
    return f
def mixture(lib, per, np_params=False):
    def f(h):
        m, on = modes(h)
        x, sh = inputs(h, lib)
        n = h.int("n", 1)
        L = n * per
        if per == 2: h.assume(R.ne(R.imod(L.r, 3), 0))
        p = h.ndarray("p", (L,)) if np_params else h.tensor("p", (L,))
        pr = p.reader()
        g = h.call("constructor", act().GaussianMixture, parameters=p, mode=m)
        at = lambda k, o: pr((R.add(R.mul(k, per), o),))
        if per == 3: term = lambda k, v: R.mul(at(k, 0), bell(v, at(k, 1), at(k, 2)))
        else: term = lambda k, v: bell(v, at(k, 0), at(k, 1))
        w = lambda v: N.sum_(n.r, lambda k: term(k, v))
        check(h, g, x, sh, (lambda v: clip11(lin(w(v)))) if on else (lambda v: clip01(w(v))))
    return f
def intervals(lib):
    def f(h):
        m, on = modes(h)
        x, sh = inputs(h, lib)
        n = h.int("n", 0)
        iv = h.tensor("iv", (n, 2)); ir = iv.reader()
        al = h.real("alpha")
        g = h.call("constructor", act().SmoothIntervals, parameters=iv, alpha=al, mode=m)
        sg = lambda v, mu: R.div(Fraction(1), R.add(Fraction(1), R.exp_(R.div(R.mul(Fraction(-4), R.sub(v, mu)), al.r))))
        w = lambda v: N.sum_(n.r, lambda k: R.mul(sg(v, ir((k, 0))), R.sub(Fraction(1), sg(v, ir((k, 1))))))
        check(h, g, x, sh, (lambda v: lin(w(v))) if on else w)
    return f
def steps_fn(h):
    """get_smooth_steps_fn: the numpy variant of the smooth intervals"""
    n = h.int("n", 0); iv = h.ndarray("iv", (n, 2)); ir = iv.reader(); al = h.real("alpha")
    x, sh = inputs(h, "numpy")
    g = h.call("constructor", act().get_smooth_steps_fn, iv, al)
    sg = lambda v, mu: R.div(Fraction(1), R.add(Fraction(1), R.exp_(R.div(R.mul(Fraction(-4), R.sub(v, mu)), al.r))))
    check(h, g, x, sh, lambda v: N.sum_(n.r, lambda k: R.mul(sg(v, ir((k, 0))), R.sub(Fraction(1), sg(v, ir((k, 1)))))))
def smoothlife(h):
    ra, ri = h.real("r_a"), h.real("r_i")
    x, sh = inputs(h, "numpy")
    g = h.call("constructor", act().SmoothLifeKernel, r_a=ra, r_i=ri)
    check(h, g, x, sh, lambda v: R.ite(R.and_(R.ge(v, ri.r), R.le(v, ra.r)), Fraction(1), Fraction(0)))
def meta(h):
    m, on = modes(h)
    B, Hh, W, Cc = h.int("B", 1), h.int("H", 1), h.int("W", 1), h.int("C", 3)
    x = h.tensor("x", (B, Cc, Hh, W)); xr = x.reader(); snap = h.snapshot(x)
    g = h.call("constructor", act().GaussianMetaMixture, mode=m)
    out = h.call("forward", g, x)
    w = lambda i: bell(xr((i[0], 0, i[2], i[3])), xr((i[0], 1, i[2], i[3])), xr((i[0], 2, i[2], i[3])), Fraction(1, 10**7))
    h.equals(out, (B, 1, Hh, W), (lambda i: lin(w(i))) if on else w, "closed form")
    h.unchanged(snap, "input not modified")
def identity(h):
    x, sh = inputs(h, "torch"); xr = x.reader()
    h.equals(h.call("forward", act().Identity(), x), sh, xr, "identity")
def defaults(h):
    """documented default parameters"""
    a = act(); x, sh = inputs(h, "torch"); xr = x.reader()
    q = lambda s: Fraction(s)
    h.equals(h.call("Gaussian()", a.Gaussian(), x), sh, lambda i: bell(xr(i), q("0"), q("0.1")), "Gaussian: mu 0, sigma 0.1, mode 0")
    h.equals(h.call("GaussianMixture()", a.GaussianMixture(), x), sh, lambda i: clip01(bell(xr(i), q("0.5"), q("0.15"))), "GaussianMixture: [0.5, 0.15], mode 0")
    h.equals(h.call("DoGaussian()", a.DoGaussian(), x), sh, lambda i: R.sub(bell(R.add(xr(i), q("0.01")), q("0"), q("0.1")), bell(R.sub(xr(i), q("0.01")), q("0"), q("0.1"))), "DoGaussian: mu 0, sigma 0.1, dx 0.01")
    h.equals(h.call("Polynomial()", a.Polynomial(), x), sh, lambda i: R.mul(q("0.1"), R.add(R.add(q("1"), xr(i)), R.mul(xr(i), xr(i)))), "Polynomial: 0.1 (1 + x + x^2)")
c = lambda name, fn, f: contract("C12", name, fn)(f)
for lib in ("torch", "numpy"):
    for form in ("number", "0-d", "1-d"):
        s = f" [{lib}, {form} parameters]"
        c("Gaussian" + s, ["Gaussian.__init__", "Gaussian.forward"], gaussian(lib, form))
        c("CosOverX2" + s, ["CosOverX2.__init__", "CosOverX2.forward"], cosine(lib, form))
        c("DoGaussian" + s, ["DoGaussian.__init__", "DoGaussian.forward"], dog(lib, form))
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2)):
        c(f"DoubleGaussian [{lib}, {a} mu, {b} sigma]", ["DoubleGaussian.__init__", "DoubleGaussian.forward"], double(lib, a, b))
    c(f"Polynomial [{lib}]", ["Polynomial.__init__", "Polynomial.forward"], polynomial(lib))
    for per in (2, 3):
        c(f"GaussianMixture, {'pairs' if per == 2 else 'triples'} [{lib}]", ["GaussianMixture.__init__", "GaussianMixture.forward"], mixture(lib, per))
    c(f"SmoothIntervals [{lib}]", ["SmoothIntervals.__init__", "SmoothIntervals.forward", "SmoothIntervals.sigmoid_1"], intervals(lib))
c("GaussianMixture, triples [numpy parameters]", ["GaussianMixture.__init__", "GaussianMixture.forward"], mixture("torch", 3, True))
c("get_smooth_steps_fn", ["get_smooth_steps_fn", "sigmoid_1"], steps_fn)
c("SmoothLifeKernel", ["SmoothLifeKernel.__init__", "SmoothLifeKernel.forward"], smoothlife)
c("GaussianMetaMixture", ["GaussianMetaMixture.__init__", "GaussianMetaMixture.forward"], meta)
c("Identity", ["Identity.forward"], identity)
c("default parameters", ["Gaussian.__init__", "GaussianMixture.__init__", "DoGaussian.__init__", "Polynomial.__init__"], defaults)
