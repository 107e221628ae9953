"""C11: kernels are selected by name; the fixed stencils have their defining values"""
from .common import *
from .c10 import ker, side, dist, by_name, GK, two
PRELOAD = ["yuca.kernels"]
c = lambda name, fn: contract("C11", name, fn)
def cfg(h, name, r, kw=None): return {"name": name, "radius": r, "kernel_kwargs": kw if kw is not None else {}}
for j, (n, b) in enumerate(GK): c(f"get_kernel selects {n}" + (", pairs" if j == 5 else ""), ["get_kernel"])(by_name(n, b))
@c("MooreLike of any radius", ["get_kernel"])
def _(h):
    r = h.int("radius", 1)
    k = h.call("get_kernel", ker().get_kernel, cfg(h, "MooreLike", r))
    s = side(r.r); sh = (1, 1, s, s)
    w = R.div(Fraction(1), R.to_real(R.sub(R.mul(s, s), 1)))
    centre = lambda i: R.and_(R.eq(i[2], r.r), R.eq(i[3], r.r))
    h.equals(k, sh, lambda i: R.ite(centre(i), Fraction(0), w), "uniform, zero in the centre")
    h.eq(k.sum(), 1, "sums to 1")
@c("InnerMoore", ["get_kernel"])
def _(h):
    r = h.int("radius", 1)
    k = h.call("get_kernel", ker().get_kernel, cfg(h, "InnerMoore", r))
    h.equals(k, (1, 1, 3, 3), lambda i: R.ite(R.and_(R.eq(i[2], 1), R.eq(i[3], 1)), Fraction(1), Fraction(0)), "unit impulse")
@c("finite-difference Laplacian", ["get_laplacian_kernel"])
def _(h):
    k = h.call("get_laplacian_kernel", ker().get_laplacian_kernel)
    h.shape_is(k, (1, 1, 3, 3), "stencil")
    h.eq(k.sum(), 0, "sums to 0"); kr = k.reader()
    h.eq(S(kr((0, 0, 1, 1))), -3, "centre is -3")
    q = {0: Fraction(1, 4), 1: Fraction(1, 2), 2: Fraction(-3)}
    for y in range(3):
        for x in range(3): h.eq(S(kr((0, 0, y, x))), q[(y == 1) + (x == 1)], f"entry {y},{x}")
def log_profile(h, r, sg):
    d = dist(h, r.r)
    t = lambda i: R.div(R.mul(d(i), d(i)), R.mul(Fraction(2), R.mul(sg.r, sg.r)))
    A0 = R.div(Fraction(1), R.mul(R.PI, R.mul(R.mul(sg.r, sg.r), R.mul(sg.r, sg.r))))
    return d, t, A0, lambda i: R.neg(R.mul(R.mul(A0, R.sub(Fraction(1), t(i))), R.exp_(R.neg(t(i)))))
def centred(P):
    """(P - mean P) / sum |P - mean P|"""
    L = P - P.mean()
    return L, L / L.abs().sum()
@c("LaplacianOfGaussian of any radius", ["get_kernel", "LaplacianOfGaussian"])
def _(h):
    r = h.int("radius", 1); sg = h.real("sigma"); h.assume(sg != 0)
    s = side(r.r); sh = (1, 1, s, s)
    f = log_profile(h, r, sg)[3]
    k = h.call("get_kernel", ker().get_kernel, cfg(h, "LaplacianOfGaussian", r, {"sigma": sg}))
    h.equals(k, sh, centred(h.const_array("torch", sh, f, "float64"))[1].reader(), "normalised Laplacian of Gaussian")
@c("the Laplacian-of-Gaussian profile is not constant", [])
def _(h):
    r = h.int("radius", 1); sg = h.real("sigma"); h.assume(sg != 0)
    d, t, A0, f = log_profile(h, r, sg)
    ctr, edg = (0, 0, r.r, r.r), (0, 0, r.r, R.mul(2, r.r))
    s2 = R.mul(sg.r, sg.r)
    h.ensure(R.gt(s2, 0), "sigma^2 > 0"); h.assume(R.gt(s2, 0))
    h.ensure(R.gt(A0, 0), "amplitude is positive"); h.assume(R.gt(A0, 0))
    h.ensure(R.eq(d(ctr), 0), "distance of the centre is 0"); h.ensure(R.eq(d(edg), 1), "distance of the edge is 1")
    te = R.div(Fraction(1), R.mul(Fraction(2), s2))
    h.ensure(R.gt(te, 0), "the exponent at the edge is positive"); h.assume(R.gt(te, 0))
    e = R.exp_(R.neg(te))
    h.ensure(R.lt(R.mul(R.sub(Fraction(1), te), e), 1), "(1-t) exp(-t) < 1 for t > 0")
    h.ensure(R.eq(f(ctr), R.neg(A0)), "value at the centre")
    with h.scope():
        h.assume(R.eq(d(edg), 1))
        h.ensure(R.eq(f(edg), R.neg(R.mul(A0, R.mul(R.sub(Fraction(1), te), e)))), "value at the edge")
    x, a = h.real("x"), h.real("a")
    h.assume(x < 1); h.assume(a > 0)
    h.ensure(R.lt(R.neg(a.r), R.neg(R.mul(a.r, x.r))), "centre is below the edge")
@c("a centred non-constant profile sums to 0, its absolute values to 1", [])
def _(h):
    n = h.int("side", 1).r; sh = (1, 1, n, n)
    P = h.tensor("profile", sh); pr = P.reader()
    i, j = h.skolems(sh), h.skolems(sh)
    h.assume(R.ne(pr(i), pr(j)))
    L, k = centred(P); lr = L.reader()
    w = i if bool(wrap(R.ne(lr(i), 0))) else j
    h.ensure(R.ne(lr(w), 0), "an entry differs from the mean")
    h.sum_pos((n, n), lambda q: R.abs_(lr((0, 0) + q)), w[2:], "sum of absolute values")
    h.eq(k.sum(), 0, "sums to 0")
    a, kr = L.abs().sum().reader()(()), k.reader()
    h.sum_cong((n, n), lambda q: R.abs_(kr((0, 0) + q)), lambda q: R.div(R.abs_(lr((0, 0) + q)), a), "|v/a| = |v|/a")
    h.eq(k.abs().sum(), 1, "absolute values sum to 1")
class AnyOther(str):
    """a name different from every known one"""
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    __hash__ = str.__hash__
@c("an unknown name is rejected", ["get_kernel"])
def _(h):
    r = h.int("radius", 1)
    h.raises("AssertionError", AssertionError, ker().get_kernel, cfg(h, AnyOther("any other name"), r))
