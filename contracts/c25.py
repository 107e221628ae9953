"""C25: grid analysis: toroidal shift and entropies are exact"""
from .common import *
PRELOAD = ["yuca.analyze"]
EPS = Fraction(1, 10**9)
def an(): return mod("yuca.analyze")
def np_(): return mod("pyvc.numpy_impl")
def log2(v): return R.div(R.log_(v), R.log_(Fraction(2)))
def data(h, dtype="float64", name="grid", lo=1):
    Hh, W = h.int("H", lo), h.int("W", lo)
    g = h.ndarray(name, (Hh, W), dtype=dtype)
    return g, Hh, W

for dtype in ("float64", "uint8"):
    @contract("C25", f"np_shift of {'real' if dtype[0] == 'f' else '8-bit'} grids", ["yuca.analyze.np_shift"])
    def _(h, dtype=dtype):
        g, Hh, W = data(h, dtype); r = g.reader(); snap = h.snapshot(g)
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                s = h.call("np_shift", an().np_shift, g, [a, b])
                at = lambda i: r((R.wrap(R.add(i[0], a), Hh.r), R.wrap(R.add(i[1], b), W.r)))
                h.equals(s, (Hh, W), at, f"cell (i, j) of the shift by ({a}, {b}) is cell (i{a:+d}, j{b:+d}) of the torus")
        h.unchanged(snap, "the grid is not changed")
@contract("C25", "a shift moves every value exactly once", ["yuca.analyze.np_shift"])
def _(h):
    # shifting back restores the grid: nothing is lost and nothing duplicated
    g, Hh, W = data(h); r = g.reader()
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            s = h.call("np_shift", an().np_shift, an().np_shift(g, [a, b]), [-a, -b])
            h.equals(s, (Hh, W), lambda i: r(i), f"shifting by ({a}, {b}) and back")

def quantised(h, g, eps=Fraction(0)):
    """the 8-bit grid the entropy is taken of: floor(255 (g - min) / (max - min [+ eps]))"""
    r = g.reader()
    mn = h.value(np_().min(g)); mx = h.value(np_().max(g - wrap(mn)))
    return (lambda i: R.to_int_exact(R.trunc(R.mul(Fraction(255), R.div(R.sub(r(i), mn), R.add(mx, eps)))))), mn, mx
def counts(q, Hh, W): return lambda k: N.sum_(Hh.r, lambda x: N.sum_(W.r, lambda y: R.ite(R.eq(q((x, y)), k), Fraction(1), Fraction(0))))
def shannon(c):
    tot = N.sum_(256, c)
    p = lambda k: R.div(c(k), tot)
    return p, R.neg(N.sum_(256, lambda k: R.mul(p(k), log2(R.add(EPS, p(k))))))
def not_constant(h, g):
    """constant grids (0/0 in the stretch) are excluded"""
    mn = h.value(np_().min(g)); h.assume(wrap(R.gt(h.value(np_().max(g - wrap(mn))), 0)))
def entropy_call(which, h, g):
    if which == "function":
        not_constant(h, g); return h.call("get_grid_entropy", an().get_grid_entropy, g), Fraction(0)
    ph = object.__new__(an().Phanes)
    not_constant(h, g)
    return h.call("get_grid_entropy", ph.get_grid_entropy, g), EPS
WHERE = {"function": "yuca.analyze.get_grid_entropy", "Phanes": "yuca.analyze.Phanes.get_grid_entropy"}
for which in WHERE:
    @contract("C25", f"{WHERE[which][13:]} is the Shannon entropy of the 8-bit histogram", [WHERE[which]])
    def _(h, which=which):
        g, Hh, W = data(h); snap = h.snapshot(g)
        out, eps = entropy_call(which, h, g)
        q, mn, mx = quantised(h, g, eps)
        h.eq(out, shannon(counts(q, Hh, W))[1], "-sum p log2(p), p the share of cells of each value")
        h.unchanged(snap, "the grid is not changed")
    @contract("C25", f"{WHERE[which][13:]} is not negative", [WHERE[which]])
    def _(h, which=which):
        # up to the 1e-9 inside the logarithm: h >= -log2(1 + 1e-9) > -1.5e-9
        g, Hh, W = data(h)
        out, eps = entropy_call(which, h, g)
        q, mn, mx = quantised(h, g, eps)
        c = counts(q, Hh, W)
        tot = N.sum_(256, c); p, spec = shannon(c)
        w = (0, 0); k0 = q(w)
        for f in A.extremum_facts(R.to_real(k0), (0, 0)): h.assume(wrap(f))
        ind = lambda k: lambda i: R.ite(R.eq(q(i), k), Fraction(1), Fraction(0))
        h.sum_pos((Hh, W), ind(k0), w, "some cell has the value of the first cell")
        nn = lambda i: h.sum_nonneg((Hh, W), ind(i[0]), "the number of cells of one value")
        cc = lambda i: c(i[0])
        h.sum_pos((256,), cc, (k0,), "the total count is positive", nn)
        L = log2(R.add(Fraction(1), EPS))
        def steps(i):
            nn(i); h.sum_ge((256,), cc, i, "no value has more cells than there are", nn)
            h.ensure(wrap(R.ge(p(i[0]), 0)), "share >= 0"); h.ensure(wrap(R.le(p(i[0]), 1)), "share <= 1")
            h.ensure(wrap(R.ge(L, log2(R.add(EPS, p(i[0]))))), "log2(eps + p) <= log2(1 + eps)")
        h.sum_nonneg((256,), lambda i: R.mul(p(i[0]), R.sub(L, log2(R.add(EPS, p(i[0]))))), "p (log2(1 + eps) - log2(eps + p))", steps)
        h.eq(spec, out, "the entropy is the Shannon formula")
        h.ensure(wrap(R.ge(h.value(out), R.neg(L))), "entropy >= -log2(1 + 1e-9)")
DIRS = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}
def conditional(q, d, Hh, W):
    """H(s|u) of the value s of a cell given the value u of its neighbour in the direction d"""
    a, b = DIRS[d]
    qs = lambda i: q((R.wrap(R.add(i[0], a), Hh.r), R.wrap(R.add(i[1], b), W.r)))
    n = lambda s, u: N.sum_(Hh.r, lambda x: N.sum_(W.r, lambda y: R.ite(R.and_(R.eq(q((x, y)), s), R.eq(qs((x, y)), u)), Fraction(1), Fraction(0))))
    tot = N.sum_(256, lambda s: N.sum_(256, lambda u: n(s, u)))
    def term(s, u):
        psu = R.div(n(s, u), R.add(EPS, N.sum_(256, lambda t: n(t, u))))
        return R.mul(R.div(n(s, u), tot), log2(R.add(EPS, psu)))
    return R.neg(N.sum_(256, lambda s: N.sum_(256, lambda u: term(s, u))))
for d in DIRS:
    @contract("C25", f"get_conditional_grid_entropy, direction {d}", ["yuca.analyze.get_conditional_grid_entropy", "yuca.analyze.np_shift"])
    def _(h, d=d):
        g, Hh, W = data(h); snap = h.snapshot(g)
        not_constant(h, g)
        out = h.call("get_conditional_grid_entropy", an().get_conditional_grid_entropy, g, direction=d)
        q, mn, mx = quantised(h, g)
        h.eq(out, conditional(q, d, Hh, W), "-sum p(s, u) log2 p(s | u) over the pairs of a cell and its neighbour")
        h.unchanged(snap, "the grid is not changed")
@contract("C25", "get_multiconditional_grid_entropy", ["yuca.analyze.get_multiconditional_grid_entropy", "yuca.analyze.get_conditional_grid_entropy"])
def _(h):
    g, Hh, W = data(h); not_constant(h, g)
    out = h.call("get_multiconditional_grid_entropy", an().get_multiconditional_grid_entropy, g)
    q, mn, mx = quantised(h, g)
    s = Fraction(0)
    for d in DIRS: s = R.add(s, R.div(conditional(q, d, Hh, W), Fraction(4)))
    h.eq(out, s, "the mean of the four directional entropies")
for nd in (2, 4):
    @contract("C25", f"spatial entropy of {nd}-D grids", ["yuca.analyze.Phanes.get_spatial_entropy"])
    def _(h, nd=nd):
        # checked against the contract of the window entropy: an arbitrary function of the window's cells
        Hh, W, k = h.int("H", 1), h.int("W", 1), h.int("half", 0)
        h.assume(k <= Hh); h.assume(k <= W)
        lead = () if nd == 2 else (h.int("B", 1), h.int("C", 1))
        g = h.ndarray("grid", lead + (Hh, W)); r = g.reader(); snap = h.snapshot(g)
        side = A.canon_int(R.add(R.mul(2, k.r), 1))
        ph = object.__new__(an().Phanes)
        wt = h.reader("weight", 2)
        calls = []
        def window(x):
            h.shape_is(x, (side, side), "window")
            xr = x.reader()
            return wrap(h.nested((side, side), lambda i: R.mul(wt(i), xr(i))))
        ph.get_grid_entropy = window
        out = h.call("get_spatial_entropy", ph.get_spatial_entropy, g, window_size=wrap(side))
        def want(i):
            l, (x, y) = i[:-2], i[-2:]
            at = lambda p, q: r(l + (R.wrap(R.sub(R.add(x, p), k.r), Hh.r), R.wrap(R.sub(R.add(y, q), k.r), W.r)))
            return h.nested((side, side), lambda w: R.mul(wt(w), at(*w)))
        h.equals(out, lead + (Hh, W), want, "the entropy of the window centred on the cell, on the torus")
        h.unchanged(snap, "the grid is not changed")
