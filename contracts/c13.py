"""C13: life-like rules with smooth intervals reproduce the discrete rule"""
from .common import *
from pyvc import core as C
PRELOAD = ["yuca.ca.continuous", "yuca.configs", "yuca.activations", "yuca.kernels"]
def cf(): return mod("yuca.configs")
EPS = Fraction(1, 10 ** 6)
def rule(h, name, n):
    """n neighbour counts in any order, repetitions included; n = 0..9 covers every set of counts"""
    l = [h.int(f"{name}{k}", 0) for k in range(n)]
    for b in l: h.assume(wrap(R.le(b.r, 8)))
    return l
def member(l, c): return R.or_(*[R.eq(unwrap(b), c) for b in l]) if l else False
def sg(e): return R.div(Fraction(1), R.add(Fraction(1), R.exp_(e)))
def bump(x, lo, hi, al):
    """documented smooth step between lo and hi of width al"""
    e = lambda mu: R.div(R.mul(Fraction(-4), R.sub(x, mu)), al)
    return R.mul(sg(e(lo)), R.sub(Fraction(1), sg(e(hi))))
def near(val, m):
    """the contract of an update function at a count: about 1 on listed counts, about -1 elsewhere"""
    return R.and_(R.implies(m, R.ge(val, Fraction(99, 100))), R.implies(R.not_(m), R.le(val, Fraction(-99, 100))), R.ge(val, Fraction(-1)))
def loaded(h, nb, ns):
    l = {"genesis": rule(h, "b", nb), "persistence": rule(h, "s", ns)}
    given = list(l["genesis"]), list(l["persistence"])
    cfg = h.call("get_life_like_config", cf().get_life_like_config, 1, *given)
    ca = h.call("constructor", family("CCA"), ca_mode="given", kernel_radius=2)
    ca.ca_mode = "functional"
    h.call("load_config", ca.load_config, cfg)
    h.ensure(len(ca.genesis_fns) == 1 and len(ca.persistence_fns) == 1, "one function of each kind")
    return ca, l
def function(h, ca, l):
    """the loaded functions: close to 1 on the listed counts, close to -1 elsewhere"""
    if (-20, Fraction(1, 10 ** 7)) not in C.EXP_FACTS: C.EXP_FACTS.append((-20, Fraction(1, 10 ** 7)))      # exp(-20) = 2.06e-9
    T = torch()
    c = h.int("c", 0); h.assume(wrap(R.le(c.r, 8)))
    x = R.div(R.to_real(c.r), Fraction(8))
    for key, g in (("genesis", ca.genesis_fns[0]), ("persistence", ca.persistence_fns[0])):
        out = h.call("forward", g, T.tensor([wrap(x)]))
        iv, al = g.intervals.reader(), unwrap(g.alpha)
        v = [bump(x, iv((i, 0)), iv((i, 1)), al) for i in range(len(l[key]))]
        tot = Fraction(0)
        for t in v: tot = R.add(tot, t)
        h.equals(out, (1,), lambda i: R.sub(R.mul(Fraction(2), tot), Fraction(1)), f"{key}: sum of the steps")
        # each listed count contributes a step of height about 1 there and nothing elsewhere
        terms = [h.real(f"t{i}{key[0]}") for i in range(len(v))]
        for t, b in zip(v, l[key]):
            h.ensure(wrap(R.implies(R.eq(b.r, c.r), R.ge(t, R.sub(Fraction(1), EPS)))), f"{key}: a step is high at its count")
            h.ensure(wrap(R.implies(R.ne(b.r, c.r), R.le(t, EPS))), f"{key}: a step is low at other counts")
            h.ensure(wrap(R.ge(t, Fraction(0))), f"{key}: a step is not negative")
        with h.scope():
            # so the value is near 1 or near -1 (t stands for the step, with the bounds just shown)
            tot = Fraction(0)
            for b, t in zip(l[key], terms):
                h.assume(wrap(R.ge(t.r, Fraction(0)))); h.assume(wrap(R.implies(R.eq(b.r, c.r), R.ge(t.r, R.sub(Fraction(1), EPS))))); h.assume(wrap(R.implies(R.ne(b.r, c.r), R.le(t.r, EPS))))
                tot = R.add(tot, t.r)
            h.ensure(wrap(near(R.sub(R.mul(Fraction(2), tot), Fraction(1)), member(l[key], c.r))), f"{key}: near 1 on the listed counts, near -1 on the others")
def functions(nb):
    def f(h):
        for ns in range(10):
            with h.scope(): function(h, *loaded(h, nb, ns))
    return f
def step(nb, ns):
    def f(h):
        """one step of a binary grid, for any functions with the contract shown above"""
        ca, l = loaded(h, nb, ns)
        B, Hh, W = h.int("B", 1), h.int("H", 1), h.int("W", 1)
        alive = z3.Function("alive", R.INT, R.INT, R.INT, R.INT, R.BOOL)
        ur = lambda i: R.ite(alive(*[R.z(k) for k in i]), Fraction(1), Fraction(0))
        u = h.const_array("torch", (unwrap(B), 1, unwrap(Hh), unwrap(W)), ur, "float32")
        G, P = z3.Function("G", R.INT, R.REAL, R.REAL), z3.Function("P", R.INT, R.REAL, R.REAL)
        ca.genesis_fns, ca.persistence_fns = VList([Opaque(G, 0)]), VList([Opaque(P, 0)])
        out = h.call("forward", ca.forward, u)
        h.shape_is(out, (B, 1, Hh, W), "one step")
        o = out.reader()
        i = h.skolems((B, 1, Hh, W))
        at = lambda p, q: alive(R.z(i[0]), R.z(0), R.z(R.wrap(R.add(i[2], p), unwrap(Hh))), R.z(R.wrap(R.add(i[3], q), unwrap(W))))
        n = 0
        for p in (-1, 0, 1):
            for q in (-1, 0, 1):
                if p or q: n = R.add(n, R.ite(at(p, q), 1, 0))
        c = h.int("count", 0); h.assume(wrap(R.le(c.r, 8))); h.assume(wrap(R.eq(c.r, n)))
        nr = Fraction(0)
        for p in (-1, 0, 1):
            for q in (-1, 0, 1):
                if p or q: nr = R.add(nr, R.ite(at(p, q), Fraction(1), Fraction(0)))
        x = R.div(nr, Fraction(8))
        me = alive(*[R.z(k) for k in i])
        born, stays = member(l["genesis"], c.r), member(l["persistence"], c.r)
        h.eq(ca.neighborhood_conv(u).reader()(i), x, "an eighth of the number of live neighbours on the torus")
        gv, pv = G(R.z(0), R.z(x)), P(R.z(0), R.z(x))
        g_, p_ = h.real("g"), h.real("p")
        mm = R.ite(me, Fraction(1), Fraction(0))
        val = lambda g, p: R.mx(Fraction(0), R.mn(Fraction(1), R.add(mm, R.add(R.mul(R.sub(Fraction(1), mm), g), R.mul(mm, p)))))
        h.eq(o(i), val(gv, pv), "next cell from the functions at that value")
        h.assume(wrap(near(g_.r, born))); h.assume(wrap(near(p_.r, stays)))
        want = R.ite(R.or_(R.and_(R.not_(me), born), R.and_(me, stays)), Fraction(1), Fraction(0))
        d = R.sub(val(g_.r, p_.r), want)
        h.ensure(wrap(R.and_(R.le(d, Fraction(1, 100)), R.ge(d, Fraction(-1, 100)))), "within 0.01 of the discrete rule")
    return f
for n in range(10):
    contract("C13", f"functions of every rule with {n} birth counts", ["get_smooth_interval", "get_life_like_config", "CCA.load_config", "CCA.add_genesis_fn", "CCA.add_persistence_fn", "SmoothIntervals.forward", "SmoothIntervals.sigmoid_1"], time_limit=200)(functions(n))
for nb, ns in ((1, 2), (0, 0), (0, 3), (2, 0), (9, 9)):
    contract("C13", f"one step, {nb} birth and {ns} survival counts", ["get_life_like_config", "CCA.load_config", "get_kernel", "CCA.forward", "CA.neighborhood_conv"], time_limit=200)(step(nb, ns))
