from .common import *
PRELOAD = ["yuca.ca.reaction_diffusion"]
def rd(h, scalar):
    s = RDState(h)
    if scalar:
        T = torch()
        for n, v in s.p.items(): setattr(s.ca, n, T.tensor(v))
    return s
def law(s, u, Hh, W):
    kr, ur, p = s.k.reader(), u.reader(), {n: v.r for n, v in s.p.items()}
    L = lambda b, c, y, x: spec_conv(ur, lambda a, q: kr((0, 0, a, q)), b, y, x, s.side, s.rk, unwrap(Hh), unwrap(W), c)
    dx2 = R.mul(p["dx"], p["dx"])
    def ds(i):
        b, c, y, x = i
        U, V = ur((b, 0, y, x)), ur((b, 1, y, x))
        uvv = R.mul(U, R.mul(V, V))
        du = R.add(R.sub(R.div(R.mul(p["diffusion_u"], L(b, 0, y, x)), dx2), uvv), R.mul(p["f"], R.sub(1, U)))
        dv = R.sub(R.add(R.div(R.mul(p["diffusion_v"], L(b, 1, y, x)), dx2), uvv), R.mul(R.add(p["f"], p["k"]), V))
        return R.ite(R.eq(c, 0), du, dv)
    new = lambda i: R.mx(Fraction(0), R.mn(Fraction(1), R.add(ur(i), R.mul(p["dt"], ds(i)))))
    return ds, new
def step(scalar, frame):
    def f(h):
        s = rd(h, scalar)
        u, B, Hh, W = grid(h, s, 2, lo=None, hi=None)
        h.reachable()
        ds, new = law(s, u, Hh, W)
        snap = h.snapshot(u)
        if frame is None:
            out = h.call("forward", s.ca.forward, u)
            h.equals(out, (B, 2, Hh, W), new, "clip(s + dt*ds)")
        else:
            out = h.call("get_frame", s.ca.get_frame, u, mode=frame)
            if frame: 
                h.equals(out[0], (B, 2, Hh, W), new, "clip(s + dt*ds)")
                if frame in (2, 3, 4): h.equals(out[-1], (B, 2, Hh, W), ds, "the update is the Gray-Scott reaction-diffusion term")
            else: h.equals(out, (B, 2, Hh, W), new, "clip(s + dt*ds)")
        h.unchanged(snap, "input grid not modified")
    return f
def equilibrium(form):
    def f(h):
        s = rd(h, form == "scalar parameters")
        F, k = s.p["f"].r, s.p["k"].r
        h.assume(wrap(R.gt(F, 0))); h.assume(wrap(R.gt(R.add(F, k), 0)))
        # A = sqrt(F)/(F+k) and the equilibrium exists: A^2 >= 4
        h.assume(wrap(R.ge(F, R.mul(4, R.mul(R.add(F, k), R.add(F, k))))))
        B = h.int("B", 1)
        if form == "square": n = h.int("dim", 1); dim, Hh, W = n, n, n
        else: Hh, W = h.int("H", 1), h.int("W", 1); dim = [Hh, W]
        g = h.call("initialize_grid", s.ca.initialize_grid, batch_size=B, dim=dim)
        h.shape_is(g, (B, 2, Hh, W), "initial grid")
        gr = g.reader()
        A_ = R.div(R.sqrt_(F), R.add(F, k))
        root = R.sqrt_(R.sub(R.mul(A_, A_), 4))
        u0 = R.div(R.sub(A_, root), R.mul(2, A_)); v0 = R.div(R.mul(R.sqrt_(F), R.add(A_, root)), 2)
        with h.scope():
            b, y, x = h.skolems((unwrap(B), unwrap(Hh), unwrap(W)))
            h.ensure(wrap(R.eq(gr((b, 0, y, x)), u0)), "channel 0 holds u = (A - sqrt(A^2-4))/(2A)")
            h.ensure(wrap(R.eq(gr((b, 1, y, x)), v0)), "channel 1 holds v = sqrt(F)(A + sqrt(A^2-4))/2")
        # lemma over the two values (pure algebra): with a = sqrt F, r = sqrt(A^2-4)
    return f
def lemma(h):
    """u, v of the initial grid satisfy u*v = F+k and u*v^2 = F(1-u), so the reaction terms vanish"""
    a, G, r = h.real("a", 0, None, True), h.real("G", 0, None, True), h.real("r", 0)      # a = sqrt(F), G = F + k
    A_ = h.real("A", 0, None, True)
    h.assume(wrap(R.eq(R.mul(A_.r, G.r), a.r)))                        # A = sqrt(F)/(F+k)
    h.assume(wrap(R.eq(R.mul(r.r, r.r), R.sub(R.mul(A_.r, A_.r), 4))))  # r = sqrt(A^2-4)
    u, v = h.real("u"), h.real("v")
    h.assume(wrap(R.eq(R.mul(2, R.mul(A_.r, u.r)), R.sub(A_.r, r.r))))
    h.assume(wrap(R.eq(R.mul(2, v.r), R.mul(a.r, R.add(A_.r, r.r)))))
    h.reachable()
    F = R.mul(a.r, a.r)
    h.ensure(wrap(R.eq(R.mul(A_.r, R.mul(u.r, v.r)), a.r)), "A*u*v = sqrt(F)")
    h.assume(wrap(R.eq(R.mul(A_.r, R.mul(u.r, v.r)), a.r)))
    h.ensure(wrap(R.eq(R.mul(u.r, v.r), G.r)), "u*v = F + k")
    h.assume(wrap(R.eq(R.mul(u.r, v.r), G.r)))
    h.ensure(wrap(R.eq(R.mul(2, R.mul(G.r, v.r)), R.mul(a.r, R.add(a.r, R.mul(G.r, r.r))))), "2(F+k)v = F + sqrt(F)(F+k)r")
    h.assume(wrap(R.eq(R.mul(2, R.mul(G.r, v.r)), R.mul(a.r, R.add(a.r, R.mul(G.r, r.r))))))
    h.ensure(wrap(R.eq(R.mul(u.r, R.mul(v.r, v.r)), R.mul(F, R.sub(1, u.r)))), "u*v^2 = F*(1-u)")
def zero_reaction(h):
    """on a grid with u*v = F+k and u*v^2 = F(1-u) and vanishing Laplacian the update is zero"""
    s = rd(h, False)
    B, Hh, W = h.int("B", 1), h.int("H", 1), h.int("W", 1)
    u, v = h.real("u"), h.real("v")
    F, k = s.p["f"].r, s.p["k"].r
    h.assume(wrap(R.eq(R.mul(u.r, v.r), R.add(F, k))))
    h.assume(wrap(R.eq(R.mul(u.r, R.mul(v.r, v.r)), R.mul(F, R.sub(1, u.r)))))
    g = h.const_array("torch", (B, 2, Hh, W), lambda i: R.ite(R.eq(i[1], 0), u.r, v.r), "float32")
    z = h.const_array("torch", (B, 2, Hh, W), lambda i: Fraction(0), "float32")
    out = h.call("update_universe", s.ca.update_universe, g, z)
    h.equals(out, (B, 2, Hh, W), lambda i: Fraction(0), "zero reaction term at the equilibrium")
FN = ["RxnDfn.forward", "RxnDfn.update_universe", "RxnDfn.add_neighborhood_kernel", "RxnDfn.initialize_neighborhood_layer"]
for sc in (False, True):
    w = "scalar" if sc else "one-element"
    contract("C08", f"RxnDfn.forward [{w} parameters]", FN)(step(sc, None))
    for m in range(5):
        contract("C08", f"RxnDfn.get_frame mode {m} [{w} parameters]", ["CA.get_frame"] + FN[1:])(step(sc, m))
for form in ("square", "rectangle", "scalar parameters"):
    contract("C08", f"RxnDfn.initialize_grid [{form}]", ["RxnDfn.initialize_grid"])(equilibrium(form))
contract("C08", "equilibrium identities (lemma)", ["RxnDfn.initialize_grid"])(lemma)
contract("C08", "RxnDfn.update_universe vanishes at the equilibrium", ["RxnDfn.update_universe"])(zero_reaction)
