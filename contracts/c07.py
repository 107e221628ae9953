from .common import *
PRELOAD = ["yuca.metaca"]
def setup(h, mode):
    E, I, md = channels(h, mode)
    s = CAState(h, family("MetaCA"), E, I)
    s.ddt = h.real("ddt")
    u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
    return s, E, I, md, u, B, Hh, W

def verify(h, s, E, md, u, B, Hh, W, vel, label=""):
    """one step from velocity vel (a reader)"""
    mr = masked(h, s, u, E)
    sp = StepSpec(s, mr, Hh, W, md)
    snap = h.snapshot(u)
    out = h.call(label + "forward", s.ca.forward, u)
    nv = lambda i: R.add(vel(i), R.mul(unwrap(s.ca.ddt), sp.upd(i)))
    h.equals(s.ca.dgrid, (B, E, Hh, W), nv, label + "velocity += ddt * update of the (masked) grid")
    h.equals(out, (B, E, Hh, W), lambda i: R.mx(Fraction(0), R.mn(Fraction(1), R.add(mr(i), R.mul(s.dt.r, nv(i))))), label + "new grid = clip(u + dt*velocity)")
    h.unchanged(snap, label + "input grid not modified")
    return out, nv

zero = lambda i: Fraction(0)
def carried(mode):
    def f(h):
        s, E, I, md, u, B, Hh, W = setup(h, mode)
        s.ca.ddt = s.ddt
        v = h.tensor("velocity", (B, E, Hh, W)); vr = v.reader()
        s.ca.dgrid = v
        verify(h, s, E, md, u, B, Hh, W, vr)
    return f
def other_shape(mode):
    def f(h):
        s, E, I, md, u, B, Hh, W = setup(h, mode)
        s.ca.ddt = s.ddt
        sh = (h.int("b0", 1), h.int("e0", 1), h.int("h0", 1), h.int("w0", 1))
        s.ca.dgrid = h.tensor("velocity", sh)
        h.assume(wrap(R.not_(R.and_(*[R.eq(unwrap(a), unwrap(b)) for a, b in zip(sh, (B, E, Hh, W))]))))
        verify(h, s, E, md, u, B, Hh, W, zero)
    return f
def fresh(mode):
    def f(h):
        s, E, I, md, u, B, Hh, W = setup(h, mode)
        h.ensure(wrap(R.eq(unwrap(s.ca.ddt), Fraction(1, 4))), "documented ddt of 0.25")
        verify(h, s, E, md, u, B, Hh, W, zero, "first step: ")
    return f
def after_reset(mode):
    def f(h):
        s, E, I, md, u, B, Hh, W = setup(h, mode)
        s.ca.ddt = s.ddt
        s.ca.dgrid = h.tensor("velocity", (B, E, Hh, W))
        h.call("reset", s.ca.reset)
        verify(h, s, E, md, u, B, Hh, W, zero, "after reset: ")
    return f
for mode in MODES:
    for nm, g in (("velocity carried over", carried), ("velocity of another shape", other_shape), ("after construction", fresh), ("after reset", after_reset)):
        contract("C07", f"MetaCA.forward, {nm} [{mode}]", ["MetaCA.forward", "MetaCA.reset", "MetaCA.__init__", "CCA.update_universe"], time_limit=240)(g(mode))
