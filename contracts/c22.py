"""C22: the glider reward measures displacement of the centre of mass"""
from .common import *
from pyvc import core as C
from pyvc.loops import note_attr
PRELOAD = ["yuca.wrappers.glider_wrapper"]
def gw(): return mod("yuca.wrappers.glider_wrapper")
def np_(): return mod("pyvc.numpy_impl")
from . import c21
ZERO, ONE, EPS = Fraction(0), Fraction(1), Fraction(1, 10 ** 6)
def glider(h, B=1):
    Ca = c21.Automaton()
    class Glider(Ca):
        def __init__(self, **kw): super().__init__(**kw); self.kernel_radius = rk; self.external_channels = E
        def no_grad(self): pass
        def eval(self): pass
    E, D, L, dim, rk = h.int("E", 1), h.int("D", 1), h.int("ca_steps", 1), h.int("dim", 2), h.int("kernel_radius", 1)
    w = h.call("constructor", gw().GliderWrapper, ca_fn=Glider, ca_steps=L, batch_size=B, dim=dim, external_channels=E)
    w.ca.begin(h, E, D, (B, E, dim, dim))
    return w, w.ca, E, L, dim, rk
def step(h, part="reward"):
    h.c.exact_loops = True
    w, ca, E, L, dim, rk = glider(h)
    act = h.tensor("pattern", (1, E, dim, dim), lo=0, hi=1); p = act.reader(); snap = h.snapshot(act)
    ca.start = p
    obs, reward, done, info = h.call("step", w.step, act)
    h.unchanged(snap, "the pattern is not changed")
    Tn = unwrap(ca.t)
    h.ensure(wrap(R.and_(R.ge(Tn, 1), R.le(Tn, unwrap(L)))), "at least one step, at most ca_steps")
    cells = [unwrap(v) for v in (E, dim, dim)]
    G = lambda k: (lambda i: p((0,) + tuple(i))) if not R.is_sym(k) and k == 0 else (lambda i: ca.S((k, 0) + tuple(i)))
    mass = lambda k: h.nested(cells, G(k))
    grew = lambda k: unwrap(A.mk("torch", (1, *cells), lambda i: R.sub(G(k)(i[1:]), G(A.canon_int(R.sub(k, 1)))(i[1:])), "float32").max().item())
    over = lambda k: R.or_(R.eq(mean(k), ZERO), R.le(grew(k), Fraction(1, 10 ** 5)))
    size = R.to_real(R.mul(cells[0], R.mul(cells[1], cells[1])))
    mean = lambda k: R.div(mass(k), size)
    y = lambda x: R.div(R.to_real(x), R.to_real(unwrap(rk)))
    pos = lambda k: R.div(h.nested(cells, lambda i: R.mul(y(i[2]), G(k)(i))), R.add(EPS, mass(k)))
    span = y(R.sub(unwrap(dim), 1))
    cols = A.mk("torch", (1, 1, cells[1], cells[1]), lambda i: y(i[3]), "float32")
    widest, _ = h.max_at(cols, (0, 0, 0, R.sub(cells[1], 1)), name="the widest column")
    h.ensure(wrap(R.eq(widest, span)), "the last column is the farthest"); h.c.assume(R.eq(widest, span)); span = widest
    growth = lambda k, before: R.abs_(R.sub(ONE, R.div(mean(k), R.add(before, EPS))))
    def shift(k, q):
        """displacement from position q to that of grid k"""
        d = R.sub(pos(k), q)
        return R.ite(R.eq(q, ZERO), ZERO, R.ite(R.and_(R.gt(q, R.sub(span, 2)), R.lt(pos(k), 2)), R.add(d, span), d))
    first = R.neg(growth(1, mean(0)))
    later = lambda k: R.sub(shift(k, pos(R.sub(k, 1))), growth(k, mean(R.sub(k, 1))))
    n = A.canon_int(R.sub(Tn, 1))
    each = lambda j: R.ite(R.eq(j, 0), first, later(R.add(j, 1)))
    log = h.c.ghost["for_log"][-1]
    went_on = lambda k: h.c.assume(log["went_on"](k))
    if part == "ends":
        h.ensure(wrap(R.or_(R.eq(Tn, unwrap(L)), over(Tn))), "the run ends early only when the pattern is gone or no cell grows")
        if R.is_sym(n):
            with h.scope():
                k = R.fresh_int("earlier"); h.c.assume(R.and_(R.ge(k, 1), R.lt(k, n))); h.c.assume(log["went_on"](k))
                h.ensure(wrap(R.not_(over(A.canon_int(R.add(k, 1))))), "the run goes on while the pattern is there and grows somewhere")
            with h.scope():
                h.c.assume(R.gt(n, 0)); h.c.assume(log["went_on"](0))
                h.ensure(wrap(R.not_(over(1))), "the run goes on after the first step only while the pattern is there and grows somewhere")
        h.eq(info["active_grid"], wrap(mean(Tn)), "active_grid is the mean of the last grid")
        return
    what = "the reward adds up displacement minus growth over the steps"
    if not R.is_sym(n) and n == 0: h.eq(reward, wrap(first), what)
    elif h.has_sum(reward, n): h.eq_sum(reward, wrap(R.add(N.sum_(n, each), later(Tn))), n, what, went_on, start=1)
    else:
        m = A.canon_int(R.sub(n, 1))
        h.eq_sum(reward, wrap(R.add(first, R.add(N.sum_(m, lambda j: later(R.add(j, 2))), later(Tn)))), m, what, lambda k: (went_on(k), went_on(A.canon_int(R.add(k, 1)))))
contract("C22", "step", ["GliderWrapper.step", "GliderWrapper.meta_step", "GliderWrapper.__init__", "GliderWrapper.init_displacement_grid"], time_limit=200)(step)
contract("C22", "end of the run", ["GliderWrapper.meta_step"], time_limit=200)(lambda h: step(h, "ends"))
