"""C06: adaptive and random step sizes"""
from .common import *
from pyvc.raw import Unsupported
PRELOAD = list(FAMILIES.values())
Q = Fraction(3, 4)
def euler_grid(h, ca, u, dt):
    """the automaton's own Euler step with the step size dt (proved equal to the documented formula by the contracts 'Euler step')"""
    save = ca.dt
    ca.dt = dt
    g = ca.get_new_grid(u)
    ca.dt = save
    return g
def relative_error(h, ca, u, c):
    """the largest relative difference between one step of c and two steps of c/2"""
    big = euler_grid(h, ca, u, c)
    half = wrap(R.mul(c.r if isinstance(c, S) else c, Fraction(1, 2)))
    small = euler_grid(h, ca, euler_grid(h, ca, u, half), half)
    b, s = big.reader(), small.reader()
    def err(i):
        d = R.mx(R.sub(b(i), s(i)), R.sub(s(i), b(i)))
        return R.ite(R.gt(s(i), 0), R.ite(R.gt(d, 0), R.div(d, s(i)), d), Fraction(0))
    return A.mk("torch", big._shape, err, "float32").max()
def opaque_layer(name, nout):
    """an arbitrary map of grids: every output element is a function of the whole input grid (of its elements and sizes)"""
    T = torch()
    nout = unwrap(nout)
    fn = z3.Function("layer_" + name, z3.ArraySort(*[R.INT] * 4, R.REAL), *[R.INT] * 8, R.REAL)
    class Layer(T.Module):
        def forward(self, x):
            r, sh = x.reader(), tuple(x._shape)
            vs = [R.fresh_int("lv") for _ in sh]
            b = R.to_real(r(tuple(vs)))
            try: b = cur().P.NM.canon(b)
            except Unsupported: pass
            lam = z3.Lambda(vs, R.z(b))
            return A.mk("torch", (sh[0], nout) + sh[2:], lambda i: fn(lam, *[R.z(d) for d in sh], *[R.z(v) for v in i]), x.st.dtype)
    l = Layer(); l.weight = T.Parameter(T.tensor(0.5))
    return l
def adaptive(mode):
    def f(h):
        E, I = h.int("E", 1), h.int("I", 1)
        ca = family("CODE")(ca_mode="given", kernel_radius=1, kernel_peaks=1)
        ca.ca_mode = "functional"
        ca.external_channels, ca.internal_channels = E, I
        ca.alive_threshold = h.real("alive_threshold")
        ca.id_layer, ca.neighborhood_layer, ca.weights_layer = opaque_layer("id", I), opaque_layer("nbhd", I), opaque_layer("weights", E)
        ca.genesis_fns, _ = opaque_list("Gfn", I)
        ca.persistence_fns, _ = opaque_list("Pfn", I)
        ca.t_count = h.real("t_count")
        s = None
        lo, hi, prev, thr = h.real("min_dt"), h.real("max_dt"), h.real("prev_dt"), h.real("error_threshold")
        h.assume(lo > 0); h.assume(hi >= lo); h.assume(prev > 0)
        ca.min_dt, ca.max_dt, ca.prev_dt, ca.error_threshold = lo, hi, prev, thr
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        snap = h.snapshot(u)
        h.c.while_rule = lambda where: "/" not in where
        t0 = ca.t_count
        out = h.call("forward", ca.forward, u)
        dt, first = h.value(ca.dt), R.mn(R.mul(2, prev.r), hi.r)
        top = R.mx(lo.r, first)
        h.ensure(wrap(R.ge(dt, lo.r)), "dt >= min_dt"); h.ensure(wrap(R.le(dt, top)), "dt <= max(min_dt, min(2*previous dt, max_dt))")
        h.eq(ca.prev_dt, wrap(dt), "dt is recorded as the previous dt")
        h.eq(ca.t_count, wrap(R.add(unwrap(t0), dt)), "time advances by dt")
        want = euler_grid(h, ca, u, wrap(dt))
        h.equals(out, (B, E, Hh, W), want.reader(), "a single Euler step with the recorded dt")
        h.unchanged(snap, "the caller's grid")
        log = h.c.ghost.get("while_log", [])
        if len(log) != 1: raise Unsupported(f"{len(log)} step-size loops under the contract")
        n = log[0]["n"]
        cand = lambda k: wrap(R.mul(first, R.powi(Q, k)))
        if n is None:
            h.ensure(wrap(R.lt(first, lo.r)), "no candidate is tried only if the first one is below min_dt")
            h.eq(wrap(dt), lo, "without a candidate dt = min_dt")
            return
        thr_of = lambda k: wrap(R.lt(h.value(relative_error(h, ca, u, cand(k))), thr.r))
        with h.scope():
            j = R.fresh_int("j")
            h.c.assume(j >= 0); h.c.assume(R.lt(j, n)); c = log[0]["cont"](j); h.c.assume(c)
            h.ensure(wrap(R.not_(unwrap(thr_of(j)))), "every larger candidate of the ladder was rejected")
            h.ensure(wrap(R.ge(unwrap(cand(j)), lo.r)), "every candidate tried is at least min_dt")
        ok = unwrap(thr_of(n))
        accept = R.and_(R.eq(dt, unwrap(cand(n))), R.ge(unwrap(cand(n)), lo.r), ok)
        refuse = R.and_(R.eq(dt, lo.r), R.not_(ok), R.lt(unwrap(cand(R.add(n, 1))), lo.r))
        h.ensure(wrap(R.or_(accept, refuse)), "the last candidate is accepted below the threshold, or rejected with the ladder exhausted and dt = min_dt")
    return f
def euler(fam, mode):
    def f(h):
        E, I, md = channels(h, mode)
        s = CAState(h, family(fam), E, I, ctor={"ca_mode": "given", "kernel_radius": 1, "kernel_peaks": 1})
        u, B, Hh, W = grid(h, s, E)
        if fam == "RandomStepCA": s.ca.min_dt, s.ca.max_dt = h.real("min_dt"), h.real("max_dt")
        snap = h.snapshot(u)
        out = h.call("get_new_grid", s.ca.get_new_grid, u)
        if fam == "RandomStepCA": out, d = out
        dt = h.value(s.ca.dt)
        if fam == "RandomStepCA": h.eq(d, wrap(dt), "the dt returned")
        sp = StepSpec(s, masked(h, s, u, E), Hh, W, md)
        h.equals(out, (B, E, Hh, W), lambda i: sp.euler(i, dt), "Euler step with the recorded dt")
        h.unchanged(snap, "the caller's grid")
    return f
def random_step(h):
    E, I, md = channels(h, "mixed")
    s = CAState(h, family("RandomStepCA"), E, I, ctor={"ca_mode": "given", "kernel_radius": 1, "kernel_peaks": 1})
    ca = s.ca
    lo, hi = h.real("min_dt"), h.real("max_dt"); h.assume(lo > 0); h.assume(hi >= lo)
    ca.min_dt, ca.max_dt = lo, hi
    u, B, Hh, W = grid(h, s, E)
    t0 = unwrap(ca.t_count)
    for k in ("first", "second"):
        h.call("forward", ca.forward, u)
        dt = h.value(ca.dt)
        h.ensure(wrap(R.ge(dt, lo.r)), f"{k} step: dt >= min_dt")
        h.ensure(wrap(R.implies(R.lt(lo.r, hi.r), R.lt(dt, hi.r))), f"{k} step: dt < max_dt")
        h.eq(ca.prev_dt, wrap(dt), f"{k} step: dt is recorded as the previous dt")
        t0 = R.add(t0, dt)
    h.eq(ca.t_count, wrap(t0), "time advances by the step sizes drawn")
def bounds(h):
    """the step-size limits in force after construction"""
    a = [h.real(n) for n in ("p", "M", "m", "e")]
    ca = h.call("CODE()", family("CODE"), prev_dt=a[0], max_dt=a[1], min_dt=a[2], error_threshold=a[3], kernel_radius=1, kernel_peaks=1)
    for n, v in zip(("prev_dt", "max_dt", "min_dt", "error_threshold"), a): h.eq(getattr(ca, n), v, f"{n} configured")
contract("C06", "CODE.forward", ["CODE.forward", "CODE.adaptive_euler", "CODE.get_new_grid", "CODE.update_universe"], time_limit=200)(adaptive(None))
for m in MODES:
    for fam in ("CODE", "RandomStepCA"): contract("C06", f"{fam}: Euler step [{m}]", [f"{fam}.get_new_grid", f"{fam}.update_universe", "CA.id_conv", "CA.neighborhood_conv"])(euler(fam, m))
contract("C06", "RandomStepCA.forward: step sizes", ["RandomStepCA.forward", "RandomStepCA.get_new_grid"])(random_step)
contract("C06", "CODE: limits", ["CODE.__init__"])(bounds)
