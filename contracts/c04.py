"""C04: updates are translation-equivariant, independent across the batch and local.
Two executions of the real step on related grids; no specification of the step itself is used."""
from .common import *
PRELOAD = list(FAMILIES.values())
def np_(): return mod("pyvc.numpy_impl")
class Dyn:
    """an automaton in an arbitrary state, and its step as a function of (grid, velocity) from that state"""
    def __init__(self, h, fam, mode):
        self.h, self.fam = h, fam
        if fam == "RxnDfn": self.s, self.E, self.mode = RDState(h), 2, "same"
        elif fam == "NCA":
            E, I, self.mode = channels(h, mode)
            ca = family("NCA")(hidden_channels=h.int("hidden", 1), kernel_radius=1, kernel_peaks=1)
            self.s = NCAState(h, ca, E, I); ca.eval(); self.E = E
        else:
            E, I, self.mode = channels(h, mode)
            self.s = CAState(h, family(fam), E, I); self.E = E
        self.ca = self.s.ca
        self.rk = self.s.rk
        if fam == "MetaCA": self.ca.ddt = h.real("ddt")
        self.dt = self.ca.dt
    def step(self, u, v=None, label=""):
        ca = self.ca
        if self.fam == "MetaCA": ca.dgrid = v
        if self.fam == "RandomStepCA": mod("yuca.random_step_ca").np.random.seed(7)
        ca.dt = self.dt
        if self.fam == "CODE": return self.h.call(label + "get_new_grid", ca.get_new_grid, u)
        return self.h.call(label + "forward", ca.forward, u)
def start(h, fam, mode):
    d = Dyn(h, fam, mode)
    u, B, Hh, W = grid(h, d.s, d.E, lo=None, hi=None)
    v = h.tensor("velocity", (B, d.E, Hh, W)) if fam == "MetaCA" else None
    return d, u, v, B, unwrap(Hh), unwrap(W)
def reread(h, a, f, shape): 
    if a is None: return None
    r = a.reader()
    return h.const_array("torch", shape, lambda i: r(f(i)), "float32")
def shift(fam, mode):
    def f(h):
        d, u, v, B, Hh, W = start(h, fam, mode)
        dy, dx = h.int("dy").r, h.int("dx").r
        sh = (B, d.E, wrap(Hh), wrap(W))
        to = lambda i: (i[0], i[1], R.wrap(R.add(i[2], dy), Hh), R.wrap(R.add(i[3], dx), W))
        a = d.step(u, v, "grid: ")
        b = d.step(reread(h, u, to, sh), reread(h, v, to, sh), "shifted grid: ")
        ar = a.reader()
        h.shape_is(a, sh, "step")
        h.equals(b, sh, lambda i: ar(to(i)), "step of the shifted grid is the shifted step")
    return f
def batch(fam, mode):
    def f(h):
        d, u, v, B, Hh, W = start(h, fam, mode)
        n = h.int("sample", 0); h.assume(n < B)
        sh1, sh = (1, d.E, wrap(Hh), wrap(W)), (B, d.E, wrap(Hh), wrap(W))
        to = lambda i: (n.r, i[1], i[2], i[3])
        a = d.step(u, v, "batch: ")
        b = d.step(reread(h, u, to, sh1), reread(h, v, to, sh1), "one sample: ")
        ar = a.reader()
        h.shape_is(a, sh, "step of the batch")
        h.equals(b, sh1, lambda i: ar(to(i)), "a sample evolves as if it were stepped alone")
    return f
def local(fam, mode):
    """two grids that agree on the (toroidal) square of the kernel radius around a cell have the same next state there"""
    def f(h):
        d, u, v, B, Hh, W = start(h, fam, mode)
        sh = (B, d.E, wrap(Hh), wrap(W))
        c = h.skolems(tuple(unwrap(x) for x in sh))
        n = A.canon_int(R.add(R.mul(2, d.rk), 1))
        near = lambda i: R.and_(R.eq(i[0], c[0]), R.lt(R.wrap(R.add(R.sub(i[2], c[2]), d.rk), Hh), n), R.lt(R.wrap(R.add(R.sub(i[3], c[3]), d.rk), W), n))
        ur, other = u.reader(), h.tensor("elsewhere", sh).reader()
        u2 = h.const_array("torch", sh, lambda i: R.ite(near(i), ur(i), other(i)), "float32")
        v2 = None
        if v is not None:
            vr, vo = v.reader(), h.tensor("velocity_elsewhere", sh).reader()
            v2 = h.const_array("torch", sh, lambda i: R.ite(R.and_(R.eq(i[0], c[0]), R.eq(i[2], c[2]), R.eq(i[3], c[3])), vr(i), vo(i)), "float32")
        a = d.step(u, v, "grid: "); b = d.step(u2, v2, "grid changed elsewhere: ")
        h.ensure(R.eq(a.reader()(c), b.reader()(c)), "the next state depends only on cells within the kernel radius")
    return f
for fam in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"):
    for mode in MODES if fam != "RxnDfn" else (None,):
        m = f" [{mode}]" if mode else ""
        fn = [f"{fam}.{'get_new_grid' if fam == 'CODE' else 'forward'}", f"{fam}.update_universe", "CA.initialize_neighborhood_layer"]
        for nm, g in (("shift equivariance", shift), ("batch independence", batch), ("locality", local)):
            contract("C04", f"{fam}: {nm}{m}", fn, time_limit=240)(g(fam, mode))
