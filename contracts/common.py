"""Shared pre-state builders and specification functions."""
import importlib
from fractions import Fraction
import z3
from pyvc import raw as R, norm as N, core as C, arr as A
from pyvc.core import S, wrap, unwrap, cur
from pyvc.seq import VList
from pyvc.harness import contract, H

def mod(name): return importlib.import_module(name)
def torch(): return mod("pyvc.torch_impl")

class Opaque:
    """an arbitrary elementwise update function: x |-> G(k, x)"""
    def __init__(self, decl, k): self.decl, self.k = decl, k
    def spec(self, x): return self.decl(R.z(self.k), R.z(R.to_real(x)))
    def __call__(self, x): 
        r = x.reader()
        return A.mk("torch", x._shape, lambda i: self.spec(r(i)), x.st.dtype)
    forward = __call__
    def parameters(self): return iter(())
    def named_parameters(self): return iter(())
    def to(self, *a): return self
    def __vc_subst__(self, ft, fv): return Opaque(self.decl, ft(self.k) if R.is_sym(self.k) else self.k)

def opaque_list(name, n):
    d = z3.Function(name, R.INT, R.REAL, R.REAL)
    l = VList.sym(unwrap(n), lambda k: Opaque(d, k)) if R.is_sym(unwrap(n)) else VList([Opaque(d, k) for k in range(unwrap(n))])
    return l, (lambda k, x: d(R.z(k), R.z(R.to_real(x))))

def bare(cls, **kw):
    """a real instance built by the real constructor under the trusted torch contracts"""
    return cls(**kw)

class CAState:
    """a CA whose kernels, dt, threshold, channels and update functions are arbitrary.
    The layers are (re)built by the real initialize_* methods."""
    def __init__(self, h, cls, E, I, ksize=None, idk=None, fns=True, rk=None, conv_mode=None, ctor=None):
        self.h = h
        T = torch()
        # constructed without the random default update functions (they are replaced by arbitrary ones below)
        ctor = {"ca_mode": "given", "kernel_radius": 1, "kernel_peaks": 1} if ctor is None and fns else (ctor or {})
        ca = cls(**ctor)
        if "ca_mode" in ctor: ca.ca_mode = "functional"
        self.ca, self.E, self.I = ca, unwrap(E), unwrap(I)
        ca.external_channels, ca.internal_channels = E, I
        if conv_mode: ca.conv_mode = conv_mode
        # neighborhood kernel of odd side 2*rk+1
        self.rk = unwrap(rk if rk is not None else h.int("rk", 0))
        side = A.canon_int(R.add(R.mul(2, self.rk), 1))
        self.side = side
        g = self.groups()
        # a single kernel is broadcast to every output channel; a stack holds one per internal channel
        self.nk = T.Tensor(A.Storage((self.I, 1, side, side), h.reader("nbhd", 4), "float32"))
        ca.neighborhood_kernels = self.nk; ca.neighborhood_dim = wrap(side)
        ca.initialize_id_layer()
        ca.initialize_neighborhood_layer()
        ca.initialize_weight_layer()
        self.dt = h.real("dt")
        ca.dt = T.tensor(self.dt)
        self.thr = h.real("alive_threshold")
        ca.alive_threshold = self.thr
        if fns:
            ca.genesis_fns, self.G = opaque_list("Gfn", wrap(self.I))
            ca.persistence_fns, self.P = opaque_list("Pfn", wrap(self.I))
        self.t0 = h.real("t_count")
        ca.t_count = self.t0
    def groups(self): return None

# ---- families ------------------------------------------------------------
FAMILIES = {"CCA": "yuca.ca.continuous", "Lenia": "yuca.lenia", "CODE": "yuca.code", "RandomStepCA": "yuca.random_step_ca",
            "MetaCA": "yuca.metaca", "NCA": "yuca.ca.neural", "RxnDfn": "yuca.ca.reaction_diffusion", "CA": "yuca.ca.common"}
def family(n): return getattr(mod(FAMILIES[n]), n)

def channels(h, mode):
    """one external channel / I a multiple of E / channel-mixing; together: every E, I >= 1"""
    if mode == "one": return 1, h.int("I", 1), "one"
    if mode == "multiple":
        E, M = h.int("E", 2), h.int("M", 1)
        return E, wrap(A.canon_int(R.mul(E.r, M.r))), M.r
    E, I = h.int("E", 2), h.int("I", 1)
    h.assume(wrap(R.ne(R.imod(I.r, E.r), 0)))
    return E, I, "mixed"
MODES = ("one", "multiple", "mixed")

def grid(h, s, E, lo=0, hi=1, dtype="float32", name="u", B=None, H=None, W=None):
    """an arbitrary grid (circular padding needs the sides to be at least the kernel radius)"""
    B = B if B is not None else h.int("B", 1)
    Hh = H if H is not None else h.int("H", 1)
    W = W if W is not None else h.int("W", 1)
    if s is not None: h.assume(Hh >= wrap(s.rk)); h.assume(W >= wrap(s.rk))
    return h.tensor(name, (B, E, Hh, W), lo=lo, hi=hi, dtype=dtype), B, Hh, W

def spec_conv(u, w, b, y, x, side, rk, H, W, chans):
    """circular correlation with the kernel w(p,q); chans: one input channel or (n, f) summed"""
    def one(cin):
        return N.sum_(side, lambda p: N.sum_(side, lambda q: R.mul(w(p, q),
            u((b, cin, R.wrap(R.sub(R.add(y, p), rk), H), R.wrap(R.sub(R.add(x, q), rk), W))))))
    if isinstance(chans, tuple): return N.sum_(chans[0], one)
    return one(chans)

class StepSpec:
    """the documented glaberish quantities as functions of the grid reader ur"""
    def __init__(self, s, ur, Hh, W, mode):
        self.s, self.ur, self.mode = s, ur, mode
        self.H, self.W = unwrap(Hh), unwrap(W)
        self.nk = s.nk.reader()
    def src(self, k):
        if not R.is_sym(self.mode):
            if self.mode == "mixed": return (self.s.E, None)
            if self.mode == "one": return 0
            if self.mode == "same": return k
        q, r = A.smart_divmod(k, self.mode)      # I = E*mode: internal channel k reads external channel k div mode
        return q
    def N(self, i):
        b, k, y, x = i
        return spec_conv(self.ur, lambda p, q: self.nk((k, 0, p, q)), b, y, x, self.s.side, self.s.rk, self.H, self.W, self.src(k))
    def I(self, i):
        b, k, y, x = i
        c = self.src(k)
        if isinstance(c, tuple): return N.sum_(self.s.E, lambda e: self.ur((b, e, y, x)))
        return self.ur((b, c, y, x))
    def growth_term(self, b, k, y, x):
        n, c = self.N((b, k, y, x)), self.I((b, k, y, x))
        return R.add(R.mul(R.sub(1, c), self.s.G(k, n)), R.mul(c, self.s.P(k, n)))
    def lenia_term(self, b, k, y, x): return self.s.G(k, self.N((b, k, y, x)))
    def upd(self, i, term=None):
        b, e, y, x = i
        t = term or self.growth_term
        return R.mul(R.div(1, R.to_real(R.mul(self.s.E, self.s.I))), N.sum_(self.s.I, lambda k: t(b, k, y, x)))
    def euler(self, i, dt, term=None):
        return R.mx(Fraction(0), R.mn(Fraction(1), R.add(self.ur(i), R.mul(unwrap(dt), self.upd(i, term)))))

def masked(h, s, u, E):
    """the grid after the documented alive mask"""
    ur = u.reader()
    if not h.c.branch(R.ge(unwrap(E), 4)): return ur
    return lambda i: R.mul(ur(i), R.ite(R.gt(ur((i[0], 3, i[2], i[3])), unwrap(s.thr)), Fraction(1), Fraction(0)))

class NCAState:
    def __init__(self, h, ca, E, I):
        self.ca, self.E, self.I = ca, unwrap(E), unwrap(I)
        ca.external_channels, ca.internal_channels = E, I
        rk = self.rk = h.int("rk", 0).r
        side = A.canon_int(R.add(R.mul(2, rk), 1))
        ca.neighborhood_kernels = h.tensor("nbhd", (I, 1, side, side)); ca.neighborhood_dim = wrap(side)
        ca.initialize_id_layer(); ca.initialize_neighborhood_layer(); ca.initialize_weight_layer()
        ca.dt = torch().tensor(h.real("dt")); ca.alive_threshold = self.thr = h.real("thr"); ca.t_count = h.real("t_count")

class RDState:
    def __init__(self, h, Dt=None):
        ca = self.ca = family("RxnDfn")()
        rk = self.rk = h.int("rk", 0).r
        side = self.side = A.canon_int(R.add(R.mul(2, rk), 1))
        self.k = h.tensor("lap", (1, 1, side, side))
        ca.add_neighborhood_kernel(self.k); ca.initialize_neighborhood_layer()
        T = torch()
        self.p = {}
        for n in ("diffusion_u", "diffusion_v", "f", "k", "dt", "dx"):
            self.p[n] = h.real(n)
            setattr(ca, n, T.tensor([self.p[n]]))
        h.assume(wrap(R.gt(self.p["dx"].r, 0)))
        ca.t_count = h.real("t_count")
