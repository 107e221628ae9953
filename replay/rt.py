"""Real-code execution for replay: runs the unmodified yuca package of VC_REPO under the real torch.
When this sandbox's torch cannot talk to its numpy (RuntimeError: Numpy is not available), the two bridge
functions are replaced by list-based equivalents; nothing else of torch is touched."""
import os, sys, io, contextlib
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
import torch
torch.set_num_threads(2)
NPDT = {torch.float32: np.float32, torch.float64: np.float64, torch.float16: np.float16, torch.int64: np.int64, torch.int32: np.int32,
        torch.bool: np.bool_, torch.uint8: np.uint8, torch.int16: np.int16, torch.int8: np.int8}
TDT = {np.dtype(v): k for k, v in NPDT.items()}
def _broken():
    try: torch.zeros(1).numpy(); return False
    except RuntimeError: return True
if _broken():
    def _numpy(self, *a, **k):
        return np.array(self.detach().tolist(), dtype=NPDT[self.dtype]).reshape(tuple(self.shape))
    torch.Tensor.numpy = _numpy
    torch.Tensor.__array__ = lambda self, dtype=None: _numpy(self).astype(dtype) if dtype is not None else _numpy(self)
    def _from_numpy(a):
        return torch.tensor(a.tolist(), dtype=TDT[a.dtype]).reshape(a.shape)
    torch.from_numpy = _from_numpy
    _tensor = torch.tensor
    def _tensor_np(data, *a, **k):
        if isinstance(data, np.generic): data = np.asarray(data)
        if isinstance(data, np.ndarray) and data.dtype in TDT:
            k.setdefault("dtype", TDT[data.dtype]); sh = data.shape
            return _tensor(data.tolist(), *a, **k).reshape(sh) if not k.get("requires_grad") else _tensor(data.tolist(), *a, **k)
        return _tensor(data, *a, **k)
    torch.tensor = _tensor_np

def T(a, dtype=torch.float32):
    a = np.asarray(a)
    return torch.tensor(a.ravel().tolist(), dtype=dtype).reshape(a.shape)
def N(t):
    if isinstance(t, torch.Tensor): return np.array(t.detach().cpu().double().tolist(), dtype=np.float64).reshape(tuple(t.shape))
    return np.asarray(t, dtype=np.float64)

class Fail(Exception): pass
def need(c, msg):
    if not c: raise Fail(msg)
def close(a, b, msg, tol=2e-4):
    a, b = N(a), N(b)
    need(a.shape == b.shape, f"{msg}: shape {a.shape} instead of {b.shape}")
    if a.size == 0: return
    ok = np.isfinite(a) == np.isfinite(b)
    need(ok.all(), f"{msg}: non-finite values differ")
    d = np.abs(np.where(np.isfinite(a), a, 0) - np.where(np.isfinite(b), b, 0))
    lim = tol * (1 + np.abs(np.where(np.isfinite(b), b, 0)))
    if (d > lim).any():
        j = np.unravel_index(np.argmax(d - lim), d.shape) if d.shape else ()
        raise Fail(f"{msg}: at {tuple(int(x) for x in j)} got {float(a[j])!r}, expected {float(b[j])!r}")
def same(a, b, msg): need(N(a).shape == N(b).shape and np.array_equal(N(a), N(b)), f"{msg}: changed")

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield

def seed(s):
    np.random.seed(s % (2**32)); torch.manual_seed(s)

class Fn:
    """an arbitrary update function (callable, no parameters)"""
    def __init__(self, a, b, c, d): self.p = (a, b, c, d)
    def __call__(self, x):
        a, b, c, d = self.p
        return a * torch.sin(b * x + c) + d if isinstance(x, torch.Tensor) else a * np.sin(b * x + c) + d
    def parameters(self): return iter(())
    def named_parameters(self): return iter(())
    def to(self, *a): return self

def fns(rng, n): return [Fn(*map(float, (rng.uniform(.5, 2), rng.uniform(1, 6), rng.uniform(0, 6), rng.uniform(-.5, .5)))) for _ in range(n)]

FAM = {"CCA": ("yuca.ca.continuous", "CCA"), "Lenia": ("yuca.lenia", "Lenia"), "CODE": ("yuca.code", "CODE"),
       "RandomStepCA": ("yuca.random_step_ca", "RandomStepCA"), "MetaCA": ("yuca.metaca", "MetaCA"), "NCA": ("yuca.ca.neural", "NCA"),
       "RxnDfn": ("yuca.ca.reaction_diffusion", "RxnDfn")}
def cls(f):
    import importlib
    m, c = FAM[f]
    return getattr(importlib.import_module(m), c)

def build(fam, E, I, rk, rng, **kw):
    """automaton with arbitrary kernels, update functions, dt and threshold; returns (ca, spec)"""
    with quiet():
        if fam == "RxnDfn":
            ca = cls(fam)()
            sp = {"fam": fam, "E": 2, "I": 2}
            for n, lo, hi in (("diffusion_u", .01, .1), ("diffusion_v", .01, .1), ("f", .02, .1), ("k", .02, .1), ("dx", .5, 2), ("dt", .1, 1.5)):
                v = float(np.float32(rng.uniform(lo, hi)))
                setattr(ca, n, torch.tensor([v]) if rng.rand() < .7 else torch.tensor(v)); sp[n] = v
            w = rng.uniform(-1, 1, (1, 1, 2 * rk + 1, 2 * rk + 1)).astype(np.float32)
            ca.add_neighborhood_kernel(T(w)); ca.initialize_neighborhood_layer()
            sp["w"] = np.concatenate([w, w]); sp["rk"] = rk
            return ca, sp
        ctor = dict(external_channels=E, internal_channels=I, kernel_radius=max(rk, 1), kernel_peaks=1)
        if fam == "NCA": ctor["hidden_channels"] = 5
        ctor.update(kw)
        ca = cls(fam)(**ctor)
        w = rng.uniform(-1, 1, (I, 1, 2 * rk + 1, 2 * rk + 1)).astype(np.float32)
        w /= np.abs(w).sum((1, 2, 3), keepdims=True)
        ca.add_neighborhood_kernel(T(w)); ca.initialize_neighborhood_layer()
        dt = float(np.float32(rng.uniform(.05, .6)))
        ca.set_dt(dt)
        thr = float(np.float32(rng.uniform(.1, .7))); ca.alive_threshold = thr
        sp = {"fam": fam, "E": E, "I": I, "rk": rk, "w": w, "dt": dt, "thr": thr}
        if fam == "NCA":
            ca.eval()
            ws = [p for p in ca.weights_layer.parameters() if len(p.shape) == 4]
            for p in ws: p[:] = T(rng.uniform(-1, 1, tuple(p.shape)))
            sp["layers"] = [N(p) for p in ws]
        else:
            ca.genesis_fns = fns(rng, I); ca.persistence_fns = fns(rng, I)
            sp["G"], sp["P"] = ca.genesis_fns, ca.persistence_fns
    return ca, sp

def conv(u, w, E, I, mode="circular"):
    """reference correlation: internal channel k with its kernel w[k] on its source channel(s)"""
    B, _, H, W = u.shape
    r = (w.shape[-1] - 1) // 2
    out = np.zeros((B, I, H, W))
    for k in range(I):
        src = u.sum(1) if I % E else u[:, k // (I // E)]
        kk = w[k if w.shape[0] == I else 0, 0]
        for p in range(w.shape[-2]):
            for q in range(w.shape[-1]):
                ys = np.arange(H) + p - r; xs = np.arange(W) + q - r
                if mode == "circular": out[:, k] += kk[p, q] * src[:, ys % H][:, :, xs % W]
                else:
                    s = src[:, np.clip(ys, 0, H - 1)][:, :, np.clip(xs, 0, W - 1)]
                    out[:, k] += kk[p, q] * s * ((ys >= 0) & (ys < H))[None, :, None] * ((xs >= 0) & (xs < W))[None, None, :]
    return out
def ident(u, E, I):
    B, _, H, W = u.shape
    return np.stack([u.sum(1) if I % E else u[:, k // (I // E)] for k in range(I)], 1)
def mask(u, sp):
    if u.shape[1] < 4 or sp["fam"] == "RxnDfn": return u
    return u * (u[:, 3:4] > sp["thr"])
def update(u, sp):
    """(masked grid, neighborhoods, update)"""
    E, I = sp["E"], sp["I"]
    m = mask(u, sp)
    Nb = conv(m, sp["w"], E, I); Id = ident(m, E, I)
    if sp["fam"] == "RxnDfn":
        U, V = m[:, 0], m[:, 1]; dx2 = sp["dx"]**2
        up = np.stack([sp["diffusion_u"] * Nb[:, 0] / dx2 - U * V * V + sp["f"] * (1 - U),
                       sp["diffusion_v"] * Nb[:, 1] / dx2 + U * V * V - (sp["f"] + sp["k"]) * V], 1)
        return m, Nb, up
    if sp["fam"] == "NCA":
        x = np.concatenate([Id, Nb], 1)
        W0, W1, W2 = sp["layers"]
        lin = lambda w, x: np.einsum("oc,bchw->bohw", w[:, :, 0, 0], x)
        g = sp["act"]
        return m, Nb, np.tanh(lin(W2, g(lin(W1, g(lin(W0, x))))))
    G = np.stack([sp["G"][k](Nb[:, k]) for k in range(I)], 1)
    P = np.stack([sp["P"][k](Nb[:, k]) for k in range(I)], 1)
    t = G if sp["fam"] == "Lenia" else (1 - Id) * G + Id * P
    up = np.repeat(t.sum(1, keepdims=True) / (E * I), E, 1)
    return m, Nb, up
def step(u, sp, dt=None):
    m, Nb, up = update(u, sp)
    return np.clip(m + (dt if dt is not None else sp["dt"]) * up, 0, 1)

def grid(rng, B, E, H, W, kind="random"):
    if kind == "random": u = rng.rand(B, E, H, W)
    elif kind == "zeros": u = np.zeros((B, E, H, W))
    elif kind == "ones": u = np.ones((B, E, H, W))
    elif kind == "binary": u = (rng.rand(B, E, H, W) < .4).astype(float)
    elif kind == "sparse": u = rng.rand(B, E, H, W) * (rng.rand(B, E, H, W) < .2)
    elif kind == "coarse": u = rng.randint(0, 9, (B, E, H, W)) / 8.
    u = np.asarray(u, dtype=np.float32)
    return u.astype(np.float64)
KINDS = ("random", "zeros", "ones", "binary", "sparse", "coarse")
