import numpy as np, torch
from rt import *
import yuca.kernels as K
def make(c):
    with quiet():
        if c["fam"] == "RxnDfn": return cls("RxnDfn")()
        return cls(c["fam"])(external_channels=c["E"], internal_channels=c["I"], kernel_radius=1, kernel_peaks=1, **({"hidden_channels": 3} if c["fam"] == "NCA" else {}))
def arr(c, w):
    w = w.astype(np.float32)
    return {"torch": lambda: T(w), "torch64": lambda: T(w, torch.float64), "numpy": lambda: w.copy(), "numpy64": lambda: w.astype(np.float64)}[c["lib"]]()
def through(ca, c, rng, w, msg, pad="circular"):
    r = (w.shape[-1] - 1) // 2
    u = grid(rng, c["B"], c["E"], max(c["H"], r), max(c["W"], r), c["grid"])
    ut = T(u)
    close(ca.neighborhood_conv(ut), conv(u, w, c["E"], c["I"], pad), msg, 1e-4)
    same(ut, u, "the caller's grid")
def c_install(c):
    rng = np.random.RandomState(c["seed"]); s = 2 * c["rk"] + 1
    ca = make(c)
    if c["pad"] != "circular": ca.conv_mode = c["pad"]
    with quiet():
        for rep in range(c["times"]):
            n = c["I"] if c["form"] == "stack" else 1
            w = rng.uniform(-1, 1, (n, 1, s, s)).astype(np.float32).astype(np.float64)
            k = arr(c, w.reshape({"2-D": (s, s), "3-D": (1, s, s), "4-D": (1, 1, s, s), "stack": w.shape}[c["form"]]))
            ca.add_neighborhood_kernel(k); k[:] = 0
            ca.initialize_neighborhood_layer(); k[:] = 1
    if c["fam"] == "RxnDfn": w = np.concatenate([w, w])
    through(ca, c, rng, w, f"neighborhood of a {c['form']} {c['lib']} kernel", c["pad"])
def c_reject(c):
    rng = np.random.RandomState(c["seed"]); a, b = rng.permutation(6)[:2] + 1
    if c["fam"] == "RxnDfn": c["form"] = "4-D"
    for lib in ("torch",) if c["fam"] == "RxnDfn" else ("torch", "numpy"):
        ca = make(c)
        k = arr(dict(c, lib=lib), rng.rand(*{"2-D": (a, b), "3-D": (1, a, b)}.get(c["form"], (1, 1, a, b))))
        try: ca.add_neighborhood_kernel(k)
        except AssertionError: continue
        raise Fail(f"a {a} by {b} kernel was accepted")
def cfg(rng, name, r):
    v = lambda lo, hi: float(np.float32(rng.uniform(lo, hi)))
    n = int(rng.choice([1, 2, 3]))
    kw = {"Gaussian": lambda: {"mu": v(.1, .9), "sigma": v(.1, .4)}, "GaussianMixture": lambda: {"parameters": np.array([x for _ in range(n) for x in (v(.3, 1), v(.1, .9), v(.1, .4))])},
          "MooreLike": dict, "InnerMoore": dict, "CosOverX2": lambda: {"mu": v(.1, .9), "omega": v(3, 20)}, "DoGaussian": lambda: {"mu": v(.1, .9), "sigma": v(.1, .4), "dx": v(.01, .1)},
          "SmoothLifeKernel": lambda: {"r_i": v(.1, .4), "r_a": v(.6, 1)}, "LaplacianOfGaussian": lambda: {"sigma": v(.3, 1)}}[name]()
    return {"name": name, "radius": r, "kernel_kwargs": kw}
CONF = ("Gaussian", "GaussianMixture", "MooreLike", "CosOverX2", "DoGaussian", "SmoothLifeKernel", "LaplacianOfGaussian")
def c_config(c):
    rng = np.random.RandomState(c["seed"])
    ca = make(c)
    with quiet():
        r, r2 = int(rng.randint(1, 6)), int(rng.randint(1, 9))
        f = cfg(rng, c["name"], r)
        want = lambda rr: (lambda w: np.concatenate([w, w]) if c["fam"] == "RxnDfn" else w)(N(K.get_kernel(dict(f, radius=rr))).astype(np.float32).astype(np.float64))
        ca.set_kernel_config(dict(f))
        need(ca.get_kernel_radius() == r, f"radius {ca.get_kernel_radius()} after setting a configuration of radius {r}")
        through(ca, c, rng, want(r), f"neighborhood after set_kernel_config {f}")
        ca.set_kernel_radius(r2)
        need(ca.get_kernel_radius() == r2 and ca.neighborhood_kernel_config["radius"] == r2, f"radius {ca.get_kernel_radius()} after set_kernel_radius({r2})")
        through(ca, c, rng, want(r2), f"neighborhood after set_kernel_radius({r2}) of {f}")
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    EI = [(1, 1), (1, 3), (2, 2), (2, 4), (2, 3), (3, 2), (3, 3), (4, 8)]
    j = 0
    while True:
        for fam in ("CCA", "NCA", "RxnDfn", "Lenia", "CODE", "MetaCA", "RandomStepCA"):
            E, I = EI[j % len(EI)] if fam != "RxnDfn" else (2, 2)
            base = dict(fam=fam, E=E, I=I, B=1 + j % 2, H=int(rng.randint(1, 10)), W=int(rng.randint(1, 10)), grid=KINDS[rng.randint(len(KINDS))], seed=int(rng.randint(1 << 30)))
            form = "4-D" if fam == "RxnDfn" else ("2-D", "3-D", "4-D", "stack")[(j // 7) % 4]
            yield dict(base, kind="install", form=form, rk=int(rng.randint(0, 4)), lib="torch" if fam == "RxnDfn" else ("torch", "numpy", "torch64", "numpy64")[rng.randint(4)], pad="circular" if fam == "RxnDfn" or j % 3 else "zeros", times=1 + j % 2)
            yield dict(base, kind="config", name=CONF[(j // 3) % len(CONF)])
            if j % 3 == 0: yield dict(base, kind="reject", form=("2-D", "3-D", "4-D")[rng.randint(3)])
            j += 1
CASES = {"C17": {"install": c_install, "reject": c_reject, "config": c_config}}
