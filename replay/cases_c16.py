import os, tempfile, numpy as np, torch
from rt import *
def kernel_cfg(rng, name, r=None):
    u = lambda a=.1, b=.9: float(rng.uniform(a, b))
    c = {"name": name.split("/")[0], "radius": int(r or rng.choice([1, 2, 3]))}
    k = {"Gaussian": lambda: {"mu": u(), "sigma": u()}, "DoGaussian": lambda: {"mu": u(), "sigma": u()}, "LaplacianOfGaussian": lambda: {"sigma": u()},
         "CosOverX2": lambda: {"c": u(1, 4)}, "SmoothLifeKernel": lambda: {"r_inner": u(.1, .4), "r_outer": u(.6, 1)},
         "GaussianMixture": lambda: {"parameters": rng.uniform(.1, .9, 3 * int(rng.choice([1, 2, 3])))}, "GaussianMixture/pairs": lambda: {"parameters": rng.uniform(.1, .9, 2)}}.get(c["name"] if name != "GaussianMixture/pairs" else name)
    if k: c["kernel_kwargs"] = k()
    return c
def fn_cfg(rng, name):
    t = lambda n: torch.tensor(rng.uniform(.1, .9, n).tolist())
    c = {"name": name}
    if name in ("Gaussian", "DoGaussian"): c.update(mu=float(rng.uniform(.1, .5)), sigma=float(rng.uniform(.05, .3)), mode=1)
    if name == "DoGaussian": c["dx"] = float(rng.uniform(.05, .2))
    if name == "DoubleGaussian": c.update(mu=t(2), sigma=t(2), mode=1)
    if name == "Polynomial": c.update(coefficients=t(int(rng.randint(1, 6))), mode=1)
    if name == "SmoothIntervals": c.update(parameters=[sorted(rng.uniform(0, 1, 2).tolist()) for _ in range(int(rng.choice([1, 2])))], alpha=float(rng.uniform(.02, .5)), mode=1)
    if name == "GaussianMixture": c.update(parameters=rng.uniform(.1, .9, int(rng.choice([2, 4, 3, 6, 9]))).tolist(), mode=1)
    return c
KN = ["Gaussian", "DoGaussian", "LaplacianOfGaussian", "CosOverX2", "SmoothLifeKernel", "GaussianMixture", "GaussianMixture/pairs", "MooreLike"]
FN = ["Gaussian", "DoGaussian", "DoubleGaussian", "Polynomial", "SmoothIntervals", "GaussianMixture", "Identity", "ReLU", "Tanh"]
ACT = ["Gaussian", "Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity"]
def make(c, rng):
    f = c["fam"]; cf = {}
    if f == "RxnDfn":
        ca = cls(f)()
        if c["default"]: return ca
        cf = {"neighborhood_kernel_config": kernel_cfg(rng, "LaplacianOfGaussian"), "params": rng.uniform(.01, .1, 4), "feed_rate": .03, "decay_rate": .06, "dt": float(rng.uniform(.1, 1)), "dx": float(rng.uniform(.5, 2)),
              "diffusion_u": float(rng.uniform(.01, .1)), "diffusion_v": float(rng.uniform(.01, .1))}
        ca.load_config(cf); return ca
    kw = dict(kernel_radius=c["rk"], kernel_peaks=c["peaks"], internal_channels=c["I"], external_channels=c["E"], conv_mode=c["mode"], alive_threshold=c["thr"])
    if f == "NCA":
        ca = cls(f)(activation=c["act"], hidden_channels=c["hidden"], **kw)
        if c["default"]: return ca
        n = sum(p.numel() for _, p in ca.weights_layer.named_parameters())
        cf = {"neighborhood_kernel_config": kernel_cfg(rng, c["kernel"])}
        n += sum(np.size(v) for v in cf["neighborhood_kernel_config"].get("kernel_kwargs", {}).values())
        cf["params"] = rng.uniform(-.5, .5, n); cf["params"][-9:] = np.abs(cf["params"][-9:]) + .1
    else:
        ca = cls(f)(**kw)
        if c["default"]: return ca
        cf = {"neighborhood_kernel_config": kernel_cfg(rng, c["kernel"])}
        for k in ("genesis", "persistence"):
            v = [fn_cfg(rng, FN[rng.randint(len(FN))]) for _ in range(c["I"])]
            cf[k + "_config"] = v[0] if len(v) == 1 else v
    if c["ident"]: cf["identity_kernel_config"] = kernel_cfg(rng, "SmoothLifeKernel")
    if c["dt"]: cf["dt"] = float(rng.uniform(.05, .5))
    ca.load_config(cf); return ca
def op(ca, c, o, rng):
    f = c["fam"]
    if o == "set_dt": ca.set_dt(float(rng.uniform(.05, .5)))
    elif o == "set_kernel_radius": ca.set_kernel_radius(int(rng.choice([1, 2, 4])))
    elif o == "set_kernel_config": ca.set_kernel_config(kernel_cfg(rng, "LaplacianOfGaussian" if f == "RxnDfn" else KN[rng.randint(len(KN))]))
    elif o == "set_params":
        k = getattr(ca, "kernel_params", None)
        if f != "RxnDfn" and k is not None and np.size(k) < 2: return      # no mixture has a single parameter
        p = ca.get_params(); ca.set_params(rng.uniform(.05, .6, len(p)))
    elif o == "step": step(ca, grid_of(c, rng, ca), 1)
    elif o == "make_config": ca.make_config()
def grid_of(c, rng, ca):
    m = max(int(ca.kernel_radius) * 2 + 1, c["H"])
    return T(grid(rng, c["B"], 2 if c["fam"] == "RxnDfn" else c["E"], m, max(m, c["W"]), c["grid"]))
def step(ca, u, s):
    ca.eval(); torch.manual_seed(s); np.random.seed(s)
    out = []
    with torch.no_grad():
        for _ in range(2): u = ca(u); out.append(N(u))
    return out
def alike(a, b, us, what):
    for n in ("external_channels", "internal_channels", "conv_mode"): need(getattr(a, n) == getattr(b, n), f"{what}: {n} {getattr(b, n)!r} instead of {getattr(a, n)!r}")
    need(int(a.kernel_radius) == int(b.kernel_radius), f"{what}: kernel_radius {b.kernel_radius} instead of {a.kernel_radius}")
    close(b.dt.reshape(-1), a.dt.reshape(-1), f"{what}: dt", 1e-6)
    close(b.id_layer.weight, a.id_layer.weight, f"{what}: identity kernel", 1e-5)
    close(b.neighborhood_layer.weight, a.neighborhood_layer.weight, f"{what}: neighborhood kernel", 1e-5)
    for i, u in enumerate(us):
        for t, (x, y) in enumerate(zip(step(a, u, i), step(b, u, i))): close(y, x, f"{what}: step {t + 1} from grid {i}", 1e-3)
def scribble(x):
    if isinstance(x, dict):
        for k in list(x):
            if not scribble(x[k]): x[k] = None
        x["name"] = "scribbled"; return True
    if isinstance(x, list):
        for v in x: scribble(v)
        x.append("scribbled"); return True
    if isinstance(x, torch.Tensor) and x.is_floating_point():
        with torch.no_grad(): x.mul_(0).add_(77.)
        return True
    if isinstance(x, np.ndarray) and x.dtype.kind == "f": x[...] = 77; return True
    return False
def other(c, rng): return cls("RxnDfn")() if c["fam"] == "RxnDfn" else cls(c["fam"])(kernel_radius=2, kernel_peaks=2, **({"hidden_channels": 3} if c["fam"] == "NCA" else {}))
def c_round(c):
    rng = np.random.RandomState(c["seed"]); seed(c["seed"] % 2 ** 31)
    with quiet():
        a = make(c, rng)
        for o in c["ops"]: op(a, c, o, rng)
        us = [grid_of(c, rng, a) for _ in range(2)]
        before = [step(a, u, i) for i, u in enumerate(us)]
        b = other(c, rng)
        if c["file"]:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "config.npy")
                a.save_config(p); b.restore_config(p)
        else: b.load_config(a.make_config())
        def still(what):
            for i, u in enumerate(us):
                for x, y in zip(before[i], step(a, u, i)): close(y, x, f"{what}: the automaton's own step from grid {i}", 1e-5)
        still("after making a configuration")
        alike(a, b, us, "restored")
        cfg = a.make_config(); b2 = other(c, rng); b2.load_config(cfg)
        for o in ("set_params", "set_dt", "set_kernel_config"): op(b2, c, o, rng)
        still("after changing a restored automaton")
        b3 = other(c, rng); b3.load_config(cfg); alike(a, b3, us, "restored again from the same configuration")
        scribble(cfg)
        still("after overwriting the configuration"); alike(a, b3, us, "after overwriting the configuration that was loaded")
        b4 = other(c, rng); b4.load_config(a.make_config()); alike(a, b4, us, "restored after overwriting an earlier configuration")
        b5 = other(c, rng); b5.load_config(b3.make_config()); alike(a, b5, us, "restored from a restored automaton")
def cases(prop, seed):
    rng = np.random.RandomState(seed); ch = lambda l: l[rng.randint(len(l))]
    while True:
        f = ch(["CCA", "CCA", "Lenia", "NCA", "NCA", "RxnDfn"]); I = int(ch([1, 1, 2, 3])) if f == "CCA" else 1
        E = int(ch([1, I]))
        ops = [ch(["set_dt", "set_kernel_radius", "set_kernel_config", "set_params", "step", "make_config"]) for _ in range(rng.randint(3))]
        if I > 1 or f == "Lenia": ops = [o for o in ops if o not in ("set_params", "set_kernel_radius")]
        default = bool(rng.rand() < .15 and I == 1)
        if default: ops = [o for o in ops if o != "set_kernel_radius" and not (f == "CCA" and o == "set_params")]
        yield dict(kind="round", seed=int(rng.randint(2 ** 31)), fam=f, E=E, I=I, rk=int(ch([1, 2, 3])), peaks=int(ch([1, 2, 3])), act=ch(ACT), hidden=int(ch([1, 3, 8])), kernel=ch(KN), mode=ch(["circular", "circular", "zeros", "reflect"]),
            thr=float(ch([.1, .05, .3])), ident=bool(rng.rand() < .3), dt=bool(rng.rand() < .8), default=default, file=bool(rng.rand() < .4), ops=ops, B=int(ch([1, 2])), H=int(ch([5, 8])), W=int(ch([5, 9])), grid="random")
CASES = {"C16": {"round": c_round}}
