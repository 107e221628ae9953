import numpy as np, torch
from rt import *
import yuca.kernels as K
def bell(x, m, s): return np.exp(-((x - m) / (1e-9 + s)) ** 2 / 2)
def dog(x, m, s, dx=.01): return bell(x + dx, m, s) - bell(x - dx, m, s)
def cosp(x, m, o): d = np.abs(m - x); return np.cos(o * d) / (1 + 100 * d * d) + 1
def mesh(r): a = np.arange(-r, r + 1); return np.meshgrid(a, a)
def dist(r, dx=0., dy=0.): xx, yy = mesh(r); return np.sqrt((xx + dx) ** 2 + (yy + dy) ** 2) / r
def norm(p): q = p - p.min(); return (q / (1e-9 + q.sum()))[None, None]
def f32(v): return float(np.float32(v))
def check(k, want, msg, edge=False):
    tol = 2e-6
    need(tuple(k.shape) == want.shape, f"{msg}: shape {tuple(k.shape)} instead of {want.shape}")
    k = N(k); close(k, want, msg, tol * 10)
    need(k.min() == 0, f"{msg}: smallest entry {k.min()}"); need(k.sum() <= 1 + 1e-5, f"{msg}: sum {k.sum()}")
    if not edge:
        for t in (k.transpose(0, 1, 3, 2), k[:, :, ::-1], k[..., ::-1]): close(k, t, f"{msg}: symmetry", 1e-6)
def mixp(rng, n, per):
    mu, sg, am = rng.uniform(0, 1, n), rng.uniform(.05, .4, n), rng.uniform(.2, 1, n)
    p = np.stack([am, mu, sg] if per == 3 else [mu, sg], 1).ravel().astype(np.float32).astype(np.float64)
    q = p.reshape(n, per)
    am = q[:, 0] if per == 3 else np.ones(n); mu, sg = q[:, -2], q[:, -1]
    return p, lambda d: np.clip(sum(a * bell(d, m, s) for a, m, s in zip(am, mu, sg)), 0, 1)
def c_kernel(c):
    rng = np.random.RandomState(c["seed"]); r = c["r"]; fn = c["fn"]; d = dist(r)
    mu, sg, sc, om = f32(rng.uniform(.1, .9)), f32(rng.uniform(.08, .4)), float(rng.uniform(.5, 2)), f32(rng.uniform(3, 26))
    per = c["per"]; n = int(rng.randint(1, 5))
    if per == 2 and n % 3 == 0: n += 1
    p, prof = mixp(rng, n, per); ps = [T(p), p, p.tolist()][rng.randint(3)]
    if c["how"] == "function":
        if fn == "Gaussian": check(K.get_gaussian_kernel(radius=r, mu=mu, sigma=sg, r_scale=sc), norm(bell(d * sc, mu, sg)), fn)
        elif fn == "GaussianMixture": check(K.get_gaussian_mixture_kernel(radius=r, parameters=ps, r_scale=sc), norm(prof(d * sc)), fn)
        elif fn == "CosOverX2": check(K.get_cosx2_kernel(radius=r, mu=mu, omega=om, r_scale=sc), norm(cosp(d * sc, mu, om)), fn)
        elif fn == "DoGaussian": check(K.get_dogaussian_kernel(radius=r, mu=mu, sigma=sg), norm(dog(d, mu, sg)), fn)
        elif fn == "edges":
            dx = f32(rng.uniform(.005, .5))
            for name, pr in (("get_gaussian_edge_kernel", bell), ("get_dogaussian_edge_kernel", dog)):
                for m in (0, 1, 2):
                    a, b = (dist(r, -dx), dist(r, dx)) if m else (dist(r, 0, -dx), dist(r, 0, dx))
                    check(getattr(K, name)(radius=r, mu=mu, sigma=sg, mode=m, dx=dx), norm(pr(a, mu, sg) - pr(b, mu, sg)), f"{name} mode {m}", True)
    else:
        g = lambda **kw: K.get_kernel({"name": fn, "radius": r, "kernel_kwargs": kw})
        if fn == "Gaussian": check(g(mu=mu, sigma=sg), norm(bell(d, mu, sg)), fn)
        elif fn == "GaussianMixture": check(g(parameters=ps), norm(prof(d)), fn)
        elif fn == "CosOverX2": check(g(mu=mu, omega=om), norm(cosp(d, mu, om)), fn)
        elif fn == "DoGaussian":
            dx = f32(rng.uniform(.005, .1)); check(g(mu=mu, sigma=sg, dx=dx), norm(dog(d, mu, sg, dx)), fn)
        else:
            ri, ra = sorted(rng.uniform(0, 1.3, 2)); check(g(r_a=ra, r_i=ri), norm(((d >= ri) & (d <= ra)) * 1.0), fn)
def c_stencil(c):
    r = c["r"]
    g = lambda nm, **kw: K.get_kernel({"name": nm, "radius": r, "kernel_kwargs": kw})
    w = np.full((2 * r + 1, 2 * r + 1), 1 / ((2 * r + 1) ** 2 - 1)); w[r, r] = 0
    k = g("MooreLike"); close(k, w[None, None], "MooreLike", 1e-6); close(N(k).sum(), 1, "MooreLike sum", 1e-5)
    w = np.zeros((1, 1, 3, 3)); w[0, 0, 1, 1] = 1; close(g("InnerMoore"), w, "InnerMoore", 0)
    close(K.get_laplacian_kernel(), np.array([[[[.25, .5, .25], [.5, -3, .5], [.25, .5, .25]]]]), "Laplacian", 0)
    rng = np.random.RandomState(c["seed"]); s = float(rng.uniform(.2, 1.5)); x = dist(r)
    f = -(1 / (np.pi * s ** 4)) * (1 - x ** 2 / (2 * s * s)) * np.exp(-x ** 2 / (2 * s * s)); f = f - f.mean(); f /= np.abs(f).sum()
    k = g("LaplacianOfGaussian", sigma=s); close(k, f[None, None], "LaplacianOfGaussian", 1e-6)
    close(N(k).sum(), 0, "LaplacianOfGaussian sum", 1e-6); close(np.abs(N(k)).sum(), 1, "LaplacianOfGaussian absolute sum", 1e-6)
    for bad in ("Gaussians", "", "moorelike", "Laplacian", "gaussian", "Lapl", "Moore", "X"):
        try: g(bad)
        except AssertionError: continue
        raise Fail(f"kernel name {bad!r} accepted")
NAMES = ["Gaussian", "GaussianMixture", "CosOverX2", "DoGaussian", "SmoothLifeKernel", "edges"]
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    while True:
        for fn in NAMES:
            for how in ("function", "config"):
                if (how == "function" and fn == "SmoothLifeKernel") or (how == "config" and fn == "edges"): continue
                if prop == "C11" and how == "function": continue
                for per in (2, 3):
                    yield dict(kind="kernel", fn=fn, how=how, r=int(rng.randint(1, 14)), per=per, seed=int(rng.randint(1 << 30)))
                    if fn != "GaussianMixture": break
        if prop == "C11": yield dict(kind="stencil", r=int(rng.randint(1, 14)), seed=int(rng.randint(1 << 30)))
CASES = {"C10": {"kernel": c_kernel}, "C11": {"kernel": c_kernel, "stencil": c_stencil}}
