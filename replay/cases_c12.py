import numpy as np, torch
from rt import *
import yuca.activations as A
def bell(x, m, s, eps=1e-9): return np.exp(-((x - m) / (eps + s)) ** 2 / 2)
def grid(c, rng):
    sh = tuple(int(v) for v in rng.randint(1, 5, size=4)); sh = (sh[0], max(sh[1], 3), sh[2], sh[3])
    x = rng.uniform(-.5, 1.5, sh) if rng.rand() < .8 else np.round(rng.uniform(0, 1, sh) * 8) / 8
    return np.float64(np.float32(x))
def form(rng, v):
    k = rng.randint(3)
    return v if k == 0 else torch.tensor(v) if k == 1 else torch.tensor([v])
def check(f, x, want, npx, msg):
    xt = np.float32(x) if npx else T(x)
    out = f(xt)
    need(tuple(out.shape) == want.shape, f"{msg}: shape {tuple(out.shape)}")
    close(out, want, msg); same(xt, x, f"{msg}: the input")
    need(getattr(out, "data_ptr", lambda: 0)() != getattr(xt, "data_ptr", lambda: 1)(), f"{msg}: output aliases the input")
def modes(w, mode, lo=None):
    if mode: w = 2 * w - 1
    return w if lo is None else np.clip(w, -1 if mode else 0, 1)
def c_act(c):
    rng = np.random.RandomState(c["seed"]); x = grid(c, rng); mode = [0, 1, 2, -1][rng.randint(4)] if c["mode"] else 0
    n = c["n"]; npx = bool(c["np"])
    f32 = lambda v: np.asarray(v, np.float32).astype(np.float64)
    mu, sg = f32(rng.uniform(-.3, 1, n)), f32(rng.uniform(.02, .5, n)); am = f32(rng.uniform(.1, 1.5, n))
    k = c["fn"]
    if k == "Gaussian":
        check(A.Gaussian(mu=form(rng, float(mu[0])), sigma=form(rng, float(sg[0])), mode=mode), x, modes(bell(x, mu[0], sg[0]), mode), npx, k)
    elif k == "Cos":
        om = float(f32(rng.uniform(1, 26))); d = np.abs(mu[0] - x)
        w = np.cos(om * d) / (1 + (10 * d) ** 2)
        check(A.CosOverX2(mu=form(rng, float(mu[0])), omega=form(rng, om), mode=mode), x, w if mode else w + 1, npx, k)
    elif k == "DoG":
        dx = float(f32(rng.uniform(.005, .2)))
        check(A.DoGaussian(mu=form(rng, float(mu[0])), sigma=form(rng, float(sg[0])), dx=dx, mode=mode), x, modes(bell(x + dx, mu[0], sg[0]) - bell(x - dx, mu[0], sg[0]), mode), npx, k)
    elif k == "Double":
        a, b = mu[:2] if rng.rand() < .7 and n > 1 else mu[:1], sg[:2] if rng.rand() < .7 and n > 1 else sg[:1]
        w = bell(x, a[0], b[0]) + bell(x, a[-1], b[-1])
        check(A.DoubleGaussian(mu=T(a), sigma=T(b), mode=mode), x, modes(w, mode, 1), npx, k)
    elif k == "Poly":
        cf = f32(rng.uniform(-1, 1, n + 1)); x = np.where(rng.rand(*x.shape) < .3, -x, x).astype(np.float32).astype(np.float64)
        check(A.Polynomial(coefficients=T(cf), mode=mode), x, modes(sum(v * x ** i for i, v in enumerate(cf)), mode), npx, k)
    elif k == "Mix":
        if c["per"] == 3: p = np.stack([am, mu, sg], 1).ravel()
        else:
            if (2 * n) % 3 == 0: n += 1; mu = np.append(mu, .25); sg = np.append(sg, .125)
            p = np.stack([mu, sg], 1).ravel(); am = np.ones(n)
        w = sum(a * bell(x, m, s) for a, m, s in zip(am, mu, sg))
        ps = [T(p), p, [float(v) for v in p]][rng.randint(3)]
        check(A.GaussianMixture(parameters=ps, mode=mode), x, modes(w, mode, 1), npx, k)
    elif k == "Steps":
        al = float(f32(rng.uniform(.0125, .2))); lo = f32(rng.uniform(0, .8, n)); hi = f32(lo + rng.uniform(.05, .3, n))
        sig = lambda v, m: 1 / (1 + np.exp(np.clip(-4 * (v - m) / al, -700, 700)))
        w = sum(sig(x, a) * (1 - sig(x, b)) for a, b in zip(lo, hi))
        check(A.SmoothIntervals(parameters=T(np.stack([lo, hi], 1)), alpha=al, mode=mode), x, modes(w, mode), npx, k)
        close(A.get_smooth_steps_fn(np.stack([lo, hi], 1), al)(x), w, "get_smooth_steps_fn")
    elif k == "SLK":
        ri, ra = sorted(rng.uniform(0, 1.2, 2)); xs = x.copy(); xs.flat[0] = ri; xs.flat[-1] = ra
        close(A.SmoothLifeKernel(r_a=ra, r_i=ri)(xs), ((xs >= ri) & (xs <= ra)) * 1.0, k, 0)
    elif k == "Meta":
        x[:, 2] = np.float32(np.abs(x[:, 2]) + .05); xt = T(x)
        out = A.GaussianMetaMixture(mode=mode)(xt)
        close(out, modes(bell(x[:, 0], x[:, 1], x[:, 2], 1e-7), mode)[:, None], k); same(xt, x, "the input")
    else:
        close(A.Gaussian()(T(x)), bell(x, 0, .1), "Gaussian()"); close(A.GaussianMixture()(T(x)), np.clip(bell(x, .5, .15), 0, 1), "GaussianMixture()")
        close(A.Polynomial()(T(x)), .1 * (1 + x + x * x), "Polynomial()"); close(A.DoGaussian()(T(x)), bell(x + .01, 0, .1) - bell(x - .01, 0, .1), "DoGaussian()")
        same(A.Identity()(T(x)), x, "Identity")
KS = ["Gaussian", "Cos", "DoG", "Double", "Poly", "Mix", "Mix", "Steps", "SLK", "Meta", "defaults"]
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    while True:
        for j, k in enumerate(KS):
            for mode in (0, 1):
                yield dict(kind="act", fn=k, mode=mode, n=int(rng.randint(1, 6) if rng.rand() < .7 else rng.randint(6, 15)), per=(2, 3)[j % 2], np=int(rng.randint(3) == 0 and k not in ("Meta",)), seed=int(rng.randint(1 << 30)))
CASES = {"C12": {"act": c_act}}
