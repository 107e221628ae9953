import numpy as np, torch
from rt import *
import yuca.analyze as Y
EPS = 1e-9
def q8(g, eps=0.0):
    s = g - g.min()
    return np.floor(255 * (s / (s.max() + eps))).astype(int)
def shannon(q):
    p = np.array([(q == k).sum() for k in range(256)]) / q.size
    return -np.sum(p * np.log2(EPS + p))
DIRS = [(-1, 0), (0, 1), (1, 0), (0, -1)]
def torus(g, a, b): return g[(np.arange(g.shape[0]) + a) % g.shape[0]][:, (np.arange(g.shape[1]) + b) % g.shape[1]]
def cond(q, d):
    u = torus(q, *DIRS[d]); n = np.zeros((256, 256))
    for s_, u_ in zip(q.ravel(), u.ravel()): n[s_, u_] += 1
    psu = n / (EPS + n.sum(0, keepdims=True))
    return -np.sum(n / n.sum() * np.log2(EPS + psu))
def grid_of(c, rng, shape):
    k = c["kind_of_grid"]
    if k == "levels": g = rng.uniform(0, 1, 4)[rng.randint(0, 4, shape)]      # few values, none on a rounding boundary
    elif k == "real": g = rng.uniform(0, 1, shape)
    elif k == "wide": g = rng.normal(0, 30, shape)
    else: g = np.zeros(shape); g.flat[rng.randint(g.size)] = 1.
    if g.max() == g.min(): g.flat[0] += 1
    return g
def c_shift(c):
    rng = np.random.RandomState(c["seed"]); g = grid_of(c, rng, (c["H"], c["W"])); g0 = g.copy()
    if c["u8"]: g = (q8(g)).astype(np.uint8); g0 = g.copy()
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            s = Y.np_shift(g, [a, b])
            need(s.shape == g.shape and np.array_equal(s, torus(g, a, b)), f"np_shift by ({a}, {b}): a value is not where it belongs")
            need(np.array_equal(Y.np_shift(s, [-a, -b]), g), f"np_shift by ({a}, {b}) and back does not restore the grid")
    same(g, g0, "np_shift: the grid")
def c_entropy(c):
    rng = np.random.RandomState(c["seed"]); g = grid_of(c, rng, (c["H"], c["W"])); g0 = g.copy()
    ph = object.__new__(Y.Phanes)
    for name, f, e in (("get_grid_entropy", Y.get_grid_entropy, 0.), ("Phanes.get_grid_entropy", ph.get_grid_entropy, EPS)):
        h = f(g)
        need(abs(h - shannon(q8(g, e))) < 1e-6, f"{name}: {h} instead of {shannon(q8(g, e))}")
        need(h > -2e-9, f"{name} is negative: {h}")
        p = g.ravel().copy(); rng.shuffle(p)
        need(abs(f(p.reshape(g.shape)) - h) < 1e-9, f"{name} depends on where the cells are")
    same(g, g0, "get_grid_entropy: the grid")
def c_cond(c):
    rng = np.random.RandomState(c["seed"]); g = grid_of(c, rng, (c["H"], c["W"])); g0 = g.copy(); q = q8(g)
    w = [cond(q, d) for d in range(4)]
    if c["multi"]:
        v = Y.get_multiconditional_grid_entropy(g)
        need(abs(v - sum(w) / 4) < 1e-6, f"get_multiconditional_grid_entropy: {v} instead of {sum(w) / 4}")
    else:
        for d in range(4):
            v = Y.get_conditional_grid_entropy(g, direction=d)
            need(abs(v - w[d]) < 1e-6, f"get_conditional_grid_entropy, direction {d}: {v} instead of {w[d]}")
    same(g, g0, "conditional entropy: the grid")
def c_spatial(c):
    rng = np.random.RandomState(c["seed"]); Hh, W = c["H"], c["W"]; k = min(c["half"], Hh, W)
    lead = (2, 2) if c["nd"] == 4 else ()
    g = grid_of(c, rng, lead + (Hh, W)); g0 = g.copy(); ph = object.__new__(Y.Phanes)
    out = ph.get_spatial_entropy(T(g, torch.float64) if c["torch"] else g, window_size=2 * k + 1)
    need(out.shape == g.shape, f"get_spatial_entropy: shape {out.shape}")
    for i in np.ndindex(*lead) if lead else [()]:
        for x in range(Hh):
            for y in range(W):
                w = g0[i][np.ix_((np.arange(2 * k + 1) + x - k) % Hh, (np.arange(2 * k + 1) + y - k) % W)]
                want = shannon(q8(w, EPS))
                need(abs(out[i][x, y] - want) < 1e-6, f"get_spatial_entropy at {i + (x, y)}: {out[i][x, y]} instead of {want}")
    same(g, g0, "get_spatial_entropy: the grid")
CASES = {"C25": {"shift": c_shift, "entropy": c_entropy, "cond": c_cond, "spatial": c_spatial}}
def cases(prop, s):
    rng = np.random.RandomState(s); i = 0
    while True:
        i += 1
        base = dict(seed=int(rng.randint(2 ** 31)), H=int(rng.randint(1, 8)), W=int(rng.randint(1, 8)),
                    kind_of_grid=["levels", "real", "wide", "one"][rng.randint(4)])
        if base["H"] * base["W"] == 1: base["W"] = 2
        yield dict(base, kind="shift", u8=bool(rng.randint(2)))
        yield dict(base, kind="entropy")
        if i % 6 == 1: yield dict(base, kind="cond", multi=bool(rng.randint(2)))
        yield dict(base, kind="spatial", half=int(rng.randint(0, 4)), nd=[2, 4][rng.randint(2)], torch=bool(rng.randint(2)))
