import numpy as np, torch
from rt import *
import yuca.utils as U
def coords(r): return -r + np.arange(2 * r) * ((2 * r + 1) / (2 * r))
def dist(r, c):
    x = coords(r); xx, yy = np.meshgrid(x, x)
    return np.sqrt((xx - c[0]) ** 2 + (yy - c[1]) ** 2) / r
def bite(r, rad, c): return (dist(r, c) >= rad) * 1.0
def agree(got, want, d, rad, msg):
    """equal except where the distance ties with the radius up to rounding"""
    need(got.shape == want.shape, f"{msg}: shape {got.shape} instead of {want.shape}")
    bad = (got != want) & (np.abs(d - rad) > 1e-9)
    need(not bad.any(), f"{msg}: wrong at {tuple(int(v) for v in np.argwhere(bad)[0])}" if bad.any() else "")
def image(c, rng): return rng.uniform(.2, 1, (1, c["C"], 2 * c["r"], 2 * c["r"]))
def c_mask(c):
    rng = np.random.RandomState(c["seed"]); g = rng.uniform(-.2, 1.4, (c["r"] + 1, 2 * c["r"])); g.flat[0] = .5; g0 = g.copy()
    m = U.get_mask(g, .5)
    need(np.array_equal(m, (g0 >= .5) * 1.0), "get_mask: wrong values"); same(g, g0, "get_mask: the argument")
def c_bite(c):
    rng = np.random.RandomState(c["seed"]); img = image(c, rng); i0 = img.copy(); r = c["r"]; rad = float(rng.uniform(.05, 1))
    if c["given"]:
        co = rng.uniform(-1, 1, 2) * r; m = U.get_bite_mask(img, rad, list(map(float, co)) if rng.rand() < .5 else co)
    else:
        seed(c["seed"]); co = np.random.rand(2) * r
        seed(c["seed"]); m = U.get_bite_mask(img, rad)
    need(m.shape == img.shape, f"get_bite_mask: shape {m.shape}")
    for k in range(c["C"]): agree(m[0, k], bite(r, rad, co), dist(r, co), rad, f"get_bite_mask channel {k}")
    same(img, i0, "get_bite_mask: the image")
def ap_of(r, rad, img): return 1 - bite(r, rad, (0, 0)) if rad < .975 else np.ones((2 * r, 2 * r))
def c_aperture(c):
    rng = np.random.RandomState(c["seed"]); img = image(c, rng); i0 = img.copy(); r = c["r"]
    rad = float(rng.choice([.3, .7, .974, .975, .98, 1., 1.2]))
    a = U.get_aperture(img, rad)
    need(a.shape == img.shape, f"get_aperture: shape {a.shape}")
    for k in range(c["C"]): agree(a[0, k], ap_of(r, rad, img), dist(r, (0, 0)), rad, f"get_aperture channel {k}")
    same(img, i0, "get_aperture: the image")
def c_prep(c):
    rng = np.random.RandomState(c["seed"]); img = image(c, rng); i0 = img.copy(); r, n, C = c["r"], c["n"], c["C"]
    kw, ap, br, nl, E = {}, 1., .1, .05, C
    if c["given"]:
        ap, br, nl, E = float(rng.choice([.5, .9, 1.])), float(rng.uniform(.05, .8)), float(rng.uniform(.01, .5)), C + rng.randint(0, 3)
        kw = dict(aperture_radius=ap, bite_radius=br, noise_level=nl, external_channels=E)
    log, real = [], np.random.rand
    def rand(*a):
        v = real(*a); log.append(v); return v
    np.random.rand = rand
    try: b = N(U.prep_input(img, batch_size=n, **kw))
    finally: np.random.rand = real
    need(b.shape == (n, E, 2 * r, 2 * r), f"prep_input: shape {b.shape}")
    same(img, i0, "prep_input: the image")
    need(not b[:, C:].any(), "prep_input: a channel beyond the image is not zero")
    co = [v for v in log if np.shape(v) == (2,)]
    need(len(co) == n, f"prep_input: {len(co)} bite positions were drawn for {n} samples")
    noise = []
    for k in range(n):
        p = co[k] * r
        sig = img[0] * ap_of(r, ap, img) * bite(r, br, p)
        d = b[k, :C] - sig
        tie = (np.abs(dist(r, p) - br) < 1e-9) | (np.abs(dist(r, (0, 0)) - ap) < 1e-9)
        ok = ((d >= -1e-6) & (d <= nl + 1e-6)) | tie
        need(ok.all(), f"prep_input: sample {k} is not image x aperture x bite mask plus noise in [0, {nl})")
        noise.append(np.where(tie, 0, d))
    for k in range(1, n): need(nl == 0 or np.abs(noise[k] - noise[0]).max() > nl * 1e-3, f"prep_input: samples 0 and {k} share their noise")
    seed(c["seed"]); a1 = N(U.prep_input(img, batch_size=n, **kw)); seed(c["seed"]); a2 = N(U.prep_input(img, batch_size=n - 1, **kw)); a3 = N(U.prep_input(img, batch_size=1, **kw))
    close(a1, np.concatenate([a2, a3]), "prep_input: sample n-1 after n-1 samples", 1e-6)
def c_target(c):
    rng = np.random.RandomState(c["seed"]); img = rng.rand(c["C"], c["r"], c["n"]); i0 = img.copy()
    t = U.make_target(img); need(tuple(t.shape) == (1,) + img.shape, f"make_target: shape {tuple(t.shape)}"); close(t, i0[None], "make_target", 1e-6); same(img, i0, "make_target: the image")
def cases(prop, seed):
    k = 0
    while True:
        for r in (1, 2, 5, 3, 29, 8, 49, 61):
            for kind in ("mask", "bite", "aperture", "prep", "target"):
                for given in (0, 1):
                    k += 1
                    yield {"kind": kind, "seed": seed * 100003 + k, "C": 1 + (k // 2) % 3, "r": r, "n": 1 + k % 4, "given": given}
CASES = {"C23": {"mask": c_mask, "bite": c_bite, "aperture": c_aperture, "prep": c_prep, "target": c_target}}
