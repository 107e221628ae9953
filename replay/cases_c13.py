import numpy as np, torch
from rt import *
import yuca.configs as F
def c_step(c):
    rng = np.random.RandomState(c["seed"])
    with quiet():
        ca = cls("CCA")(kernel_radius=int(rng.randint(1, 4)))
        ca.load_config(F.get_life_like_config(1, list(c["birth"]), list(c["survival"])) if not c["default"] else F.get_life_like_config())
    born, stays = ([3], [2, 3]) if c["default"] else (c["birth"], c["survival"])
    u = (rng.rand(c["B"], 1, c["H"], c["W"]) < c["density"]).astype(np.float64)
    if c["stripe"]: u[:] = 0; u[:, :, :, :max(1, c["W"] // 2)] = 1
    for t in range(2):
        n = sum(np.roll(u, (p, q), (2, 3)) for p in (-1, 0, 1) for q in (-1, 0, 1) if p or q)
        want = np.where(u == 1, np.isin(n, stays), np.isin(n, born)).astype(float)
        got = N(ca(T(u)))
        need(got.shape == u.shape, "shape")
        bad = np.abs(got - want) > .01
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            raise Fail(f"B{born}/S{stays}: cell {int(u[k])} with {int(n[k])} live neighbours becomes {got[k]:.4f}, not {want[k]:.0f}")
        u = want
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    sub = lambda: [int(x) for x in rng.permutation(9)[:rng.randint(10)]]
    while True:
        yield dict(kind="step", seed=int(rng.randint(2 ** 31)), birth=sub(), survival=sub(), default=bool(rng.rand() < .05), B=int(rng.choice([1, 2])), H=int(rng.choice([1, 2, 3, 8, 17])), W=int(rng.choice([1, 2, 3, 8, 17])), density=float(rng.choice([.1, .5, .9, 1., 0.])), stripe=bool(rng.rand() < .1))
CASES = {"C13": {"step": c_step}}
