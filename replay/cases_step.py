"""C01..C09: concrete steps of the real automata against an independent numpy reference"""
import numpy as np, torch, itertools
from rt import *

def setup(c, **kw):
    rng = np.random.RandomState(c["seed"])
    ca, sp = build(c["fam"], c["E"], c["I"], c["rk"], rng, **kw)
    if c["fam"] == "NCA": sp["act"] = lambda x: np.exp(-.5 * ((x - gmu) / (gsig + 1e-9))**2)
    if c["fam"] == "NCA":
        g = ca.weights_layer[1]
        gmu, gsig = float(N(g.mu).ravel()[0]), float(N(g.sigma).ravel()[0])
    u = grid(rng, c["B"], sp["E"], max(c["H"], c["rk"]), max(c["W"], c["rk"]), c["grid"])
    return rng, ca, sp, u

def frames(ca, u, sp, tol=2e-4):
    ut = T(u)
    m, Nb, up = update(u, sp)
    new = np.clip(m + sp["dt"] * up, 0, 1)
    ref = {0: [new], 1: [new, Nb], 2: [new, up], 3: [new, Nb, up], 4: [new, m, Nb, up]}
    for k in range(5):
        o = ca.get_frame(ut, mode=k)
        o = [o] if k == 0 else list(o)
        need(len(o) == len(ref[k]), f"get_frame mode {k}: {len(o)} results")
        for j, (x, y) in enumerate(zip(o, ref[k])): close(x, y, f"get_frame mode {k} result {j}", tol)
        same(ut, u, f"get_frame mode {k}: the caller's grid")

def c_range(c):
    rng, ca, sp, u = setup(c)
    if c["fam"] == "CODE": ca.error_threshold = 10.0
    ca.dt = ca.dt * c.get("dtscale", 1.0)
    ut = T(u)
    for f in [ca.forward] + [lambda x, m=m: ca.get_frame(x, mode=m) for m in range(5)]:
        if c["fam"] == "CODE": ca.set_dt(.3)
        o = f(ut)
        o = o[0] if isinstance(o, tuple) else o
        need(tuple(o.shape) == u.shape, f"shape {tuple(o.shape)} instead of {u.shape}")
        a = N(o)
        need(np.isfinite(a).all() and a.min() >= 0 and a.max() <= 1, f"values outside [0,1]: {a.min()}..{a.max()}")

def c_step(c):
    """several steps, then the frames"""
    rng, ca, sp, u = setup(c)
    ut = T(u)
    ref = u
    for j in range(c.get("steps", 2)):
        o = ca.forward(ut)
        ref = step(N(ut), sp)
        close(o, ref, f"step {j + 1}")
        ut2 = T(N(ut)); same(ut, N(ut2), "grid")
        ut = o
    ut = T(u); ca.forward(ut); same(ut, u, "the caller's grid")
    if c["fam"] != "CODE": frames(ca, u, sp)

def c_half(c):
    rng, ca, sp, u = setup(c)
    ut = T(u, torch.float16)
    uh = N(ut)
    o = ca.forward(ut)
    need(o.dtype == torch.float16, f"half-precision grid became {o.dtype}")
    close(o, step(uh, sp), "half-precision step", 8e-3)
    same(ut, uh, "the caller's grid")

def c_coincide(c):
    rng, ca, sp, u = setup(dict(c, fam="Lenia"))
    ca2, sp2 = build("CCA", c["E"], c["I"], c["rk"], np.random.RandomState(c["seed"]))
    ca2.persistence_fns = ca2.genesis_fns = ca.genesis_fns
    ca2.add_neighborhood_kernel(ca.neighborhood_kernels); ca2.initialize_neighborhood_layer(); ca2.set_dt(ca.dt); ca2.alive_threshold = ca.alive_threshold
    a = ca.forward(T(u))
    ca.persistence_fns = fns(rng, c["I"])
    close(ca.forward(T(u)), a, "Lenia step after changing the persistence functions", 0)
    close(ca2.forward(T(u)), a, "glaberish step with G = P")
    close(ca2.get_frame(T(u)), ca.get_frame(T(u)), "frames")

def c_shift(c):
    rng, ca, sp, u = setup(c)
    H, W = u.shape[2:]
    dy, dx = int(rng.randint(0, H)), int(rng.randint(0, W))
    fresh = (lambda: ca.reset()) if c["fam"] == "MetaCA" else (lambda: None)
    def go(x):
        fresh(); r = np.random.get_state(); np.random.seed(5)
        if c["fam"] == "CODE": ca.prev_dt = .2; ca.error_threshold = 1e9
        o = N(ca.forward(T(x))); np.random.set_state(r); return o
    a = go(u)
    close(go(np.roll(u, (dy, dx), (2, 3))), np.roll(a, (dy, dx), (2, 3)), f"step of the grid shifted by {(dy, dx)}", 1e-5)
    for b in range(u.shape[0]): close(go(u[b:b+1]), a[b:b+1], f"sample {b} stepped alone", 1e-5)
    r = c["rk"]
    y, x = int(rng.randint(0, H)), int(rng.randint(0, W))
    d = lambda a, n, i: np.minimum((a - i) % n, (i - a) % n)
    far = (d(np.arange(H), H, y)[:, None] > r) | (d(np.arange(W), W, x)[None, :] > r)
    v = u.copy(); v[:, :, far] = rng.rand()
    close(go(v)[:, :, y, x], a[:, :, y, x], "cell after changing only cells beyond the radius", 1e-5)

def c_time(c):
    rng, ca, sp, u = setup(c)
    if c["fam"] == "MetaCA": return
    tot = 0.0
    ut = T(u)
    for j in range(c["steps"]):
        ev = rng.randint(6)
        if ev == 0:
            v = float(np.float32(rng.uniform(.05, .5)))
            if rng.rand() < .5: ca.set_dt(v)
            else: ca.set_dt(torch.tensor(v))
            need(abs(ca.get_dt() - v) < 1e-6, f"get_dt {ca.get_dt()} after set_dt({v})")
            sp["dt"] = v
        elif ev == 1:
            ca.reset(); tot = 0.0
            need(float(ca.t_count) == 0.0, "reset leaves t_count at " + str(ca.t_count))
        elif ev == 2:
            if not isinstance(ca.dt, torch.Tensor): ca.set_dt(ca.dt)
            t = float(ca.t_count); ca.get_frame(ut, mode=int(rng.randint(5))); need(float(ca.t_count) == t, "a frame advanced time")
        else:
            if c["fam"] in ("CODE", "RandomStepCA"):
                old = N(ut)
                new = ca.forward(ut); tot += float(ca.dt)
                close(new, step(old, sp, float(ca.dt)), "step with the recorded dt")
                ut = new
            else:
                old = N(ut)
                ut = ca.forward(ut); tot += sp["dt"]
                close(ut, step(old, sp), "step with the dt set")
        need(abs(float(ca.t_count) - tot) < 1e-4 * (1 + abs(tot)), f"t_count {float(ca.t_count)} after steps of total {tot}")

def c_code(c):
    rng, ca, sp, u = setup(c)
    ca.max_dt, ca.min_dt = float(rng.uniform(.2, .8)), float(rng.uniform(.01, .1))
    ca.prev_dt = float(rng.choice([.02, .1, .3, .6, .001]) if not c.get("prev") else c["prev"])
    ca.error_threshold = float(c["thr"])
    if c.get("max_dt"): ca.max_dt = c["max_dt"]
    ut = T(u); t = 0.0
    for j in range(3):
        old, prev = N(ut), ca.prev_dt
        new = ca.forward(ut); dt = float(ca.dt); t += dt
        first = min(2 * prev, ca.max_dt)
        need(ca.min_dt <= dt + 1e-12 and dt <= max(ca.min_dt, first) + 1e-12, f"dt {dt} outside [{ca.min_dt}, {max(ca.min_dt, first)}]")
        need(abs(float(ca.prev_dt) - dt) < 1e-12, "previous dt not recorded")
        need(abs(float(ca.t_count) - t) < 1e-6, f"t_count {ca.t_count} instead of {t}")
        close(new, step(old, sp, dt), "single Euler step with the recorded dt")
        def err(d):
            big = step(old, sp, d); small = step(step(old, sp, d / 2), sp, d / 2)
            e = np.abs(big - small) * (small > 0)
            return np.where(e > 0, e / np.where(small > 0, small, 1), 0).max()
        d, want = first, None
        amb = False
        while d >= ca.min_dt:
            e = err(d)
            if abs(e - ca.error_threshold) < 1e-2 * (ca.error_threshold + 1e-4) + 2e-5: amb = True; break
            if e < ca.error_threshold: want = d; break
            d *= .75
        if not amb: need(abs((want if want is not None else ca.min_dt) - dt) < 1e-9, f"dt {dt}, but the ladder accepts {want}")
        ut = new

def c_rand(c):
    rng, ca, sp, u = setup(c)
    ca.min_dt, ca.max_dt = float(rng.uniform(.01, .1)), float(rng.uniform(.15, .9))
    ut = T(u)
    for j in range(4):
        old = N(ut); new = ca.forward(ut); dt = float(ca.dt)
        need(ca.min_dt <= dt < ca.max_dt, f"dt {dt} outside [{ca.min_dt}, {ca.max_dt})")
        need(float(ca.prev_dt) == dt, f"previous dt {ca.prev_dt} instead of {dt}")
        close(new, step(old, sp, dt), "Euler step with the recorded dt")
        ut = new

def c_meta(c):
    rng, ca, sp, u = setup(c)
    need(abs(float(ca.ddt) - .25) < 1e-12, f"ddt {ca.ddt}")
    vel = np.zeros_like(u); ut = T(u)
    for j in range(c["steps"]):
        ev = rng.randint(5)
        if ev == 0: ca.reset(); vel = np.zeros(tuple(ut.shape))
        elif ev == 1:
            H, W = max(c["rk"], int(rng.randint(1, 9))), max(c["rk"], int(rng.randint(1, 9)))
            old = tuple(ut.shape)
            ut = T(grid(rng, int(rng.choice([1, c["B"]])), sp["E"], H, W))
            if tuple(ut.shape) != old: vel = np.zeros(tuple(ut.shape))
        elif ev == 2 and j: ca.set_dt(float(rng.uniform(.1, .5))); sp["dt"] = float(ca.dt)
        old = N(ut)
        m, Nb, up = update(old, sp)
        vel = vel + .25 * up
        new = ca.forward(ut)
        same(ut, old, "the caller's grid")
        close(ca.dgrid, vel, "velocity", 5e-4)
        close(new, np.clip(m + sp["dt"] * vel, 0, 1), "second-order step", 5e-4)
        ut = new; vel = N(ca.dgrid)

def c_rd(c):
    rng, ca, sp, u = setup(c)
    c_step(c)
    F, k = float(np.float32(rng.uniform(.01, .06))), 0.0
    A = rng.uniform(2.02, 5)                                   # moderate A: u = (A - sqrt(A^2-4))/(2A) cancels in single precision for large A
    k = float(np.float32(np.sqrt(F) / A - F))
    ca.f, ca.k = torch.tensor([F]), torch.tensor([k])
    g = N(ca.initialize_grid(batch_size=c["B"], dim=[max(c["H"], c["rk"]), max(c["W"], c["rk"])] if rng.rand() < .5 else 7))
    U, V = g[:, 0], g[:, 1]
    need(g.shape[:2] == (c["B"], 2), "initial grid shape")
    close(U * V, np.full(U.shape, F + k), "u*v = F + k", 3e-4)
    close(U * V * V, F * (1 - U), "u*v^2 = F(1-u)", 3e-4)

def c_mask(c):
    c_step(dict(c, steps=1))
    rng, ca, sp, u = setup(c)
    if u.shape[1] >= 4:
        if c["fam"] != "RxnDfn": u[0, 3, 0, 0] = sp["thr"]
        u = np.float64(np.float32(u)); ut = T(u)
        close(ca.alive_mask(ut), mask(u, sp), "alive_mask", 0)
        same(ut, u, "the caller's grid")
        if c["fam"] != "RxnDfn": u[:, 3][np.abs(u[:, 3] - sp["thr"]) < 2e-3] = 0
        close(ca.alive_mask(T(u, torch.float16)), mask(N(T(u, torch.float16)), sp), "alive_mask of a half-precision grid", 0)
def c_thr(c):
    with quiet():
        for f in ("CCA", "NCA", "Lenia"):
            need(cls(f)(kernel_radius=2, kernel_peaks=1, alive_threshold=.37).alive_threshold == .37, f"{f}: configured threshold ignored")
            need(cls(f)(kernel_radius=2, kernel_peaks=1).alive_threshold == .1, f"{f}: default threshold")

def shapes(rng, fams, emax=5):
    """corner cases first, then random ones"""
    EI = [(1, 1), (1, 3), (2, 2), (2, 4), (2, 3), (3, 2), (4, 4), (4, 2), (5, 5), (1, 2), (3, 3), (4, 8), (5, 3)]
    HW = [(7, 7), (6, 9), (5, 8), (3, 3), (8, 6), (9, 4), (1, 5), (10, 10)]
    for j, ((E, I), g) in enumerate(zip(EI, itertools.cycle(KINDS))):
        H, W = HW[j % len(HW)]
        for f in fams:
            yield dict(fam=f, E=E, I=I, B=1 + j % 3, H=H, W=W, rk=(1, 2, 0, 3)[j % 4] if f != "MetaCA" or j % 4 != 2 else 1, grid=g, seed=int(rng.randint(1 << 30)))
    while True:
        yield dict(fam=fams[rng.randint(len(fams))], E=int(rng.randint(1, emax + 1)), I=int(rng.randint(1, 6)), B=int(rng.randint(1, 4)), H=int(rng.randint(1, 12)),
                   W=int(rng.randint(1, 12)), rk=int(rng.randint(0, 4)), grid=KINDS[rng.randint(len(KINDS))], seed=int(rng.randint(1 << 30)))
ALL = ["CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn"]
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    if prop == "C01":
        for c in shapes(rng, ALL): yield dict(c, kind="range", dtscale=float(rng.choice([1, 1, 50, -3])))
    if prop == "C02":
        for j, c in enumerate(shapes(rng, ["CCA"])): yield dict(c, kind="half" if j % 3 == 2 else "step")
    if prop == "C03":
        for j, c in enumerate(shapes(rng, ["Lenia"])): yield dict(c, kind="coincide" if j % 2 else "step")
    if prop == "C04":
        for c in shapes(rng, ALL): yield dict(c, kind="shift")
    if prop == "C05":
        for c in shapes(rng, ["CCA", "Lenia", "CODE", "RandomStepCA", "NCA", "RxnDfn"]): yield dict(c, kind="time", steps=int(rng.randint(4, 14)))
    if prop == "C06":
        for j, c in enumerate(shapes(rng, ["CODE"])):
            if j % 4 == 3: yield dict(c, fam="RandomStepCA", kind="rand")
            else: yield dict(c, kind="code", thr=float(10.0 ** rng.uniform(-5, 0)), **({"prev": .001} if j % 7 == 5 else {}), **({"max_dt": .005} if j % 11 == 6 else {}))
    if prop == "C07":
        for c in shapes(rng, ["MetaCA"]): yield dict(c, kind="meta", steps=int(rng.randint(2, 7)))
    if prop == "C08":
        for c in shapes(rng, ["RxnDfn"]): yield dict(c, kind="rd")
    if prop == "C09":
        yield dict(kind="thr", seed=1)
        for c in shapes(rng, ["CCA", "Lenia", "NCA", "RxnDfn"], 8): yield dict(c, kind="mask")
CASES = {p: {"range": c_range, "step": c_step, "half": c_half, "coincide": c_coincide, "shift": c_shift, "time": c_time, "code": c_code, "rand": c_rand, "meta": c_meta,
             "rd": c_rd, "mask": c_mask, "thr": c_thr} for p in ["C%02d" % i for i in range(1, 10)]}
