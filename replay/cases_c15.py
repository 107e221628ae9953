import numpy as np, torch
from rt import *
import yuca.cppn as P
from yuca.params_agent import ParamsAgent
def V(rng, n): return rng.normal(0, 1, n).astype(np.float32).astype(np.float64)
def gen(c, **kw):
    with quiet(): return getattr(P, c["cls"])(external_channels=c["E"], hidden_dim=c["hidden"], dim=c["dim"], **kw)
def read(g, v, msg): close(g.get_params(), v, msg, 1e-6)
def c_params(c):
    rng = np.random.RandomState(c["seed"]); plus = c["cls"] == "CPPNPlus"
    m = c["m"] if plus else 0
    t = gen(dict(c, cls="CPPN")); n = len(t.get_params())
    if c["how"] == "params":
        v = V(rng, n + m); w = v.copy(); g = gen(c, params=w); w[:] = 0; read(g, v, "parameters of a generator built from a vector")
    elif c["how"] == "ca_params" and plus:
        v = V(rng, m); w = v.copy(); g = gen(c, ca_params=w); w[:] = 0; close(g.get_params()[n:], v, "automaton parameters given", 1e-6)
    else: g = gen(c)
    v = V(rng, n + m); w = v.copy()
    with quiet(): g.set_params(w)
    same(w, v, "the caller's vector"); w[:] = 0
    read(g, v, "parameters read back")
    o = 0
    for _, p in g.model.named_parameters(): k = p.numel(); close(p.reshape(-1), v[o:o + k], "network parameters", 1e-6); o += k
    out = g.get_params(); out[:] = 3; read(g, v, "parameters after the caller edits the vector it was given")
    if plus:
        r = g.get_rule_action(); close(r, v[n:], "automaton parameters", 1e-6); r[:] = 9; read(g, v, "parameters after the caller edits the action")
        a = g.get_action(); close(a[0], v[n:], "rule part of the action", 1e-6); a = a[1]; b = g.get_pattern_action()
    else: a, b = g.get_action(), g.get_action()
    same(N(a), N(b), "the same generator gives the same pattern")
    read(g, v, "parameters after generating a pattern")
    D, E = c["dim"], c["E"]
    need(tuple(a.shape) == (1, E, D, D), f"pattern of shape {tuple(a.shape)} for {E} channels and side {D}")
    a = N(a); need(np.isfinite(a).all() and (a >= 0).all(), "pattern is not finite and non-negative")
    p = -1 + 2 * np.arange(D) / (D - 1.); r = np.sqrt(p[None, :] ** 2 + p[:, None] ** 2)
    far = r >= .75 + 1e-6
    need((a <= (1 - r) ** 2 * (1 + 1e-5) + 1e-12).all(), "pattern does not fade from the centre")
    need((a[:, :, far] <= 1e-6 * (1 - r[far]) ** 2 * (1 + 1e-4) + 1e-15).all(), f"pattern outside the central disc: {a[:, :, far].max() if far.any() else 0}")
    with torch.no_grad(): net = N(g.model(g.grid.transpose(1, 3)).transpose(3, 1))
    near = r < .75 - 1e-6
    close(a[:, :, near], (net * (1 - r) ** 2)[:, :, near], "pattern in the disc", 1e-5)
def c_agent(c):
    rng = np.random.RandomState(c["seed"]); n, k = c["m"], c["dim"]
    with quiet(): a = ParamsAgent(**{"params": {"params": None}, "ca_params": {"ca_params": None}, "num_params": {"num_params": n}, "none": {}}[c["how"]] if c["how"] not in ("params", "ca_params") else {c["how"]: (w := (v := V(rng, n)).copy())})
    if c["how"] in ("params", "ca_params"): w[:] = 0; read(a, v, "parameters given to the agent")
    if c["how"] == "num_params": need(len(a.get_params()) == n, "number of parameters")
    v = V(rng, k); w = v.copy(); a.set_params(w); same(w, v, "the caller's vector"); w[:] = 0
    read(a, v, "parameters read back"); close(a.get_action(), v, "the action", 1e-6)
    a.get_params()[:] = 4; a.get_action()[:] = 5; read(a, v, "parameters after the caller edits what it was given")
    f = ParamsAgent(filter_params=True); w = v.copy(); f.set_params(w); same(w, v, "the caller's vector")
    want = np.clip(np.abs(v), 1e-4, 1)
    for _ in range(2): read(f, want, "filtered parameters"); close(f.get_action(), want, "filtered action", 1e-6)
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    while True:
        base = dict(seed=int(rng.randint(2 ** 31)), cls=str(rng.choice(["CPPN", "CPPNPlus"])), E=int(rng.choice([1, 2, 3, 4])), hidden=int(rng.choice([1, 4, 16])), dim=int(rng.choice([2, 3, 5, 8, 16, 33])), m=int(rng.choice([1, 4, 7])))
        yield dict(base, kind="params", how=str(rng.choice(["params", "ca_params", "none"])))
        if rng.rand() < .3: yield dict(base, kind="agent", how=str(rng.choice(["params", "ca_params", "num_params", "none"])))
CASES = {"C15": {"params": c_params, "agent": c_agent}}
