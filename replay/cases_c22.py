import numpy as np, torch
from rt import *
import yuca.wrappers.glider_wrapper as W
class Mover(torch.nn.Module):
    """an automaton that shifts its pattern along a row and fades; the k-th call after a reset is the same in every run"""
    def __init__(self, **kw):
        super().__init__(); self.kernel_radius = kw["kernel_radius"]; self.external_channels = kw["external_channels"]; self.by, self.fade, self.t = kw["by"], kw["fade"], 0
    def no_grad(self): pass
    def reset(self): self.t = 0
    def forward(self, u):
        self.t += 1
        v = torch.roll(u, self.by, -1) * self.fade
        return torch.zeros_like(v) if self.t == 7 else v
def make(c):
    seed(c["seed"] % 2 ** 31)
    kw = dict(ca_steps=c["steps"], batch_size=1, dim=c["dim"], kernel_radius=c["rk"], kernel_peaks=1, external_channels=c["E"], internal_channels=c["I"], hidden_channels=4)
    with quiet(): return W.GliderWrapper(ca_fn=Mover if c["fam"] == "Mover" else cls(c["fam"]), by=c["by"], fade=c["fade"], **kw)
def c_glider(c):
    rng = np.random.RandomState(c["seed"]); w = make(c); w.eval(); E = w.ca.external_channels; d = c["dim"]
    def pattern():
        a = np.zeros((1, E, d, d), np.float32); r = max(1, int(c["rk"]) + 1); y, x = rng.randint(0, d - r, 2)
        a[:, :, y:y + r, x:x + r] = rng.rand(1, E, r, r); return a * (0 if c["empty"] else 1)
    for _ in range(c["history"]):
        with quiet(), torch.no_grad(): w.step(T(pattern()))
    log = []; f = w.ca.forward
    def forward(u):
        a = N(u).astype(float); v = f(u); log.append((a, N(v).astype(float))); return v
    object.__setattr__(w.ca, "forward", forward)
    resets = []; r0 = w.ca.reset
    def reset(): resets.append(len(log)); return r0()
    object.__setattr__(w.ca, "reset", reset)
    p = T(pattern()); given = N(p).copy()
    with quiet(), torch.no_grad():
        seed(7); obs, reward, done, info = w.step(p)
    same(given, N(p), "the caller's pattern")
    need(0 in resets, "the automaton was not reset before the run"); need(all(r == 0 for r in resets), "the automaton was reset during the run")
    need(np.array_equal(log[0][0], given.astype(float)), "the run does not start from the pattern")
    for (a, b), (x, y) in zip(log, log[1:]): need(np.array_equal(b, x), "a step is not applied to the result of the one before")
    grids = [given.astype(float)] + [b for a, b in log]; n = len(log)
    need(1 <= n <= c["steps"], f"{n} steps of {c['steps']}")
    def grew(k): return (grids[k] - grids[k - 1]).max()
    need(n == c["steps"] or not grids[n].any() or grew(n) <= 1.1e-5, "the run ended early although the pattern was there and grew")
    for k in range(1, n): need(grids[k].any() and grew(k) > .9e-5, "the run went on without a pattern or without growth")
    col = np.arange(d)[None, None, None] / c["rk"]; pos = [(col * g).sum() / (1e-6 + g.sum()) for g in grids]; span = (d - 1) / c["rk"]
    want, q, near = 0., 0., False
    for k in range(1, n + 1):
        s = 0.
        if q != 0:
            s = pos[k] - q
            near |= abs(q - span + 2) < 1e-3 or abs(pos[k] - 2) < 1e-3
            if q > span - 2 and pos[k] < 2: s += span
        want += s - abs(1 - grids[k].mean() / (grids[k - 1].mean() + 1e-6)); q = pos[k]
    if near: return         # rounding decides a wraparound
    close(float(reward), want, "reward", 2e-3); close(float(info["active_grid"]), grids[n].mean(), "active_grid", 1e-4)
def cases(prop, seed):
    rng = np.random.RandomState(seed); ch = lambda l: l[rng.randint(len(l))]
    while True:
        f = ch(["Mover", "Mover", "CCA", "CCA", "NCA", "CODE", "MetaCA", "RandomStepCA"]); I = int(ch([1, 1, 2]))
        yield dict(kind="glider", seed=int(rng.randint(2 ** 31)), fam=f, dim=int(ch([12, 16, 17, 24])), rk=int(ch([1, 2, 3])), steps=int(ch([1, 2, 3, 9, 16])), E=int(ch([1, I])), I=I, by=int(ch([1, 2, -1])), fade=float(ch([1., .9])), empty=bool(rng.rand() < .05), history=int(ch([0, 1, 2])))
CASES = {"C22": {"glider": c_glider}}
