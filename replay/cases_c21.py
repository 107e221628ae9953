import numpy as np, torch
from rt import *
import yuca.wrappers.halting_wrapper as W
def make(c):
    kw = dict(ca_fn=cls(c["fam"]), ca_steps=c["steps"], batch_size=c["B"], dim=c["dim"], prediction_mode=c["mode"], kernel_radius=c["rk"], kernel_peaks=c["peaks"], external_channels=c["E"], internal_channels=c["I"], hidden_channels=c["hidden"])
    seed(c["seed"] % 2 ** 31)
    with quiet(): return getattr(W, c["which"])(**kw)
class Log(list):
    """records the grids that go through an automaton"""
    def __init__(self, ca):
        f = ca.forward
        def forward(u):
            a = N(u); v = f(u); self.append((a, N(v))); return v
        object.__setattr__(ca, "forward", forward)
def chain(log, what):
    for (a, b), (x, y) in zip(log, log[1:]): need(np.array_equal(b, x), f"{what}: a step is not applied to the result of the one before")
def params(rng, w, c):
    n = len(w.get_params())
    return rng.uniform(-.5 if c["fam"] == "NCA" else .05, .6, n) if c["wild"] else np.clip(np.array(w.get_params()) * rng.uniform(.8, 1.2, n), .01, 1)
def c_simple(c):
    rng = np.random.RandomState(c["seed"]); w = make(c); o = make(c).ca; o.eval(); w.eval()
    for _ in range(c["history"]):
        with quiet(), torch.no_grad(): w.step(params(rng, w, c))
    p = params(rng, w, c); given = p.copy(); log = Log(w.ca)
    with quiet(), torch.no_grad():
        seed(7); obs, reward, done, info = w.step(given)
    same(given, p, "the caller's parameters")
    q = c["dim"] // 4; m = np.zeros((c["dim"], c["dim"])); m[q:c["dim"] - q, q:c["dim"] - q] = 1
    u = log[0][0]
    need(u.shape == (c["B"], w.ca.external_channels, c["dim"], c["dim"]), f"starting patterns of shape {u.shape}")
    need((u * (1 - m) == 0).all(), "starting patterns are empty outside the central half"); inner = u[:, :, m > 0]
    need(((inner >= 0) & (inner <= 1)).all() and len(np.unique(inner)) > inner.size * .9, "starting patterns are random inside the central half")
    chain(log, "run")
    need(1 <= len(log) <= c["steps"], f"{len(log)} steps of {c['steps']}")
    need(len(log) == c["steps"] or not (log[-1][1] > 0).any(), "a run ended early with an active pattern")
    act = float(np.mean([(g > 0).any() for g in log[-1][1]]))
    close(float(info["active_grid"]), act, "active fraction", 1e-5); close(float(reward), -abs(.5001 - act), "reward", 1e-5)
    need(-.50011 <= float(reward) <= 0, "range of the reward")
    # the run is that of an automaton with these parameters and no history
    if c["fam"] in ("RandomStepCA", "CODE"): return      # random step sizes; the step-size ladder remembers its last step (C06)
    with quiet(), torch.no_grad():
        o.set_params(p.copy()); o.reset() if c["history"] else None
        v = T(u)
        for t, (a, b) in enumerate(log[:4]): v = o(v); close(b, v, f"step {t + 1} against an automaton without history", 1e-4)
def c_halting(c):
    rng = np.random.RandomState(c["seed"]); w = make(c); w.ca.eval()
    w.train_steps = c["train"]
    with quiet():
        w.reset()
        for _ in range(min(c["history"], 1)): w.step(params(rng, w, c))
        p = params(rng, w, c); given = p.copy(); log = Log(w.ca); seen = []
        f = w.forward
        def forward(x): y = f(x); seen.append((N(x), N(y))); return y
        object.__setattr__(w, "forward", forward)
        r0 = w.ca.reset; starts = []
        def reset(): starts.append(len(log)); return r0()
        object.__setattr__(w.ca, "reset", reset)
        obs, reward, done, info = w.step(given)
    same(given, p, "the caller's parameters"); close(w.ca.get_params(), p, "parameters after the evaluation", 1e-5)
    need(len(starts) == c["train"] + 1, f"the automaton was reset {len(starts)} times for {c['train']} training runs and an evaluation")
    run = log[starts[-1]:]; chain(run[:-1], "evaluation"); need(np.array_equal(run[-2][1], run[-1][0]), "the last change is not that of the last grid")
    for a, b in zip(starts, starts[1:]): chain(log[a:b], "training")
    need(((run[0][0] >= 0) & (run[0][0] <= 1)).all() and run[0][0].std() > 0, "random starting patterns")
    n = len(run) - 1
    need(9 <= n <= 8 + c["steps"], f"{n} steps instead of 8 and at most {c['steps']}")
    need(n == 8 + c["steps"] or run[-1][0].max() == 0, "a run ended early with an active pattern")
    need(np.array_equal(seen[-1][0], run[7][1]), "the predictor does not see the eighth grid")
    last, d = run[-1][0], np.abs(run[-1][0] - run[-1][1])
    out = {0: [last], 1: [d], 2: [last, d]}[c["mode"]]
    t = np.stack([(x.reshape(len(x), -1).max(1) > 1e-5) * 1. for x in out], 1); g = (seen[-1][1] > .5) * 1.
    need(seen[-1][1].shape == t.shape, f"predictions of shape {seen[-1][1].shape}"); need(((seen[-1][1] >= 0) & (seen[-1][1] <= 1)).all(), "predictions in [0, 1]")
    close(float(info["active_grid"]), float(t.mean()), "active fraction", 1e-5); close(float(reward), -float((t == g).mean()), "reward", 1e-5)
def cases(prop, seed):
    rng = np.random.RandomState(seed); ch = lambda l: l[rng.randint(len(l))]
    while True:
        f = ch(["CCA", "CCA", "NCA", "CODE", "MetaCA", "RandomStepCA"]); which = ch(["simple", "simple", "halting"]); I = int(ch([1, 1, 2]))
        yield dict(kind=which, which={"simple": "SimpleHaltingWrapper", "halting": "HaltingWrapper"}[which], seed=int(rng.randint(2 ** 31)), fam=f, B=int(ch([1, 2, 3, 5])), dim=int(ch([16, 17, 18, 20, 23])) if which == "halting" else int(ch([8, 9, 10, 11, 13, 16])), steps=int(ch([1, 2, 3, 8])),
            mode=int(ch([0, 1, 2])), rk=int(ch([1, 2, 3])), peaks=int(ch([1, 2])), E=int(ch([1, I])), I=I, hidden=4, history=int(ch([0, 1, 2])), wild=bool(rng.rand() < .5), train=int(ch([0, 1])))
CASES = {"C21": {"simple": c_simple, "halting": c_halting}}
