"""C21: halting rewards score what becomes of random patterns"""
from .common import *
from pyvc import core as C
from pyvc.loops import note_attr
PRELOAD = ["yuca.wrappers.halting_wrapper"]
def hw(): return mod("yuca.wrappers.halting_wrapper")
def np_(): return mod("pyvc.numpy_impl")
from .c23 import same_seed
ZERO, ONE = Fraction(0), Fraction(1)

def Automaton():
    """contract of an automaton: after `reset`, the t-th step from a grid gives the t-th grid of a trajectory, arbitrary grids with values in [0, 1].
    Every call must be made on the grid the previous one returned, with the parameters that the episode evaluates."""
    T = torch()
    class Automaton(T.nn.Module if hasattr(T, "nn") else hw().nn.Module):
        def __init__(self, **kw):
            super().__init__()
            self.kw = kw; self.my_device = "cpu"
            self.h = None
        def begin(self, h, E, D, shape, tag="S"):
            """in the middle of some earlier history"""
            self.h, self.external_channels, self.D, self.shape = h, E, D, tuple(unwrap(d) for d in shape)
            self.t = h.int("calls_so_far", 0); self.ep = h.int("resets_so_far", 0)
            self.tr = h.reader(tag, 6, lo=0, hi=1)
            self.params = h.ndarray("earlier_params", (D,)).reader()
            self.start, self.want = None, None
        def get_params(self): return np_().zeros((self.D,)) if self.h else np_().zeros(3)
        def set_params(self, p):
            self.h.shape_is(p, (self.D,), "parameters of the automaton")
            note_attr(self, "params"); self.params = p.reader()
        def reset(self):
            note_attr(self, "t"); self.t = S(0)
            note_attr(self, "ep"); self.ep = wrap(A.canon_int(R.add(unwrap(self.ep), 1)))
        def S(self, i):
            """the t-th grid of the present trajectory"""
            return self.tr((unwrap(self.ep),) + tuple(i))
        def grid(self, t):
            """the grid before call t"""
            return lambda i: R.ite(R.eq(t, 0), self.start(i), self.S((t,) + tuple(i)))
        def forward(self, u):
            h = self.h
            t = unwrap(self.t)
            if self.start is None and h.c.entails(R.eq(t, 0)):
                with h.scope():
                    h.shape_is(u, self.shape, "starting patterns"); h.in_unit(u, "starting patterns have values in [0, 1]")
            else:
              with h.scope():
                start = self.grid(t) if self.start is not None else lambda i: self.S((t,) + tuple(i))
                h.ensure(wrap(R.ge(t, 1)) if self.start is None else True, "the automaton was reset before the run")
                h.equals(u, self.shape, start, "every step is applied to the result of the one before, the first one to the starting pattern of a reset automaton")
            if self.want is not None:
                p = self.params
                h.forall((self.D,), lambda i: R.eq(p(i), self.want(i)), "the automaton has the parameters that are evaluated")
            note_attr(self, "t"); t1 = A.canon_int(R.add(t, 1)); self.t = wrap(t1)
            f, ep = self.tr, unwrap(self.ep)
            return A.mk("torch", self.shape, lambda i: f((ep, t1) + tuple(i)), "float32")
    return Automaton

def simple(h, mode="any"):
    Ca = Automaton()
    B, E, D, L, dim = h.int("B", 1), h.int("E", 1), h.int("D", 1), h.int("ca_steps", 1), h.int("dim", 4)
    w = h.call("constructor", hw().SimpleHaltingWrapper, ca_fn=Ca, ca_steps=L, batch_size=B, dim=dim)
    h.ensure(isinstance(w.ca, Ca), "the automaton is made by ca_fn")
    ca = w.ca
    ca.begin(h, E, D, (B, E, dim, dim))
    return w, ca, B, E, D, L, dim
@contract("C21", "SimpleHaltingWrapper.step", ["SimpleHaltingWrapper.step", "SimpleHaltingWrapper.__init__"], time_limit=200)
def _(h):
    h.c.exact_loops = True
    w, ca, B, E, D, L, dim = simple(h)
    half = R.idiv(unwrap(dim), 4)
    draw = same_seed(h, lambda: torch().rand(B, E, dim, dim)).reader()
    inside = lambda x: R.and_(R.ge(x, half), R.lt(x, R.sub(unwrap(dim), half)))
    ca.start = lambda i: R.ite(R.and_(inside(i[2]), inside(i[3])), draw(i), ZERO)
    act = h.ndarray("action", (D,)); ca.want = act.reader(); snap = h.snapshot(act)
    out = same_seed(h, lambda: h.call("step", w.step, act))
    h.ensure(len(out) == 4, "observation, reward, done and information")
    obs, reward, done, info = out
    Tn = unwrap(ca.t)
    h.ensure(wrap(R.and_(R.ge(Tn, 1), R.le(Tn, unwrap(L)))), "at least one step, at most ca_steps")
    total = lambda t: h.nested([unwrap(v) for v in (B, E, dim, dim)], lambda i: ca.S((t,) + tuple(i)))
    h.ensure(wrap(R.or_(R.eq(Tn, unwrap(L)), R.le(total(Tn), ZERO))), "a run ends early only when every pattern has vanished")
    act_ = lambda b: R.ite(R.gt(h.nested([unwrap(v) for v in (E, dim, dim)], lambda i: ca.S((Tn, b) + tuple(i))), ZERO), ONE, ZERO)
    frac = R.div(N.sum_(unwrap(B), act_), R.to_real(unwrap(B)))
    want = R.neg(R.abs_(R.sub(Fraction(5001, 10000), frac)))
    h.eq(info["active_grid"], wrap(frac), "the active fraction is the share of patterns that are not empty at the end of the run")
    h.eq(reward, wrap(want), "the reward is minus the distance of that fraction from 0.5001")
    # what the reward ranks
    h.sum_nonneg([B], lambda i: act_(i[0]), "active patterns"); h.sum_nonneg([B], lambda i: R.sub(ONE, act_(i[0])), "empty patterns")
    h.ensure(wrap(R.and_(R.ge(frac, 0), R.le(frac, 1))), "a fraction")
    rw = h.value(reward)
    h.ensure(wrap(R.and_(R.ge(rw, Fraction(-5001, 10000)), R.le(rw, 0))), "the reward lies in [-0.5001, 0]")
    h.ensure(wrap(R.implies(R.eq(frac, Fraction(1, 2)), R.eq(rw, Fraction(-1, 10000)))), "half of the patterns active is worth -0.0001")
    h.ensure(done is False, "not done")
    h.unchanged(snap, "the parameters are not changed")

class Predictor:
    """contract of the predictor network: any values in [0, 1]; training may change it in any way and nothing else"""
    def __init__(self, h, B, n):
        self.h, self.B, self.n, self.calls = h, unwrap(B), n, []
        self.f = h.reader("prediction", 2, lo=0, hi=1)
    def __call__(self, x):
        self.calls.append(x.reader())
        return A.mk("torch", (self.B, self.n), lambda i: self.f(tuple(i)), "float32")
class Loss:
    def __call__(self, p, t):
        return self
    def backward(self): pass
class Optimizer:
    def step(self): pass
def halting(h, mode):
    Ca = Automaton()
    B, E, D, L, dim = h.int("B", 1), h.int("E", 1), h.int("D", 1), h.int("ca_steps", 1), h.int("dim", 1)
    w = h.call("constructor", hw().HaltingWrapper, ca_fn=Ca, ca_steps=L, batch_size=B, dim=dim, prediction_mode=mode)
    h.ensure(isinstance(w.ca, Ca), "the automaton is made by ca_fn")
    w.ca.begin(h, E, D, (B, E, dim, dim))
    M = type(w).__mro__[1]
    w.layers = []; w.final_layer = M()
    w.predictor_stub = p = Predictor(h, B, 2 if mode == 2 else 1)
    object.__setattr__(w, "forward", p)
    w.loss_fn, w.optimizer = Loss(), Optimizer()
    return w, w.ca, p, B, E, D, L, dim
def agreement(mode, train):
    def f(h):
        h.c.exact_loops = True
        w, ca, p, B, E, D, L, dim = halting(h, mode)
        w.train_steps = h.int('train_steps', 1) if train else 0
        h.c.while_rule = lambda where: True
        act = h.ndarray("action", (D,)); ca.want = act.reader(); snap = h.snapshot(act)
        obs, reward, done, info = same_seed(h, lambda: h.call("step", w.step, act))
        Tn = A.canon_int(R.sub(unwrap(ca.t), 9))
        h.ensure(wrap(R.and_(R.ge(Tn, 1), R.le(Tn, unwrap(L)))), "at least one step after the first eight, at most ca_steps")
        T8 = A.canon_int(R.add(Tn, 8))
        t = lambda fn, sh: A.mk("torch", tuple(unwrap(v) for v in sh), fn, "float32")
        h.equals(t(p.calls[-1], (B, E, dim, dim)), (B, E, dim, dim), lambda i: ca.S((8,) + tuple(i)), "the predictor sees the eighth grid")
        whole = t(lambda i: ca.S((T8,) + tuple(i)), (B, E, dim, dim)).max()
        h.ensure(wrap(R.or_(R.eq(Tn, unwrap(L)), R.eq(h.value(whole), ZERO))), "a run ends early only when every pattern has vanished")
        last = lambda i: ca.S((T8,) + tuple(i)); change = lambda i: R.abs_(R.sub(ca.S((T8,) + tuple(i)), ca.S((A.canon_int(R.add(T8, 1)),) + tuple(i))))
        big = lambda g, b: R.gt(h.value(t(lambda i: g((b,) + tuple(i)), (E, dim, dim)).max(-1)[0].max(-1)[0].max(-1)[0]), Fraction(1, 100000))
        outcomes = {0: [last], 1: [change], 2: [last, change]}[mode]
        n = len(outcomes)
        out = lambda b, k: R.ite(big(outcomes[0], b), ONE, ZERO) if n == 1 else R.ite(R.eq(k, 0), R.ite(big(outcomes[0], b), ONE, ZERO), R.ite(big(outcomes[1], b), ONE, ZERO))
        total = lambda fn: R.div(h.nested([unwrap(B), n] if n > 1 else [unwrap(B)], lambda i: fn(i[0], i[1] if n > 1 else 0)), R.to_real(R.mul(unwrap(B), n)))
        h.eq(info["active_grid"], wrap(total(out)), "the active fraction is the share of outcomes that occurred")
        guess = lambda b, k: R.ite(R.gt(p.f((b, k)), Fraction(1, 2)), ONE, ZERO)
        h.eq(reward, wrap(R.neg(total(lambda b, k: R.ite(R.eq(guess(b, k), out(b, k)), ONE, ZERO)))), "the reward is minus the share of outcomes that were predicted")
        h.unchanged(snap, "the parameters are not changed")
    return f
for m, n in ((0, "vanishing"), (1, "static"), (2, "both")):
    contract("C21", f"HaltingWrapper.step, prediction of {n}", ["HaltingWrapper.step", "HaltingWrapper.get_accuracy", "HaltingWrapper.__init__"], time_limit=200)(agreement(m, 0))
for m, n in ((0, "vanishing"), (1, "static"), (2, "both")):
    contract("C21", f"HaltingWrapper.step after training, prediction of {n}", ["HaltingWrapper.step", "HaltingWrapper.get_accuracy"], time_limit=300, tier="thorough" if m == 1 else "quick")(agreement(m, 1))
# parameters go to and come from the automaton
def delegates(name):
    def f(h):
        w, ca = (simple(h) if name == "SimpleHaltingWrapper" else halting(h, 0))[:2]
        v = h.ndarray("v", (ca.D,)); snap = h.snapshot(v)
        h.call("set_params", w.set_params, v)
        h.forall((ca.D,), lambda i: R.eq(ca.params(i), v.reader()(i)), "parameters are those of the automaton")
        ca.get_params = lambda: v
        h.equals(h.call("get_params", w.get_params), (ca.D,), lambda i: v.reader()(i), "and are read from it")
        h.unchanged(snap, "the parameters are not changed")
    return f
for n in ("SimpleHaltingWrapper", "HaltingWrapper"): contract("C21", f"{n}: parameters", [f"{n}.set_params", f"{n}.get_params"])(delegates(n))
def predictor(blocks, mode):
    def f(h):
        """the contract the episodes assume of the predictor: one value in [0, 1] per pattern and outcome, whatever its layers compute"""
        B, E, D, L = h.int("B", 1), h.int("E", 1), h.int("D", 1), h.int("ca_steps", 1)
        q = h.int("q", 1); dim = h.int("dim", 1); h.assume(wrap(R.ge(dim.r, 2 ** blocks)))
        w = h.call("constructor", hw().HaltingWrapper, ca_fn=Automaton(), ca_steps=L, batch_size=B, dim=dim, prediction_mode=mode, num_blocks=blocks)
        w.ca.begin(h, E, D, (B, E, dim, dim))
        h.call("reset", w.reset)
        h.ensure(len(w.layers) == blocks, "as many blocks as configured")
        class Layer:
            def __init__(self, k, n): self.k, self.n = k, n
            def __call__(self, x):
                f = h.reader(f"layer{self.k}", 4)
                return A.mk("torch", (x._shape[0], unwrap(self.n), *x._shape[2:]), f, "float32")
        n = 2 if mode == 2 else 1
        M = type(w).__mro__[1]
        w.layers = [Layer(k, E) for k in range(blocks)]; object.__setattr__(w, "_modules", {**w._modules}); w._modules.pop("final_layer", None); object.__setattr__(w, "final_layer", Layer("final", n))
        u = h.tensor("grid", (B, E, dim, dim), lo=0, hi=1); snap = h.snapshot(u)
        y = h.call("forward", w.forward, u)
        h.shape_is(y, (B, n), "one value per pattern and outcome")
        with h.scope():
            b, k = h.skolems((unwrap(B), n))
            side = unwrap(dim)
            for _ in range(blocks): side = A.canon_int(R.idiv(side, 2))
            v = y.reader()((b, k))
            s = lambda i: R.sigm_(h.reader("layerfinal", 4)((b, k, i[0], i[1])))
            sd = [side] * 2
            h.sum_nonneg(sd, s, "shares"); h.sum_nonneg(sd, lambda i: R.sub(ONE, s(i)), "shares of the rest")
            T, area = h.nested(sd, s), R.to_real(R.mul(side, side))
            h.ensure(wrap(R.gt(area, 0)), "something is left to average"); h.c.assume(R.gt(area, 0))
            h.ensure(wrap(R.eq(R.mul(v, area), T)), "the mean of the last layer's shares")
            h.ensure(wrap(R.and_(R.ge(v, 0), R.le(v, 1))), "predictions lie in [0, 1]")
        h.unchanged(snap, "the grids are not changed")
    return f
for blocks, mode in ((1, 0), (2, 2), (4, 1)):
    contract("C21", f"the predictor, {blocks} block{'s' if blocks > 1 else ''}, mode {mode}", ["HaltingWrapper.forward", "HaltingWrapper.init_model", "HaltingWrapper.reset"], time_limit=200)(predictor(blocks, mode))
