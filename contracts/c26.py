"""C26: equal seeds give equal stochastic behaviour.
Every contract runs the real code twice, each time right after `seed_all` with the same arbitrary seed. Before each run the two
generators are in states that are arbitrary and unrelated, uninitialised memory and the clock are unrelated throughout.
Everything the two runs produce is compared, down to every attribute of the objects that were built."""
from .common import *
from pyvc import core as C
import types
PRELOAD = ["yuca.utils", "yuca.cppn", "yuca.cmaes", "yuca.params_agent", "yuca.wrappers.halting_wrapper"]
def ut(): return mod("yuca.utils")
def np_(): return mod("pyvc.numpy_impl")
def TI(): return mod("pyvc.torch_impl")
def elsewhere(h, tag):
    """arbitrary history: both generators in an unknown state"""
    for g in ("torchrng", "numpyrng"): TI().rng(g).state = z3.Int(f"{g}_{tag}")
def seeded(h, op, seed=None):
    s = h.int("seed") if seed is None else seed
    elsewhere(h, "before"); h.call("seed_all", ut().seed_all, s); a = op()
    elsewhere(h, "later"); h.call("seed_all", ut().seed_all, s); b = op()
    return a, b
SKIP = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, type)
def equal(h, a, b, what, seen=None, skip=()):
    """a and b are equal in every part"""
    seen = set() if seen is None else seen
    if a is b or id(a) in seen: return
    seen.add(id(a))
    no = lambda: h.ensure(False, f"{what}: the two runs differ")
    if isinstance(a, A.Arr):
        if not isinstance(b, A.Arr): return no()
        return h.equals(b, a._shape, a.reader(), what)
    if isinstance(a, VList) or isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)): return no()
        la, lb = (S(x.length()) if isinstance(x, VList) else len(x) for x in (a, b))
        h.eq(lb, la, f"{what}: as many items")
        if isinstance(a, VList) and a.pre is not None:
            with h.scope():
                k, = h.skolems((unwrap(la),)); equal(h, a[wrap(k)], b[wrap(k)], f"{what}[k]", seen, skip)
            return
        if len(a) != len(b): return no()
        for k, (x, y) in enumerate(zip(a, b)): equal(h, x, y, f"{what}[{k}]", seen, skip)
        return
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b): return no()
        for k in a:
            if k not in skip: equal(h, a[k], b[k], f"{what}.{k}" if isinstance(k, str) else what, seen, skip)
        return
    if isinstance(a, SKIP): return
    if a is None or isinstance(a, str): return h.ensure(isinstance(b, type(a)) and a == b, what)
    if isinstance(a, (S, bool, int, float, Fraction)):
        if b is None or isinstance(b, str): return no()
        if isinstance(a, bool): return h.ensure(wrap(R.eq(R.truth(unwrap(b)), a)), what)
        return h.eq(b, a, what)
    h.ensure(type(a) is type(b), f"{what}: same class")
    if hasattr(a, "__dict__"): equal(h, vars(a), vars(b), what, seen, skip)

# ---- automata --------------------------------------------------------------
def build(fam, I, mixed=False, **kw):
    def f(h):
        rk, pk = h.int("rk", 1), h.int("peaks", 1)
        k = dict(kernel_radius=rk, **kw)
        if fam not in ("RxnDfn", "NCA"): k.update(kernel_peaks=pk)
        if fam == "NCA": k.update(hidden_channels=h.int("hidden", 1))
        n = h.int("I", 1) if I is None else I
        k.update(internal_channels=n, external_channels=n if mixed else 1)
        a, b = seeded(h, lambda: h.call("constructor", family(fam), **k))
        equal(h, a, b, fam)
    return f
for fam in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA"):
    for I in (1, 2) if fam in ("CCA", "NCA") else (1,):
        contract("C26", f"constructing {fam}, {I} channel{'s' if I > 1 else ''}", [f"{fam}.__init__", "CCA.default_init", "yuca.utils.seed_all"], time_limit=200)(build(fam, I))
contract("C26", "constructing RxnDfn", ["RxnDfn.__init__"], time_limit=200)(lambda h: equal(h, *seeded(h, lambda: h.call("constructor", family("RxnDfn"), kernel_radius=h.int("rk", 1))), "RxnDfn"))
def many(h):
    """nine channels, so that the polynomials of the ninth are drawn as well (of the drawn shapes of the first eight, one)"""
    r = np_().random; old = r.randint
    def randint(*a, **k):
        v = old(*a, **k); h.assume(v == 0); return v
    r.randint = randint
    try: build("CCA", 9)(h)
    finally: r.randint = old
contract("C26", "constructing CCA, nine channels", ["CCA.default_init"], time_limit=200, bounded="nine channels, update functions of the first eight of one shape")(many)
def stepped(fam):
    def f(h):
        """a fresh automaton's first steps"""
        u, B, Hh, W = grid(h, None, 1)
        def op():
            ca = h.call("constructor", family(fam), kernel_radius=1, kernel_peaks=1)
            ca.genesis_fns, G = opaque_list("Gfn", 1); ca.persistence_fns, P = opaque_list("Pfn", 1)
            return [h.call("step", ca, h.call("step", ca, u)), ca]
        a, b = seeded(h, op)
        equal(h, a, b, fam)
    return f
contract("C26", "random step sizes", ["RandomStepCA.forward", "RandomStepCA.update_universe"], time_limit=200)(stepped("RandomStepCA"))

# ---- training inputs -------------------------------------------------------
from . import c23
@contract("C26", "training inputs", ["yuca.utils.prep_input", "yuca.utils.get_bite_mask"], time_limit=200)
def _(h):
    img, Cc, r, side = c23.image(h); kw, E, ap, br, nl = c23.settings(h, Cc, "given")
    for n in (1, h.int("batch_size", 2)):
        a, b = seeded(h, lambda: h.call("prep_input", ut().prep_input, img, batch_size=n, **kw))
        equal(h, a, b, "batch")
    a, b = seeded(h, lambda: h.call("get_bite_mask", ut().get_bite_mask, img, h.real("bite_radius")))
    equal(h, a, b, "bite mask")

# ---- agents ----------------------------------------------------------------
from . import c15
def made(cls_, **kw):
    def f(h):
        E, Hd, D = h.int("channels", 1), h.int("hidden", 1), h.int("dim", 2); h.c.ceilings = [D]
        def op():
            g = h.call("constructor", getattr(c15.cp(), cls_), external_channels=E, hidden_dim=Hd, dim=D)
            return [g.get_params(), h.call("get_action", g.get_action), g]
        a, b = seeded(h, op)
        equal(h, a, b, cls_)
    return f
for c_ in ("CPPN", "CPPNPlus"): contract("C26", f"constructing {c_}", [f"{c_}.__init__", f"{c_}.get_action"], time_limit=200)(made(c_))
@contract("C26", "constructing ParamsAgent", ["ParamsAgent.__init__"])
def _(h):
    for kw in (dict(num_params=h.int("n", 1)), {}):
        a, b = seeded(h, lambda: h.call("constructor", c15.pa().ParamsAgent, **kw))
        equal(h, [a.get_params(), a.get_action(), a], [b.get_params(), b.get_action(), b], "ParamsAgent")

# ---- evolution -------------------------------------------------------------
from . import c18, c19
def sampler(h, D):
    """np.random.multivariate_normal: the draw depends on the generator's state, and on mean and covariance, which are compared"""
    log = []
    f = z3.Function("mvn_draw", R.INT, R.INT, R.REAL)
    def draw(mean, cov):
        s = TI().rng("numpyrng").advance(1)
        return A.mk("numpy", (unwrap(D),), lambda i: f(R.z(s), R.z(i[0])), "float64")
    h.c.mvn_contract = draw
@contract("C26", "a new population", ["yuca.cmaes.CMAES.reset", "yuca.cmaes.CMAES.initialize_population", "yuca.cmaes.CMAES.sample_distribution"])
def _(h):
    for elites in (False, True):
        def op():
            o, P, D, n, ex, s = c19.fresh_state(h, elites); sampler(h, D)
            h.call("reset", o.reset)
            return [o.population, o.means, o.covar]
        a, b = seeded(h, op)
        equal(h, a, b, "population")
@contract("C26", "the next generation", ["yuca.cmaes.CMAES.update_population"])
def _(h):
    for mode in (0, 1):
        def op():
            e = c18.Evo(h, mode=mode); sampler(h, e.D)
            h.call("update_population", e.o.update_population, e.fl)
            return [e.o.population, e.o.means, e.o.covar, e.o.elite_params]
        a, b = seeded(h, op)
        equal(h, a, b, f"generation (selection mode {mode})")
class Env(c18.Rewards):
    """environment whose rewards depend on the generators' states as well"""
    def step(self, a):
        z = z3.Function("reward_in_state", R.INT, R.INT, R.INT, R.INT, R.REAL)
        k = unwrap(self.k); note_attr(self, "k"); self.k = wrap(A.canon_int(R.add(k, 1)))
        s, t = TI().rng("numpyrng").advance(1), TI().rng("torchrng").advance(1)
        sc = lambda q: A.mk("torch", (), lambda i: z(R.z(s), R.z(t), R.z(k), z3.IntVal(q)), "float32")
        return None, sc(0), True, {"active_grid": sc(1)}
from pyvc.loops import note_attr
for cls in ("CMAES", "CMACES"):
    @contract("C26", f"{cls}.get_fitness", [f"yuca.cmaes.{cls}.get_fitness"])
    def _(h, cls=cls):
        """the fitness of an agent depends on the seed it is evaluated with, and not on what was drawn before"""
        P, D = h.int("P", 1), h.int("D", 1); n, m, a, seed = h.int("steps", 1), h.int("replicates", 1), h.int("agent", 0), h.int("seed")
        h.assume(a < P)
        def op():
            o = object.__new__(getattr(c18.cm(), cls)); o.my_device = "cpu"
            x, y = h.ndarray("params", (P, D)), h.ndarray("rules", (P, D))
            def agent(k):
                g = object.__new__(c18.Agent); g.p = x[wrap(k)]
                if cls == "CMACES": g.get_action = lambda: (y[wrap(k)], x[wrap(k)])
                return g
            o.population = VList.sym(P.r, agent)
            o.env = Env(h, None); o.env.D = D; yr = y.reader(); o.env.rule = lambda i: yr((unwrap(a),) + tuple(i))
            return list(h.call("get_fitness", o.get_fitness, a, steps=n, replicates=m, seed=seed))
        elsewhere(h, "before"); p = op()
        elsewhere(h, "later"); q = op()
        equal(h, p, q, "fitness and active share")
@contract("C26", "a search", ["yuca.cmaes.CMAES.mantle"])
def _(h):
    """whatever was drawn before a search: its first population is drawn in the state its seed gives, every evaluation is told a seed that
    depends on the search's seed and the generation only (C19), and every later population is drawn in the state an evaluation left"""
    h.c.exact_loops = True
    P = h.int("P", 1); seed = h.int("seed", 1); gens = h.int("generations", 1)
    names = ("numpyrng", "torchrng")
    f = z3.Function("state_after_evaluation", R.INT, R.INT, R.INT)
    def state(n): return S(TI().rng(n).state)
    class Search(c19.Run):
        def fitness(self, j, steps=10, replicates=1, seed=13):
            for n, g in enumerate(names):
                g = TI().rng(g)
                for J in C.JOURNALS: J.note_rng(g)
                g.state = f(R.z(unwrap(seed)), z3.IntVal(n))
            return S(self.f((unwrap(self.v), unwrap(j)))), S(self.alive((unwrap(self.v), unwrap(j))))
        def step(self, kind, fl):
            for n, g in enumerate(names):
                if kind == "update": h.eq(state(g), S(f(R.z(R.mul(unwrap(self.v), unwrap(self.seed))), z3.IntVal(n))), f"the next population is drawn in the state the evaluation left ({g})")
                TI().rng(g).advance(1)
            super().step(kind, fl)
    elsewhere(h, "before"); h.call("seed_all", ut().seed_all, seed); want = [state(g) for g in names]
    elsewhere(h, "later")
    r = Search(h, P, 0, gens, seed); reset = r.o.reset
    def drawn():
        equal(h, want, [state(g) for g in names], "the first population is drawn in the state the seed gives"); reset()
    r.o.reset = drawn
    h.call("mantle", r.o.mantle)

# ---- episodes --------------------------------------------------------------
from . import c21
class Episodes:
    """records what an automaton is run on right after a reset"""
    def __init__(self, ca):
        self.first, f = [], ca.forward
        def forward(u):
            if cur().entails(R.eq(unwrap(ca.t), 0)): self.first.append(A.mk("torch", u._shape, u.reader(), "float32"))
            return f(u)
        object.__setattr__(ca, "forward", forward)
@contract("C26", "a simple halting episode", ["SimpleHaltingWrapper.step", "SimpleHaltingWrapper.ActionSpace.sample"], time_limit=200)
def _(h):
    """the trajectory of the automaton given, the starting patterns and the reward depend on the seed only"""
    h.c.exact_loops = True
    def op():
        w, ca, B, E, D, L, dim = c21.simple(h); e = Episodes(ca)
        half = R.idiv(unwrap(dim), 4)
        act = h.ndarray("action", (D,)); ca.want = act.reader()
        v = w.action_space.sample(); w.ca_steps = 1
        ca.start = lambda i: e.first[-1].reader()(tuple(i))
        out = h.call("step", w.step, act)
        return [e.first[:1], v]
    a, b = seeded(h, op)
    equal(h, a, b, "starting patterns and sampled action")
for mode in (0, 2):
    @contract("C26", f"a halting episode, mode {mode}", ["HaltingWrapper.reset", "HaltingWrapper.init_model"], time_limit=200)
    def _(h, mode=mode):
        """the predictor of an episode"""
        def op():
            B, E, D, L, dim = h.int("B", 1), h.int("E", 1), h.int("D", 1), h.int("ca_steps", 1), h.int("dim", 1)
            w = h.call("constructor", c21.hw().HaltingWrapper, ca_fn=c21.Automaton(), ca_steps=L, batch_size=B, dim=dim, prediction_mode=mode)
            w.ca.begin(h, E, D, (B, E, dim, dim))
            h.call("reset", w.reset)
            return [w.layers, w.final_layer]
        a, b = seeded(h, op)
        equal(h, a, b, "predictor")
@contract("C26", "constructing a search", ["yuca.cmaes.CMAES.__init__", "SimpleHaltingWrapper.__init__"], time_limit=200)
def _(h):
    def op(): return h.call("constructor", c18.cm().CMAES, env_fn=c21.hw().SimpleHaltingWrapper, kernel_radius=h.int("rk", 1), kernel_peaks=2, tag="", population_size=h.int("P", 1), dim=h.int("dim", 4), ca_steps=h.int("ca_steps", 1))
    a, b = seeded(h, op)
    equal(h, a, b, "search", skip=("exp_id",))       # the file name of a search contains the time
