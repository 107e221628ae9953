"""C19: each generation has the configured size and starts with the elites"""
from .c18 import *
PRELOAD = ["yuca.cmaes"]
QUIET = ["save_gif", "get_elite_configs"]

class Free(Sampler):
    """draws whose distribution is checked against given readers"""
class AgentEnv:
    def __init__(self, D): self.D = D; self.ca = self; self.external_channels = 1
    def get_params(self): return A.mk("numpy", (self.D.r,), self.rd, "float64")
def fresh_state(h, elites):
    """a CMAES object as __init__ leaves it: starting distribution, population size, possibly elites of an earlier search"""
    P, D = h.int("P", 1), h.int("D", 2 if elites else 1)      # a saved vector of one parameter would be squeezed to a scalar
    o = object.__new__(cm().CMAES)
    o.population_size = P; o.elitism = 1; o.elite_keep = wrap(A.canon_int(R.add(R.idiv(P.r, 8), 1)))
    o.my_device = "cpu"; o.dim = h.int("dim", 1); o.external_channels = h.int("E", 1)
    m, c = h.ndarray("means0", (D,)), h.ndarray("covar0", (D, D))
    o.starting_means, o.starting_covar = m, c
    o.agent_fn = Agent
    o.elite_params = None
    n = wrap(0); ex = None
    if elites:
        n = o.elite_keep; e = h.ndarray("elites", (n, D)); ex = e.reader(); o.elite_params = e
    mr, cr = m.reader(), c.reader()
    s = Sampler(h, lambda i: mr(i), lambda i: cr(i)); s.D = D
    return o, P, D, n, ex, s
def check_population(h, o, P, D, n, lead, s, name, base=0):
    """P agents; the first n carry lead(k, d), agent k >= n carries draw number base + k - n"""
    h.eq(S(o.population.length()) if isinstance(o.population, VList) else len(o.population), P, f"{name}: the population has the configured size")
    with h.scope():
        k, d = h.skolems((P, D))
        g = o.population[wrap(k)].get_params()
        h.shape_is(g, (D,), f"{name}: the parameters of an agent")
        draw = s.f(R.z(R.add(base, R.sub(k, unwrap(n)))), R.z(d))
        want = R.ite(R.lt(k, unwrap(n)), lead(k, d), draw) if lead is not None else draw
        h.ensure(wrap(R.eq(g.reader()((d,)), want)), f"{name}: " + ("leading elites, then one new draw per agent" if lead is not None else "every agent is a new draw"))
for elites in (False, True):
    @contract("C19", f"reset {'with the elites of an earlier search' if elites else 'from scratch'}", ["yuca.cmaes.CMAES.reset", "yuca.cmaes.CMAES.initialize_population", "yuca.cmaes.CMAES.sample_distribution"])
    def _(h, elites=elites):
        o, P, D, n, ex, s = fresh_state(h, elites)
        snap = [h.snapshot(o.starting_means), h.snapshot(o.starting_covar)]
        h.call("reset", o.reset)
        check_population(h, o, P, D, n, (lambda k, d: ex((k, d))) if elites else None, s, "initialisation")
        h.equals(o.means, (D,), s.mean, "the search starts at the starting mean")
        h.equals(o.covar, (D, D), s.cov, "and with the starting covariance")
        with h.scope():
            k, = h.skolems((P,))
            kw = o.population[wrap(k)].kw
            h.eq(kw.get("dim"), o.dim, "agents are made for the grid size of the search")
            h.eq(kw.get("external_channels"), o.external_channels, "agents are made for the channels of the automaton")
        if elites: h.equals(o.elite_params, (n, D), lambda i: ex(i), "the elites are kept")
        for q in snap: h.unchanged(q, "the starting distribution is not changed")
for mode in (0, 1, 2):
    @contract("C19", f"update_population, selection mode {mode}", ["yuca.cmaes.CMAES.update_population"])
    def _(h, mode=mode):
        e = Evo(h, mode=mode); P, D, o = e.P, e.D, e.o
        s = e.sampler(e.best); s.__class__ = Plain     # the distribution is C18's business
        if mode == 2:
            c = z3.Function("lottery", R.INT, R.INT)
            C.FACT_DECLS["lottery"] = lambda t: [R.implies(R.and_(R.ge(t.arg(0), 0), R.lt(t.arg(0), e.E)), R.and_(R.ge(t, 0), R.lt(t, P.r)))]
            h.c.choice_contract = lambda a, size, replace, p: A.mk("numpy", (e.E,), (lambda r: lambda i: r((c(R.z(i[0])),)))(np_().array(a).reader()), "int64")
        h.call("update_population", o.update_population, e.fl)
        h.shape_is(o.elite_params, (wrap(e.E), D), "the selected vectors")
        sel = o.elite_params.reader()
        n = wrap(A.canon_int(R.idiv(e.E, 2)))
        lead = (lambda k, d: e.x0((e.best(k), d))) if mode == 0 else (lambda k, d: sel((k, d)))
        check_population(h, o, P, D, n, lead, s, "next generation")
        h.eq(o.population_size, P, "the configured size is kept"); h.eq(o.elite_keep, wrap(e.E), "and so is the number of elites")
class Plain(Sampler):
    def __call__(self, mean, cov):
        k = unwrap(self.count)
        note_attr(self, "count"); self.count = wrap(A.canon_int(R.add(k, 1)))
        f = self.f
        return A.mk("numpy", (self.D.r,), lambda i: f(R.z(k), R.z(i[0])), "float64")
@contract("C19", "rank_population leaves the population alone", ["yuca.cmaes.CMAES.rank_population"])
def _(h):
    e = Evo(h); x = e.st.reader()
    h.call("rank_population", e.o.rank_population, e.fl, seed=h.int("seed"))
    h.equals(e.st, (e.P, e.D), lambda i: e.x0(i), "the parameters of the agents are not changed")
    h.eq(S(e.o.population.length()), e.P, "the size of the population is not changed")

class Run:
    """a CMAES object whose evaluation and resampling are replaced by their contracts: fitness f(v, k) of agent k of generation v"""
    def __init__(self, h, P, workers, gens, seed):
        o = self.o = object.__new__(cm().CMAES)
        self.h, self.P = h, P
        self.v, self.ranks, self.resets = S(0), S(0), 0
        self.f, self.alive = h.reader("fit", 2), h.reader("alive", 2)
        o.workers, o.population_size, o.generations, o.my_seed = workers, P, gens, [seed]
        o.elite_keep = wrap(A.canon_int(R.add(R.idiv(P.r, 8), 1))); o.replicates = h.int("replicates", 1)
        o.selection_mode = o.prediction_mode = 0; o.exp_id = "exp"; o.tag = ""; o.kwargs = {}; o.ca_steps = 8; o.my_device = "cpu"
        o.elite_params = None; o.means = o.covar = h.ndarray("m", (3,))
        o.population = VList()
        o.env = Opaque_env()
        D = self.D = h.int("D", 1)
        self.x = h.ndarray("params", (P, D)); self.xr = self.x.reader()
        def reset():
            self.resets += 1; o.population = self.agents()
        def init(): h.c.fail("the population is initialised once per search", "initialised a second time")
        o.reset, o.initialize_population = reset, init
        o.get_fitness = self.fitness
        o.update_population = lambda fl: self.step("update", fl)
        o.rank_population = lambda fl, seed=0: self.step("rank", fl)
        o.get_elite_configs = lambda: []
        o.save_gif = lambda **k: None
        self.seed = seed
    def agents(self):
        def agent(k):
            g = object.__new__(Agent); g.p = self.x[wrap(k)]; return g
        return VList.sym(self.P.r, agent)
    def fitness(self, j, steps=10, replicates=1, seed=13):
        h = self.h
        h.ensure(wrap(R.and_(R.ge(unwrap(j), 0), R.lt(unwrap(j), self.P.r))), "an agent of the population is evaluated")
        h.eq(seed, wrap(R.mul(unwrap(self.v), unwrap(self.seed))), "all agents of a generation are evaluated with the same seed")
        h.eq(replicates, self.o.replicates, "with the configured number of replicates")
        return S(self.f((unwrap(self.v), unwrap(j)))), S(self.alive((unwrap(self.v), unwrap(j))))
    def step(self, kind, fl):
        h = self.h
        n = fl.length() if isinstance(fl, VList) else len(fl)
        h.eq(wrap(n), self.P, "one fitness value per agent")
        with h.scope():
            k, = h.skolems((self.P,))
            h.eq(fl[wrap(k)], S(self.f((unwrap(self.v), k))), "fitness values are aligned with the agents of the generation they belong to")
        h.eq(self.ranks, 0, "nothing is ranked or resampled after the final ranking")
        nm = "v" if kind == "update" else "ranks"
        note_attr(self, nm); setattr(self, nm, wrap(A.canon_int(R.add(unwrap(getattr(self, nm)), 1))))
        note_attr(self.o, "elite_params"); self.o.elite_params = None
    def finish(self, gens):
        h = self.h
        h.ensure(self.resets == 1, "the population is initialised once")
        h.eq(self.ranks, 1, "the last generation, and no other, is ranked")
        n = R.add(unwrap(self.v), 1)
        h.ensure(wrap(R.or_(R.eq(n, unwrap(gens)), R.and_(R.gt(n, 7), R.lt(n, unwrap(gens))))), "all generations are run (a converged search may stop after the eighth)")
class Opaque_env:
    def __init__(self): self.ca = self
    def no_grad(self): pass
    def to_device(self, d): pass
    def set_params(self, p): pass
@contract("C19", "mantle, one process", ["yuca.cmaes.CMAES.mantle"])
def _(h):
    P = h.int("P", 1); seed = h.int("seed", 1); gens = h.int("generations", 1)
    h.c.exact_loops = True
    r = Run(h, P, 0, gens, seed)
    h.call("mantle", r.o.mantle)
    r.finish(gens)
def saved_search(h, M, D2):
    """the log file of an earlier search: the last of its generations selected M vectors of D2 parameters"""
    last = h.ndarray("saved", (M, D2)); first = h.ndarray("saved_earlier", (M, D2))
    np_().save("logs/earlier.npy", {"elite_params": [first, last], "kwargs": {}})
    return last.reader()
for tag in ("", "pattern_search"):
    for src in ("from scratch", "from the log of an earlier search", "from the log of a search with other parameters"):
        @contract("C19", f"a new search, tag {tag!r}, {src}", ["yuca.cmaes.CMAES.__init__"])
        def _(h, tag=tag, src=src):
            D = Maker.D = h.int("D", 2); Maker.h = h; h.assume(wrap(R.ge(D.r, 2)))
            kw = {k: h.int(k, 1 if k in ("replicates", "dim", "ca_steps", "batch_size", "population_size", "generations") else 0) for k in SETTINGS}
            P = kw["population_size"]; E = wrap(A.canon_int(R.add(R.idiv(P.r, 8), 1)))
            rd = None
            if src != "from scratch":
                D2 = D if src.endswith("earlier search") else h.int("D2", 2)
                if D2 is not D: h.assume(wrap(R.ne(D2.r, D.r)))
                M = h.int("M", 1); h.assume(wrap(R.ge(M.r, E.r)))         # a search of this population size saves at least that many
                rd = saved_search(h, M, D2); kw["input_filepath"] = "logs/earlier.npy"
            seed = h.int("seed", 0)
            o = h.call("constructor", cm().CMAES, env_fn=Wrapped, agent_fn=Maker, tag=tag, seed=seed, **kw)
            for k in SETTINGS: h.eq(getattr(o, k), kw[k], f"{k} is the configured one")
            h.eq(o.elite_keep, E, "a generation selects an eighth of the population plus one")
            h.ensure(bool(o.elitism == 1), "elitism is on")
            h.ensure(isinstance(o.my_seed, list) and len(o.my_seed) == 1, "one seed"); h.eq(o.my_seed[0], seed, "the seed is the configured one")
            h.eq(o.external_channels, o.env.external_channels, "agents are made for the channels of the automaton")
            h.ensure(o.agent_fn is Maker, "agents are of the configured kind")
            fresh = h.reader("fresh_params", 1)
            if src.endswith("earlier search"):
                h.ensure(o.elite_params is not None, "the saved vectors are used")
                if o.elite_params is None: return
                h.equals(o.elite_params, (E, D), lambda i: rd(i), "the search starts from the leading saved vectors of the last generation")
                n = 1 if h.c.entails(R.eq(E.r, 1)) else E.r
                h.equals(o.starting_means, (D,), lambda i: R.div(N.sum_(n, lambda k: rd((k, i[0]))), R.to_real(n)), "its mean is that of the saved vectors")
            else:
                h.ensure(o.elite_params is None, "nothing is carried over")
                h.equals(o.starting_means, (D,), lambda i: fresh((i[0],)), "the search starts around the parameters of a new agent")
            i, j = h.skolems((D, D))
            c = o.starting_covar.reader()
            h.shape_is(o.starting_covar, (D, D), "starting covariance")
            h.ensure(wrap(R.implies(R.ne(i, j), R.eq(c((i, j)), 0))), "parameters start uncorrelated"); h.ensure(wrap(R.gt(c((i, i)), 0)), "every parameter has some variance")
