"""C18: evolution selects by fitness and re-estimates the search distribution"""
from .common import *
from pyvc import core as C
from pyvc.core import PathEnd
PRELOAD = ["yuca.cmaes"]
def cm(): return mod("yuca.cmaes")
def np_(): return mod("pyvc.numpy_impl")
from pyvc.seq import VList
from pyvc.loops import note_attr

class Agent:
    """contract of an agent (C15): it holds one parameter vector, by value"""
    def __init__(self, params=None, **kw):
        self.p = np_().array(params); self.kw = kw
    def get_params(self): return self.p.copy()
    def set_params(self, v):
        if len(v._shape) != len(self.p._shape): raise ValueError("parameter vector of the wrong rank")
        self.p[...] = v
    def get_action(self): return self.p.copy()
    def to_device(self, d): self.device = d
class Sampler:
    """draws of np.random.multivariate_normal: the k-th draw is an arbitrary vector; the arguments are checked"""
    def __init__(self, h, mean, cov):
        self.count, self.check = S(0), None
        self.f = z3.Function("mvn", R.INT, R.INT, R.REAL)
        h.c.mvn_contract = self
        self.h, self.mean, self.cov = h, mean, cov
    def __call__(self, mean, cov):
        h = self.h; D = self.D
        with h.scope():
            h.equals(mean, (D,), self.mean, "agents are sampled around the mean of the selected vectors")
            h.equals(cov, (D, D), self.cov, "agents are sampled with the covariance of the selected vectors")
        k = unwrap(self.count)
        note_attr(self, "count"); self.count = wrap(A.canon_int(R.add(k, 1)))
        f = self.f
        return A.mk("numpy", (D.r,), lambda i: f(R.z(k), R.z(i[0])), "float64")
class Env:
    """stand-in for the environment: only records what it is given"""
    def __init__(self): self.ca = self; self.got, self.saved = [], []
    def set_params(self, p): self.got.append(p.reader())
    def save_config(self, path): self.saved.append(path)

class Evo:
    """a CMAES object in an arbitrary state: any population, any distribution, any fitness"""
    def __init__(self, h, mode=0, tag=""):
        self.h = h
        P = self.P = h.int("P", 1); D = self.D = h.int("D", 1)
        self.st = h.ndarray("params", (P, D)); self.x0 = self.st.reader()
        h.x0_keep = self.st
        m0, c0 = h.ndarray("means", (D,)), h.ndarray("covar", (D, D))
        self.m0 = m0.reader()
        self.fit = h.reader("fitness", 1)
        o = self.o = object.__new__(cm().CMAES)
        agents = {}
        def agent(k):
            a = object.__new__(Agent); a.p = self.st[wrap(k)]; a.kw = {}; return a
        o.population = VList.sym(P.r, agent)
        o.population_size = P; o.elitism = 1; o.selection_mode = mode; o.tag = tag; o.exp_id = "exp"; o.my_device = "cpu"
        self.E = A.canon_int(R.add(R.idiv(P.r, 8), 1)); o.elite_keep = wrap(self.E)
        o.means, o.covar = m0, c0
        o.elite_params = None
        o.env = self.env = Env()
        self.fl = VList.sym(P.r, lambda k: S(self.fit((k,))))
        self.rank, self.inv = np_().argsort_parts(np_().array(self.fl))
    def best(self, k):
        """index of the agent of the k-th highest fitness"""
        return self.rank(A.canon_int(R.sub(R.sub(self.P.r, 1), k)))
    def check(self, sel):
        """sel(k): index of the k-th selected agent"""
        h, D, E, o = self.h, self.D, self.E, self.o
        X = lambda k, d: self.x0((sel(k), d))
        h.equals(o.elite_params, (wrap(E), D), lambda i: X(i[0], i[1]), "the selected vectors are those of the selected agents")
        n = R.to_real(E)
        mean = self.mean(sel); cov = self.cov(sel)
        h.equals(o.means, (D,), mean, "the new mean is the mean of the selected vectors")
        h.equals(o.covar, (D, D), cov, "the new covariance is (1/n) sum (x - old mean)(x - old mean)^T")
    def n(self): return 1 if self.h.c.entails(R.eq(self.E, 1)) else self.E
    def mean(self, sel): return lambda i: R.div(N.sum_(self.n(), lambda k: self.x0((sel(k), i[0]))), R.to_real(self.n()))
    def cov(self, sel):
        dev = lambda k, d: R.sub(self.x0((sel(k), d)), self.m0((d,)))
        return lambda i: R.div(N.sum_(self.n(), lambda k: R.mul(dev(k, i[0]), dev(k, i[1]))), R.to_real(self.n()))
    def sampler(self, sel):
        s = Sampler(self.h, self.mean(sel), self.cov(sel)); s.D = self.D; return s

def order(h, e):
    """with the contract of argsort (a permutation that sorts): ranks are by descending fitness, and nobody left out is better"""
    P, E = e.P.r, e.E
    a, b = h.skolems((wrap(E), wrap(P)))
    fa = lambda k: e.fit((e.best(k),))
    i = R.fresh_int("agent"); h.c.assume(R.and_(R.ge(i, 0), R.lt(i, P)))
    r = R.sub(R.sub(P, 1), e.inv(i))         # the rank of agent i
    for x, y in ((a, b), (a, r)):            # sorted
        h.c.assume(R.implies(R.le(x, y), R.ge(fa(x), fa(y))))
    h.c.assume(R.and_(R.eq(e.rank(e.inv(i)), i), R.ge(e.inv(i), 0), R.lt(e.inv(i), P)))
    h.ensure(wrap(R.implies(R.le(a, b), R.ge(fa(a), fa(b)))), "selected agents are ordered by descending fitness")
    h.ensure(wrap(R.implies(R.ge(r, E), R.le(e.fit((i,)), fa(a)))), "no agent left out is fitter than a selected one")

@contract("C18", "rank_population", ["yuca.cmaes.CMAES.rank_population"])
def _(h):
    for tag in ("", "pattern"):
        e = Evo(h, tag=tag)
        h.call("rank_population", e.o.rank_population, e.fl, seed=h.int("seed"))
        e.check(e.best); order(h, e)
        if tag: h.ensure(len(e.env.got) == 0, "a pattern search leaves the rule alone")
        else:
            h.ensure(len(e.env.got) == 1, "the rule is set once")
            g = e.env.got[0]
            h.forall((e.D,), lambda i: wrap(R.eq(g(i), e.x0((e.best(0), i[0])))), "the saved rule is that of the fittest agent")
        h.ensure(len(e.env.saved) == 1, "one configuration is saved")
@contract("C18", "truncation selection", ["yuca.cmaes.CMAES.update_population", "yuca.cmaes.CMAES.sample_distribution"])
def _(h):
    e = Evo(h); e.sampler(e.best)
    h.call("update_population", e.o.update_population, e.fl)
    e.check(e.best); order(h, e)
def find(t, pred):
    """applications inside a term"""
    out, seen, st = [], set(), [R.z(t)]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if pred(x): out.append(x)
            st.extend(x.children())
    return out
def picked(h, e):
    """k -> index of the k-th selected agent, read off the selected vectors"""
    k, d = h.skolems((wrap(e.E), e.D)) if not h.c.entails(R.eq(e.E, 1)) else (0,) + h.skolems((e.D,))
    h.shape_is(e.o.elite_params, (wrap(e.E), e.D), "the selected vectors")
    t = e.o.elite_params.reader()((k, d))
    def index(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), index(t.arg(1)), index(t.arg(2)))
        if z3.is_app(t) and t.decl().name() == "params": return t.arg(0)
        h.c.fail("every selected vector is that of a member of the population", str(t)[:300]); raise PathEnd()
    i = index(R.z(t))
    h.ensure(wrap(R.eq(t, e.x0((i, d)))), "every selected vector is that of a member of the population")
    return (lambda kk: R.val(z3.substitute(i, (k, R.z(kk)))) if R.is_sym(k) else R.val(i)), k
def cases(h, t):
    """resolve the case distinctions of a term on this path"""
    while R.is_sym(t) and z3.is_app_of(t, z3.Z3_OP_ITE): t = t.arg(1) if h.c.branch(t.arg(0)) else t.arg(2)
    return t
@contract("C18", "tournament selection", ["yuca.cmaes.CMAES.update_population", "yuca.cmaes.CMAES.sample_distribution"])
def _(h):
    e = Evo(h, mode=1); log = []
    h.c.mvn_contract = lambda m, c: (log.append(1), A.mk("numpy", (e.D.r,), h.reader("drawn", 1), "float64"))[1]
    h.call("update_population", e.o.update_population, e.fl)
    sel, k = picked(h, e)
    e.check(sel)
    i = cases(h, sel(k)); P = e.P.r
    h.ensure(wrap(R.and_(R.ge(i, 0), R.lt(i, P))), "the selected agent is a member of the population")
    am = find(i, lambda x: x.decl().name().startswith("argmax!"))
    if len(am) != 1:
        h.c.fail("the selected agent is the champion of one bracket", str(i)[:300]); raise PathEnd()
    n, x = np_().argmax_parts(am[0])
    h.ensure(wrap(R.eq(n, e.E)), "a bracket has as many members as are selected")
    q = R.fresh_int("rival"); h.c.assume(R.and_(R.ge(q, 0), R.lt(q, n)))
    h.c.assume(R.ge(x(am[0]), x(q)))           # contract of argmax
    rival = R.val(z3.substitute(i, (am[0], R.z(q))))
    h.ensure(wrap(R.and_(R.ge(rival, 0), R.lt(rival, P))), "brackets are drawn from the whole population")
    draw = find(rival, lambda x: x.decl().name().startswith("numpyrng_randint"))
    h.ensure(len(draw) == 1, "brackets are drawn at random")
    if len(draw) == 1:
        who = R.fresh_int("who"); h.c.assume(R.and_(R.ge(who, 0), R.lt(who, P)))
        at = lambda w: R.eq(R.val(z3.substitute(R.z(rival), (draw[0], R.z(w)))), who)       # a raw draw is any integer
        h.ensure(wrap(R.or_(at(who), at(R.sub(who, 1)), at(R.add(who, 1)))), "every member of the population can be drawn")
        if R.is_sym(k) and not h.c.entails(R.eq(k, 0)): h.ensure(len(find(draw[0], lambda x: x.eq(R.z(k)))) > 0, "every bracket is drawn anew")
    h.ensure(wrap(R.ge(e.fit((i,)), e.fit((rival,)))), "the selected agent is the fittest of its bracket")
@contract("C18", "fitness-proportional selection", ["yuca.cmaes.CMAES.update_population", "yuca.cmaes.CMAES.sample_distribution"])
def _(h):
    e = Evo(h, mode=2); P = e.P
    c = z3.Function("lottery", R.INT, R.INT)       # positions drawn without replacement
    C.FACT_DECLS["lottery"] = lambda t: [R.implies(R.and_(R.ge(t.arg(0), 0), R.lt(t.arg(0), e.E)), R.and_(R.ge(t, 0), R.lt(t, P.r)))]
    calls = []
    def choice(a, size, replace, p):
        a = np_().array(a); calls.append(1)
        h.equals(a, (P,), lambda i: e.best(i[0]), "the lottery is over the agents by descending fitness")
        tot = N.sum_(P.r, lambda k: R.div(Fraction(1), R.mul(R.to_real(R.add(k, 1)), R.to_real(R.add(k, 1)))))
        h.equals(p, (P,), lambda i: R.div(R.div(Fraction(1), R.mul(R.to_real(R.add(i[0], 1)), R.to_real(R.add(i[0], 1)))), tot), "chances are proportional to 1/rank^2")
        h.ensure(not replace, "without replacement")
        sz = size if isinstance(size, tuple) else (size,)
        h.ensure(wrap(R.and_(len(sz) == 1, R.eq(unwrap(sz[0]), e.E))), "as many agents as are to be selected")
        return A.mk("numpy", (e.E,), lambda i: e.best(c(R.z(i[0]))), "int64")
    h.c.choice_contract = choice
    sel = lambda k: e.best(c(R.z(k)))
    e.sampler(sel)
    h.call("update_population", e.o.update_population, e.fl)
    h.ensure(len(calls) == 1, "one lottery per generation")
    e.check(sel)
class Rewards:
    """environment that pays an arbitrary reward for every step, in order"""
    def __init__(self, h, act):
        self.h, self.act, self.k, self.resets = h, act, S(0), S(0)
        self.rew, self.alive = h.reader("reward", 1), h.reader("alive", 1)
        self.ca = self; self.rules = None
    def reset(self): note_attr(self, "resets"); self.resets = wrap(A.canon_int(R.add(unwrap(self.resets), 1)))
    def to_device(self, d): pass
    def eval(self): pass
    def set_params(self, p): self.rule_ok = self.h.equals(p, (self.D,), self.rule, "the rule evaluated is the agent's")
    def step(self, a):
        h = self.h; k = unwrap(self.k)
        h.equals(a, (self.D,), self.act, "the pattern evaluated is the agent's")
        note_attr(self, "k"); self.k = wrap(A.canon_int(R.add(k, 1)))
        sc = lambda f: A.mk("torch", (), lambda i: f((R.z(k),)), "float32")
        return None, sc(self.rew), True, {"active_grid": sc(self.alive)}
for cls in ("CMAES", "CMACES"):
    @contract("C18", f"{cls}.get_fitness", [f"yuca.cmaes.{cls}.get_fitness"])
    def _(h, cls=cls):
        o = object.__new__(getattr(cm(), cls)); o.my_device = "cpu"
        P, D = h.int("P", 1), h.int("D", 1); n, m, a = h.int("steps", 1), h.int("replicates", 1), h.int("agent", 0)
        h.assume(a < P)
        x, y = h.ndarray("params", (P, D)), h.ndarray("rules", (P, D)); xr, yr = x.reader(), y.reader()
        def agent(k):
            g = object.__new__(Agent); g.p = x[wrap(k)]
            if cls == "CMACES": g.get_action = lambda: (y[wrap(k)], x[wrap(k)])
            return g
        o.population = VList.sym(P.r, agent)
        o.env = e = Rewards(h, lambda i: xr((a.r, i[0]))); e.D = D; e.rule = lambda i: yr((a.r, i[0]))
        fit, alive = h.call("get_fitness", o.get_fitness, a, steps=n, replicates=m, seed=h.int("seed"))
        def mean(f): return [R.div(R.div(t, R.to_real(n.r)), R.to_real(m.r)) for t in h.sums((m, n), lambda i: f((R.add(R.mul(i[0], n.r), i[1]),)))]
        h.eq_forms(fit, mean(e.rew), "the fitness is the mean reward over the replicates")
        h.eq_forms(alive, mean(e.alive), "the active proportion is the mean over the replicates")
        h.eq(e.resets, m, "the environment is reset once per replicate")
        h.eq(e.k, wrap(R.mul(m.r, n.r)), "every replicate runs the given number of steps")
class Maker(Agent):
    """agents of the search: those made from the parameters of the automaton, or from nothing but the settings"""
    def __init__(self, params=None, ca_params=None, **kw):
        h = Maker.h
        self.kw = kw; self.given = ca_params
        v = h.reader("fresh_params", 1)
        self.p = np_().array(params) if params is not None else A.mk("numpy", (Maker.D.r,), v, "float64")
class Wrapped:
    """environment of a new search: an automaton with parameters and channels of its own"""
    def __init__(self, **kw):
        h = Maker.h; self.kw = kw; self.ca = self
        self.external_channels = h.int("E", 1); self.q = h.ndarray("ca_params", (h.int("Q", 1),))
    def get_params(self): return self.q.copy()
SETTINGS = ("workers", "replicates", "generations", "selection_mode", "dim", "ca_steps", "batch_size", "prediction_mode", "population_size")
@contract("C18", "a new search selects an eighth of its population plus one", ["yuca.cmaes.CMAES.__init__"])
def _(h):
    Maker.D = h.int("D", 2); Maker.h = h; P = h.int("population_size", 1); mode = h.int("selection_mode", 0); rep = h.int("replicates", 1)
    o = h.call("constructor", cm().CMAES, env_fn=Wrapped, agent_fn=Maker, population_size=P, selection_mode=mode, replicates=rep)
    h.eq(o.population_size, P, "the population has the configured size")
    h.eq(o.elite_keep, wrap(A.canon_int(R.add(R.idiv(P.r, 8), 1))), "a generation selects an eighth of the population plus one")
    h.eq(o.selection_mode, mode, "the selection mode is the configured one"); h.eq(o.replicates, rep, "the number of replicates is the configured one")
