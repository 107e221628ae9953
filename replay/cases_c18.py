"""C18, C19, C20: the real search code with real agents; only the evaluation of a pattern (the environment), the pictures, the log file and the
communicator are replaced. Log files and configurations are not written."""
import numpy as np, torch, threading, queue, time, tempfile, shutil, os
from rt import *
import yuca.cmaes as Y
from yuca.params_agent import ParamsAgent
Y.save_fig_sequence = lambda *a, **k: None
class CA:
    def __init__(self): self.set, self.saved, self.my_device = [], [], "cpu"
    external_channels = 1
    def no_grad(self): pass
    def to_device(self, d): pass
    def set_params(self, p): self.set.append(np.array(p, dtype=float).ravel().copy())
    def get_params(self): return np.zeros(3)
    def save_config(self, p): self.saved.append(p)
    def make_config(self): return {}
class Env:
    """reward of a step: a fixed function of the pattern, the rule and the number of steps since the reset"""
    def __init__(self, noise=0.): self.ca, self.t, self.resets, self.ca_steps, self.noise = CA(), 0, 0, 2, noise
    def reset(self): self.t = 0; self.resets += 1
    def to_device(self, d): pass
    def eval(self): pass
    def train(self): pass
    def value(self, p, rule, t): return float(np.sin(np.sum(p * np.arange(1, len(p) + 1)) + 0.7 * t + np.sum(rule)))
    def step(self, a):
        p = np.asarray(a, dtype=float).ravel(); rule = self.ca.set[-1] if self.ca.set and self.two else np.zeros(1)
        r = self.value(p, rule, self.t) + self.noise * float(np.random.rand()); self.t += 1
        return None, T([r], torch.float64)[0], True, {"active_grid": T([abs(r)], torch.float64)[0]}
    two = False
def search(c, rng, cls=None):
    o = object.__new__(cls or Y.CMAES)
    o.workers, o.tag, o.my_seed, o.dim, o.ca_steps = 0, c.get("tag", ""), [c.get("my_seed", 3)], 8, 2
    o.population_size = c["P"]; o.elite_keep = c["P"] // 8 + 1; o.elitism = 1; o.replicates = c.get("replicates", 1)
    o.generations, o.selection_mode, o.prediction_mode = c.get("generations", 1), c.get("mode", 0), 0
    o.env = Env(c.get("noise", 0.)); o.my_device = "cpu"; o.agent_fn = ParamsAgent; o.kwargs = {}; o.external_channels = 1
    D = c["D"]; o.starting_means = rng.normal(0, 1, D); B = rng.normal(0, 1, (D, D)); o.starting_covar = B @ B.T + np.eye(D) * .1
    o.save_gif = lambda *a, **k: None
    o.exp_id = "exp_" + o.tag; o.elite_params = None; o.generation = 0
    return o
def ready(c, rng):
    o = search(c, rng); P, D = c["P"], c["D"]
    x = rng.normal(0, 2, (P, D))
    o.population = [ParamsAgent(params=x[k].copy()) for k in range(P)]
    o.means = rng.normal(0, 1, D); B = rng.normal(0, 1, (D, D)); o.covar = B @ B.T + np.eye(D) * .1
    fit = [float(v) for v in (rng.randint(0, 4, P) if c["ties"] else rng.permutation(P))]
    return o, x, fit
class Draws:
    """records every multivariate draw, with its arguments"""
    def __init__(self, plain=False): self.plain = plain
    def __enter__(self):
        self.old = np.random.multivariate_normal; self.log = []
        if self.plain:         # LAPACK is not used from several threads at once
            np.random.multivariate_normal = lambda m, cv: m + np.random.normal(0, 1, len(m)); return self
        def f(m, cv, *a, **k):
            v = self.old(m, cv, *a, **k); self.log.append((np.array(m), np.array(cv), np.array(v))); return v
        np.random.multivariate_normal = f
        return self
    def __exit__(self, *a): np.random.multivariate_normal = self.old
def index_of(x, v, msg):
    j = [k for k in range(len(x)) if np.array_equal(x[k], v)]
    need(len(j) >= 1, msg); return j[0]
def picks(o, x, fit, c):
    n = o.elite_keep
    need(o.elite_params.shape == (n, c["D"]), f"selected vectors: shape {o.elite_params.shape}")
    return [index_of(x, o.elite_params[k], "a selected vector is no member of the population") for k in range(n)]
def check_dist(o, x, s, m0):
    n = len(s); sel = x[s]
    close(o.means, sel.mean(0), "the mean of the new distribution", 1e-9)
    close(o.covar, (sel - m0).T @ (sel - m0) / n, "the covariance of the new distribution", 1e-9)
def ranked(s, fit, distinct=True):
    best = sorted(fit, reverse=True)
    need([fit[k] for k in s] == best[:len(s)], f"selected fitness {[fit[k] for k in s]} instead of {best[:len(s)]}")
    need(not distinct or len(set(s)) == len(s), "a member is selected twice")
def c_select(c):
    rng = np.random.RandomState(c["seed"]); o, x, fit = ready(c, rng); m0 = o.means.copy(); f0 = list(fit)
    brackets, lots = [], []
    ri, ch = np.random.randint, np.random.choice
    def randint(*a, **k): v = ri(*a, **k); brackets.append(np.array(v)); return v
    def choice(a, *r, **k):
        v = ch(a, *r, **k)
        if c["mode"] == 2: lots.append((list(a), k, list(v)))
        else: brackets.append(np.array(v))
        return v
    try:
        np.random.randint, np.random.choice = randint, choice
        with Draws() as dr, quiet(): o.update_population(fit)
    finally: np.random.randint, np.random.choice = ri, ch
    need(fit == f0, "the fitness values are changed")
    s = picks(o, x, fit, c); n = o.elite_keep
    check_dist(o, x, s, m0)
    if c["mode"] == 0: ranked(s, fit)
    if c["mode"] == 1:
        need(len(brackets) == n and all(len(b) == n and b.min() >= 0 and b.max() < c["P"] for b in brackets), "brackets of as many members as are selected")
        for k in range(n): need(s[k] in list(brackets[k]) and fit[s[k]] == max(fit[i] for i in brackets[k]), "a selected agent is not the fittest of its bracket")
    if c["mode"] == 2:
        need(len(lots) == 1 and lots[0][2] == s, "one lottery selects the agents")
        a, k, _ = lots[0]; ranked(a, fit)
        w = 1 / np.arange(1, c["P"] + 1) ** 2.; close(k["p"], w / w.sum(), "chances", 1e-9)
        need(k.get("replace") is False and len(set(s)) == n, "drawn without replacement")
    lead = n // 2
    need(len(o.population) == c["P"], f"population of {len(o.population)}")
    need(len(dr.log) == c["P"] - lead, f"{len(dr.log)} draws")
    for k, a in enumerate(o.population):
        v = a.get_params()
        need(v.shape == (c["D"],), f"agent {k}: parameters of shape {v.shape}")
        if k < lead: need(np.array_equal(v, x[s[k]]), f"agent {k} does not carry the selected vector")
        else:
            m, cv, d = dr.log[k - lead]
            need(np.array_equal(v, d), f"agent {k} is not the fresh draw"); close(m, o.means, "mean of the draw", 1e-9); close(cv, o.covar, "covariance of the draw", 1e-9)
def c_bracket(c):
    """with the fittest agent anywhere in the population, some bracket holds it sooner or later"""
    rng = np.random.RandomState(c["seed"]); P = c["P"]; a = int(rng.choice([0, P - 1, rng.randint(P)]))
    np.random.seed(c["seed"] % 2 ** 31); won, n = 0, P // 8 + 1
    for _ in range(int(40 / min(1.0, n * n / P)) + 1):
        o, x, _ = ready(dict(c, mode=1, D=2), rng); fit = [float(v) for v in rng.permutation(P)]; fit[a] = P + 1.
        with quiet(): o.update_population(fit)
        won += any(np.array_equal(e, x[a]) for e in o.elite_params)
        if won: break
    need(won, f"agent {a} of {P} is never drawn into a bracket")
def c_rank(c):
    rng = np.random.RandomState(c["seed"]); o, x, fit = ready(c, rng); m0 = o.means.copy()
    o.tag = c["tag"]
    with quiet(): o.rank_population(fit, seed=5)
    s = picks(o, x, fit, c); ranked(s, fit); check_dist(o, x, s, m0)
    for k, a in enumerate(o.population): need(np.array_equal(a.get_params(), x[k]), f"ranking changes agent {k}")
    if c["tag"]: need(o.env.ca.set == [], "a pattern search changes the rule")
    else: need(len(o.env.ca.set) == 1 and np.array_equal(o.env.ca.set[0], x[s[0]]), "the saved rule is not the fittest agent's")
    need(len(o.env.ca.saved) == 1, "one configuration is saved")
def c_fitness(c):
    rng = np.random.RandomState(c["seed"]); o, x, fit = ready(c, rng)
    a = int(rng.randint(c["P"])); st, rp = c["steps"], c["replicates"]
    rule = np.zeros(1)
    if c["two"]:
        o.__class__ = Y.CMACES; o.env.two = True; rules = rng.normal(0, 1, (c["P"], 2)); rule = rules[a]
        for k, g in enumerate(o.population): g.get_action = (lambda k: lambda: (rules[k], x[k]))(k)
    with quiet(): f, al = o.get_fitness(a, steps=st, replicates=rp, seed=4)
    want = [o.env.value(x[a], rule, t) for t in range(st)]
    close(f, np.mean(want), "fitness", 1e-6); close(al, np.mean(np.abs(want)), "active proportion", 1e-6)
    need(o.env.resets == rp, "one reset per replicate")
def c_reset(c):
    rng = np.random.RandomState(c["seed"]); o = search(c, rng); D = c["D"]; n = 0
    if c["elites"]: n = o.elite_keep; o.elite_params = rng.normal(0, 1, (n, D))
    m0, c0 = o.starting_means.copy(), o.starting_covar.copy()
    with Draws() as dr, quiet(): o.reset()
    need(len(o.population) == c["P"] and len(dr.log) == c["P"] - n, f"{len(o.population)} agents, {len(dr.log)} draws")
    for k, a in enumerate(o.population):
        want = o.elite_params[k] if k < n else dr.log[k - n][2]
        need(a.get_params().shape == (D,) and np.array_equal(a.get_params(), want), f"agent {k} does not carry its vector")
    for m, cv, _ in dr.log: need(np.array_equal(m, m0) and np.array_equal(cv, c0), "draws from the starting distribution")
    need(np.array_equal(o.means, m0) and np.array_equal(o.covar, c0), "the search starts at the starting distribution")
class Rule(Env):
    """environment of a new search: an automaton with parameters"""
    def __init__(self, **kw): Env.__init__(self); self.kw = kw
def c_new(c):
    """a new search, from scratch or from the log of an earlier one"""
    rng = np.random.RandomState(c["seed"]); P, D = c["P"], 3 if c["fit"] else 4
    d = tempfile.mkdtemp()
    try:
        kw = dict(population_size=P, seed=c["my_seed"], generations=3, replicates=2, workers=0, selection_mode=1, dim=8, ca_steps=5, tag=c["tag"], env_fn=Rule)
        if c["tag"]: kw["agent_fn"] = lambda **k: ParamsAgent(**dict({"params": np.arange(1.0, 4.0)}, **k))
        saved = None
        if c["log"]:
            n = P // 8 + 1 + c["more"]
            gens = [rng.normal(0, 1, (n, D)) for _ in range(3)]; saved = gens[-1]
            kw["input_filepath"] = os.path.join(d, "log.npy"); np.save(kw["input_filepath"], {"elite_params": gens})
        with quiet(): o = Y.CMAES(**kw)
        n = P // 8 + 1
        need(o.elite_keep == n, f"{o.elite_keep} vectors are selected from a population of {P}")
        need(o.population_size == P and o.my_seed == [c["my_seed"]] and o.generations == 3 and o.replicates == 2 and o.selection_mode == 1, "settings")
        start = np.arange(1.0, 4.0) if c["tag"] else np.zeros(3)
        if saved is not None and D == 3:
            need(o.elite_params is not None and np.array_equal(o.elite_params, saved[:n]), "the search does not start from the saved vectors")
            close(o.starting_means, saved[:n].mean(0), "starting mean", 1e-9)
        else:
            need(o.elite_params is None, "vectors of another length are carried over")
            close(o.starting_means, start, "starting mean", 1e-9)
        cv = np.array(o.starting_covar); need(cv.shape == (3, 3) and np.array_equal(cv, np.diag(np.diag(cv))) and np.diag(cv).min() > 0, "starting covariance")
        with quiet(): o.reset()
        need(len(o.population) == P, f"{len(o.population)} agents")
        if saved is not None and D == 3:
            for k in range(n): need(np.array_equal(o.population[k].get_params(), saved[k]), f"agent {k} is not the saved vector")
    finally: shutil.rmtree(d, ignore_errors=True)
class Log:
    """the log file of a search, in memory"""
    def __enter__(self):
        self.old = np.save; self.got = []
        def save(path, d, *a, **k):
            self.got = [(np.array(e).copy()) for e in d["elite_params"]]; self.mean = list(d["mean_fitness"]); self.max = list(d["max_fitness"])
        np.save = save; return self
    def __exit__(self, *a): np.save = self.old
def watch(o, gens, my_seed):
    """checks every generation of a search as it happens"""
    log = []
    gf, up, rk = o.get_fitness, o.update_population, o.rank_population
    def get_fitness(j, **k):
        r = gf(j, **k); log.append((j, k.get("seed"), np.array(o.population[j].get_params()).copy(), r[0])); return r
    def end(kind, f):
        def g(fitness, *a, **k):
            need(len(fitness) == o.population_size, f"{len(fitness)} fitness values for {o.population_size} agents")
            cur = [np.array(q.get_params()).copy() for q in o.population]
            o.hist.append((kind, list(fitness), cur))
            return f(fitness, *a, **k)
        return g
    o.hist, o.evals = [], log
    o.get_fitness, o.update_population, o.rank_population = get_fitness, end("update", up), end("rank", rk)
def check_run(o, c):
    kinds = [k for k, _, _ in o.hist]
    need(kinds[-1:] == ["rank"] and "rank" not in kinds[:-1], f"generations end with {kinds}")
    need(len(kinds) == c["generations"] or 7 < len(kinds) <= c["generations"], f"{len(kinds)} generations")
    for g, (kind, fit, cur) in enumerate(o.hist):
        need(len(cur) == c["P"], f"generation {g}: {len(cur)} agents")
        for k in range(c["P"]): close(fit[k], o.env.value(cur[k], np.zeros(1), 0), f"generation {g}: the fitness at place {k} is not that of agent {k}", 1e-6)
def c_run(c):
    rng = np.random.RandomState(c["seed"]); o = search(c, rng); P = c["P"]
    watch(o, c["generations"], c["my_seed"])
    with Log() as lg, Draws() as dr, quiet(): o.mantle()
    check_run(o, c)
    need(len(o.evals) == P * len(o.hist), f"{len(o.evals)} evaluations")
    for g in range(len(o.hist)):
        for k, (j, sd, p, r) in enumerate(o.evals[g * P:(g + 1) * P]):
            need(j == k and sd == g * c["my_seed"], f"generation {g}: evaluation {k} is of agent {j} with seed {sd}")
            need(np.array_equal(p, o.hist[g][2][k]), f"generation {g}: agent {k} is evaluated with other parameters")
    _, fit, cur = o.hist[-1]
    need(len(o.population) == P, f"the search ends with {len(o.population)} agents")
    s = [index_of(np.array(cur), v, "a saved vector is no member of the last generation") for v in o.elite_params]
    ranked(s, fit, False)
    close(lg.max[-1], max(fit), "logged fitness", 1e-9)
    n = o.elite_keep; n0 = P
    need(len(dr.log) == n0 + (len(o.hist) - 1) * (P - n // 2), f"{len(dr.log)} vectors are drawn")
class Comm:
    """in-memory communicator: one mailbox per ordered pair of processes"""
    def __init__(self, boxes, me, W, log): self.boxes, self.me, self.W, self.log = boxes, me, W, log
    def send(self, obj, dest):
        if self.me == 0: self.log.append((dest, obj))
        self.boxes[self.me, dest].put(obj)
    def recv(self, source=-1):
        if source >= 0: return self.boxes[source, self.me].get(timeout=10)
        for _ in range(1000):       # from anybody: the last worker that has answered
            time.sleep(0.01)
            for j in reversed(range(self.W)):
                if not self.boxes[j, self.me].empty(): return self.boxes[j, self.me].get()
        raise queue.Empty
    def Get_rank(self): return self.me
    def Get_size(self): return self.W
class Per:
    """module globals comm/rank/num_worker, seen per thread"""
    def __init__(self): self.t = threading.local()
def c_mpi(c):
    rng = np.random.RandomState(c["seed"]); W, P = c["W"], c["P"]; boxes = {(a, b): queue.Queue() for a in range(W) for b in range(W)}; log = []
    local = threading.local()
    class Proxy:
        def __getattr__(self, n): return getattr(local.comm, n)
    class Rank:
        def __eq__(self, o): return local.comm.me == o
        def __str__(self): return str(local.comm.me)
        def __format__(self, f): return str(local.comm.me)
    old = (Y.comm, getattr(Y, "rank", None), getattr(Y, "num_worker", None))
    Y.comm, Y.rank, Y.num_worker = Proxy(), Rank(), W
    threading.stack_size(1 << 26); arms, answers, errs = [], {}, []
    def arm(k):
        local.comm = Comm(boxes, k, W, log)
        try:
            o = search(c, np.random.RandomState(c["seed"])); o.workers = W; got = answers.setdefault(k, [])
            gf = o.get_fitness
            def get_fitness(j, **kw): got.append((int(j), kw.get("seed"), np.array(o.population[j].get_params()).copy())); return gf(j, **kw)
            o.get_fitness = get_fitness
            o.arm()
        except BaseException as e: errs.append(e)
    o = search(c, rng); o.workers = W
    watch(o, c["generations"], c["my_seed"])
    th = [threading.Thread(target=arm, args=(k,), daemon=True) for k in range(1, W)]
    try:
        with quiet(), Log(), Draws(plain=True):
            for t in th: t.start()
            local.comm = Comm(boxes, 0, W, log); o.mantle()
            for t in th: t.join(10)
    except queue.Empty: raise Fail("the coordinator waits for a result that nobody sends") if not errs else errs[0]
    finally: Y.comm, Y.rank, Y.num_worker = old
    if errs: raise errs[0] if not isinstance(errs[0], queue.Empty) else Fail("a worker waits for a message that nobody sends")
    need(not any(t.is_alive() for t in th), "a worker is not told to stop")
    G = len(o.hist); b = W - 1; check_run(o, c)
    need(len(log) == b * G + b, f"{len(log)} messages")
    for g in range(G):
        jobs = log[g * b:(g + 1) * b]; need(sorted(d for d, _ in jobs) == list(range(1, W)), "one job per worker and generation")
        jobs.sort(key=lambda j: j[0]); idx = [int(i) for _, (_, ix, _) in jobs for i in ix]
        need(idx == list(range(P)), f"the slices cover {idx}")
        n = [len(ix) for _, (_, ix, _) in jobs]; need(max(n) - min(n) <= 1, f"slice sizes {n}")
        need(all(sd == g * c["my_seed"] for _, (_, _, sd) in jobs), "seed of a job")
    need(sorted(d for d, m in log[b * G:]) == list(range(1, W)) and all(m[0] == 0 for _, m in log[b * G:]), "one termination message per worker")
    need(all(q.empty() for q in boxes.values()), "messages nobody reads")
    for k in range(1, W):
        at = 0
        for g in range(G):
            jobs = dict(log[g * b:(g + 1) * b]); ps, ix, sd = jobs[k]
            for i in ix:
                need(at < len(answers[k]), f"worker {k} leaves agents out"); j, s, p = answers[k][at]; at += 1
                need(j == i and s == sd and np.array_equal(p, o.hist[g][2][i]), f"generation {g}: worker {k} does not evaluate agent {i} with its parameters and the seed of its job")
        need(at == len(answers[k]), f"worker {k} evaluates more than its jobs")
CASES = {"C18": {"select": c_select, "rank": c_rank, "fitness": c_fitness, "run": c_run, "bracket": c_bracket, "new": c_new},
         "C19": {"new": c_new, "select": c_select, "rank": c_rank, "reset": c_reset, "run": c_run}, "C20": {"mpi": c_mpi}}
def cases(prop, s):
    rng = np.random.RandomState(s); i = 0
    while True:
        i += 1
        P = int(rng.choice([1, 2, 5, 7, 8, 9, 16, 17, 24, 31, 40])); base = dict(seed=int(rng.randint(2 ** 31)), P=P, D=int(rng.randint(2, 6)), ties=bool(rng.randint(2)), my_seed=int(rng.randint(1, 9)))
        if prop == "C20":
            W = int(rng.randint(2, 7)); yield dict(base, kind="mpi", W=W, P=int(rng.choice([1, 2, 3, 5, 6, 7, 8, 12, 13, 16])), generations=int(rng.randint(1, 3)), noise=0.); continue
        for mode in (0, 1, 2): yield dict(base, kind="select", mode=mode)
        yield dict(base, kind="rank", tag=["", "pattern"][i % 2])
        if prop == "C18" and i % 2: yield dict(base, kind="new", log=False, fit=True, more=0, tag="")
        if prop == "C18" and i % 2: yield dict(base, kind="bracket")
        if prop == "C18": yield dict(base, kind="fitness", steps=int(rng.randint(1, 4)), replicates=int(rng.randint(1, 4)), two=bool(rng.randint(2)))
        else:
            yield dict(base, kind="reset", elites=bool(rng.randint(2)))
            yield dict(base, kind="new", log=bool(rng.randint(3)), fit=bool(rng.randint(4)), more=int(rng.randint(3)), tag=["", "pattern"][rng.randint(2)])
        if i % 5 == 1: yield dict(base, kind="run", generations=int(rng.choice([1, 2, 3, 9])), mode=int(rng.randint(3)))
