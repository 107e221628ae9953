"""C26: whatever was drawn before, the same seed gives the same results. Log files and pictures of a search are not written."""
import numpy as np, torch, types
from rt import *
import yuca.utils as U, yuca.cmaes as Y, yuca.cppn as P
from yuca.params_agent import ParamsAgent
import yuca.wrappers.halting_wrapper as W
Y.save_fig_sequence = lambda *a, **k: None
def parts(x, path="", seen=None):
    """everything numeric or textual that can be reached from x"""
    seen = set() if seen is None else seen
    if isinstance(x, (torch.Tensor, np.ndarray)):
        if isinstance(x, np.ndarray) and x.dtype == object: yield from parts(list(x.ravel()), path, seen); return
        yield path, N(x); return
    if x is None or isinstance(x, (str, bool, int, float, np.generic, torch.dtype, torch.device)): yield path, x; return
    if id(x) in seen or isinstance(x, (types.FunctionType, types.MethodType, types.ModuleType, type, torch.optim.Optimizer, torch.Generator)): return
    seen.add(id(x))
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("exp_id",): yield from parts(v, f"{path}.{k}", seen)
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x): yield from parts(v, f"{path}[{k}]", seen)
    elif hasattr(x, "__dict__"): yield from parts(vars(x), path, seen)
def equal(a, b, what):
    a, b = list(parts(a)), list(parts(b))
    need([p for p, _ in a] == [p for p, _ in b], f"{what}: the two results have different parts")
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray) or isinstance(x, (float, np.floating)): close(x, y, f"{what}{p} differs between two runs with the same seed", 1e-5)
        else: need(x == y or x is y, f"{what}{p} differs between two runs with the same seed: {x!r} and {y!r}")
def history(rng):
    """something random happens"""
    np.random.seed(rng.randint(2 ** 31)); torch.manual_seed(int(rng.randint(2 ** 31)))
    for _ in range(rng.randint(4)): np.random.rand(rng.randint(1, 5)); torch.rand(int(rng.randint(1, 5)))
    np.random.randn(rng.randint(1, 3)); [np.full(int(k), rng.rand()) for k in rng.randint(1, 400, 20)]; [torch.full((int(k),), float(rng.rand())) for k in rng.randint(1, 400, 20)]
def twice(c, op, what, seeded=True):
    rng = np.random.RandomState(c["seed"]); out = []
    for _ in range(2):
        history(rng)
        if seeded: U.seed_all(c["s"])
        with quiet(), torch.no_grad(): out.append(op())
    equal(out[0], out[1], what)
def automaton(c, **kw):
    return cls(c["fam"])(kernel_radius=c["rk"], kernel_peaks=c["peaks"], external_channels=c["E"], internal_channels=c["I"], hidden_channels=4, **kw)
def c_construct(c): twice(c, lambda: automaton(c), c["fam"])
def c_steps(c):
    def op():
        ca = automaton(c); u = torch.rand(2, ca.external_channels, 12, 13); out = []
        for _ in range(3): u = ca(u); out.append(u.clone())
        return [out, ca]
    twice(c, op, f"{c['fam']} and its steps")
def c_input(c):
    rng = np.random.RandomState(c["seed"] + 1); img = rng.rand(1, c["I"], 16, 16)
    twice(c, lambda: U.prep_input(img.copy(), batch_size=c["n"], external_channels=c["I"] + 1, noise_level=.3), "prep_input")
    twice(c, lambda: U.get_bite_mask(img.copy(), .4), "get_bite_mask")
def c_agent(c):
    def op():
        k = dict(external_channels=c["I"], hidden_dim=5, dim=8)
        a = [P.CPPN(**k), P.CPPNPlus(**k), ParamsAgent(num_params=c["n"])]
        return [a, [x.get_params() for x in a], [x.get_action() for x in a]]
    twice(c, op, "agents")
def search(c, which="SimpleHaltingWrapper", agent=ParamsAgent, two=None, tag=""):
    k = dict(env_fn=getattr(W, which), ca_fn=cls(c["fam"]), agent_fn=agent, kernel_radius=c["rk"], kernel_peaks=1, external_channels=1, internal_channels=c["I"], hidden_channels=4, ca_steps=2, batch_size=2, dim=16, population_size=c["n"], generations=c["generations"], seed=[c["s"]], my_seed=[c["s"]], num_blocks=1, tag=tag, replicates=1, selection_mode=c["mode"])
    o = (two or Y.CMAES)(**k)
    o.save_gif = lambda *a, **k: None
    o.my_seed = [c["s"], c["s"] + 1][:c["seeds"]]; o.generations = c["generations"]
    if hasattr(o.env, "train_steps"): o.env.train_steps = 1
    return o
def c_search(c):
    save, log = np.save, []
    np.save = lambda p, x, **k: "elite_params" in x and log.append([[list(map(np.array, x[n])) if n == "elite_params" else x[n] for n in ("elite_params", "mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness", "distribution")]])
    def op():
        log.clear(); o = search(c, c["which"])
        with torch.enable_grad(): o.mantle()
        return [list(log), [np.array(a.get_params()) for a in o.population], o.means, o.covar]
    try: twice(c, op, "a search")
    finally: np.save = save
def c_fitness(c):
    """evaluations seed themselves"""
    rng = np.random.RandomState(c["seed"] + 1)
    with quiet():
        seed(c["s"]); o = search(c, c["which"]); seed(c["s"]); o.reset()
    def op():
        with torch.enable_grad(): r = o.get_fitness(0, steps=1, replicates=2, seed=c["s"])
        return [float(r[0]), float(r[1])]
    twice(c, op, "fitness of an agent", seeded=False)
def cases(prop, seed):
    rng = np.random.RandomState(seed); ch = lambda l: l[rng.randint(len(l))]
    while True:
        kind = ch(["construct", "construct", "steps", "input", "agent", "search", "fitness"]); I = int(ch([1, 1, 2, 3]))
        f = ch(["CCA", "NCA", "Lenia", "CODE", "RandomStepCA", "MetaCA"] + (["RxnDfn"] if kind in ("construct", "steps") else []))
        if kind in ("search", "fitness"): f = ch(["CCA", "NCA", "MetaCA"]); I = 1
        if kind == "construct" and rng.rand() < .2: I = 9
        yield dict(kind=kind, seed=int(rng.randint(2 ** 31)), s=int(ch([0, 1, 13, int(rng.randint(1, 2 ** 31 - 10))])) if kind != "search" else int(rng.randint(1, 2 ** 20)), fam=f, rk=int(ch([1, 2, 3])), peaks=int(ch([1, 2, 3])), E=int(ch([1, I])) if f != "RxnDfn" else 2, I=I if f != "RxnDfn" else 2,
            n=int(ch([1, 2, 5, 9])), generations=int(ch([1, 2, 3])), mode=int(ch([0, 1, 2])), seeds=int(ch([1, 2])), which=ch(["SimpleHaltingWrapper", "SimpleHaltingWrapper", "HaltingWrapper"]))
CASES = {"C26": {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}}
