import numpy as np, torch
from rt import *
import yuca.activations as Act
import yuca.kernels as K
def V(rng, n): return rng.uniform(0.05, 0.95, n).astype(np.float32).astype(np.float64)
def update_fn(rng, kind):
    t = lambda n: torch.tensor(rng.uniform(.1, .9, n).tolist())
    if kind == "Identity": return Act.Identity()
    if kind in ("Gaussian", "DoGaussian"): return getattr(Act, kind)(mu=t(1), sigma=t(1), mode=1)
    if kind == "DoubleGaussian": return Act.DoubleGaussian(mu=t(2), sigma=t(2), mode=1)
    if kind == "Polynomial": return Act.Polynomial(coefficients=t(int(rng.randint(1, 6))), mode=1)
    return Act.GaussianMixture(parameters=rng.uniform(.1, .9, 2 * 2 if kind == "GaussianMixture" else 3 * int(rng.randint(1, 3))).tolist(), mode=1)
KIND = ["Gaussian", "DoGaussian", "DoubleGaussian", "Polynomial", "Identity", "GaussianMixture", "GaussianMixture3"]
def make(c, rng):
    """an automaton of the requested structure; two calls with equal generators give equal structures"""
    f = c["fam"]
    with quiet():
        if f == "RxnDfn":
            ca = cls(f)()
            ca.load_config({"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": 1, "kernel_kwargs": {"sigma": 0.5}}, "params": np.array([2e-5, 1e-5, .03, .06])}) if c["registered"] else None
            if not c["registered"]:
                ca.add_neighborhood_kernel(torch.tensor([[[[.05, .2, .05], [.2, -1., .2], [.05, .2, .05]]]])); ca.initialize_neighborhood_layer()
            return ca
        kw = dict(external_channels=c["E"], internal_channels=c["I"], kernel_radius=c["rk"], kernel_peaks=c["peaks"])
        if f == "NCA":
            ca = cls(f)(activation=c["act"], hidden_channels=c["hidden"], **kw); ca.eval(); return ca
        ca = cls(f)(**kw)
        if not c["default"]:
            for n in list(ca._parameters): del ca._parameters[n]
            ca.genesis_fns = [update_fn(rng, str(rng.choice(KIND))) for _ in range(c["I"])]
            ca.persistence_fns = [update_fn(rng, str(rng.choice(KIND))) for _ in range(c["I"])]
            ca.include_parameters()
    return ca
def grid_of(c, rng): return T(grid(rng, c["B"], 2 if c["fam"] == "RxnDfn" else c["E"], max(c["H"], c["rk"]), max(c["W"], c["rk"]), c["grid"]))
def c_round(c):
    rng = np.random.RandomState(c["seed"])
    st = rng.randint(2 ** 31)
    ca, cb = make(c, np.random.RandomState(st)), make(c, np.random.RandomState(st))
    n = len(ca.get_params())
    if c["default"]:
        with quiet(): cb.genesis_fns, cb.persistence_fns = ca.genesis_fns, ca.persistence_fns
        # setting an automaton's own parameters changes nothing
        u = grid_of(c, rng); a = N(ca(u)); p = np.array(ca.get_params())
        with quiet(): ca.set_params(np.array(p))
        close(ca.get_params(), p, "parameters after setting an automaton's own parameters", 1e-6)
        close(ca(u), a, "step after setting an automaton's own parameters", 1e-4)
        return
    v = V(rng, n); given = v.copy()
    with quiet(): ca.set_params(given)
    same(given, v, "the caller's vector")
    close(ca.get_params(), v, "parameters read back", 1e-6)
    given[:] = -7.0
    close(ca.get_params(), v, "parameters read back after the caller reuses its array", 1e-6)
    out = np.array(ca.get_params()); out2 = ca.get_params(); out2[:] = 5.0
    close(ca.get_params(), v, "parameters after the caller edits the vector it was given", 1e-6)
    # the layout
    if c["fam"] == "RxnDfn":
        for i, a in enumerate(("diffusion_u", "diffusion_v", "f", "k")): close(getattr(ca, a), v[i], f"parameter {i} is {a}", 1e-6)
    elif c["fam"] == "NCA":
        o = 0
        for _, p in ca.weights_layer.named_parameters(): m = p.numel(); close(p.reshape(-1), v[o:o + m], "network weights", 1e-6); o += m
        if ca.kernel_params is not None: close(ca.kernel_params, v[o:], "kernel parameters", 1e-6)
    else:
        o = 0
        for f in list(ca.genesis_fns) + ([] if c["fam"] == "Lenia" else list(ca.persistence_fns)):
            for _, p in f.named_parameters():
                m = p.numel(); close(p.reshape(-1), v[o:o + m], f"parameters of {type(f).__name__}", 1e-6); o += m
        if c["fam"] != "Lenia": close(ca.kernel_params, v[o:], "kernel parameters", 1e-6)
    if c["fam"] in ("CCA", "CODE", "NCA", "MetaCA", "RandomStepCA"):
        k = K.get_gaussian_mixture_kernel(radius=ca.kernel_radius, parameters=v[len(v) - len(ca.kernel_params):])
        close(ca.neighborhood_layer.weight[:1], k.reshape(ca.neighborhood_layer.weight[:1].shape), "kernel in use", 1e-5)
    # a second automaton of the same structure with another history behaves the same
    with quiet():
        cb.set_params(V(rng, n)); cb.set_params(v.copy())
        for p, q in zip(ca.id_layer.parameters(), cb.id_layer.parameters()): need(torch.equal(p, q), "identity kernels")
        if c["fam"] == "Lenia": cb.add_neighborhood_kernel(ca.neighborhood_kernels); cb.initialize_neighborhood_layer()
        if c.get("hand") and c["fam"] in ("CCA", "CODE", "NCA"):
            # a kernel installed by hand gives way to that of the parameters
            m = 2 * cb.kernel_radius + 1
            cb.add_neighborhood_kernel(torch.tensor(rng.uniform(0, 1 / m ** 2, (m, m)).tolist())); cb.initialize_neighborhood_layer()
            cb.set_params(v.copy())
        if c["fam"] == "RandomStepCA": return
        if c["fam"] == "MetaCA": return
        u = grid_of(c, rng)
        for t in range(2): close(ca(u), cb(u), "two automata with equal parameters", 1e-4)
def cases(prop, seed):
    rng = np.random.RandomState(seed)
    fams = ["CCA", "Lenia", "NCA", "RxnDfn", "CODE", "RandomStepCA", "MetaCA", "CCA"]
    while True:
        f = fams[rng.randint(len(fams))]; I = int(rng.choice([1, 2, 3, 4]))
        yield dict(kind="round", seed=int(rng.randint(2 ** 31)), fam=f, E=int(rng.choice([1, 1, I])), I=I, rk=int(rng.choice([1, 2, 3])), peaks=int(rng.choice([1, 2, 3])), act=str(rng.choice(["Gaussian", "Tanh", "ReLU"])), hidden=int(rng.choice([1, 3, 8])),
            default=bool(rng.rand() < .25 and f in ("CCA", "NCA", "Lenia")), registered=bool(rng.rand() < .5), hand=bool(rng.rand() < .4), B=int(rng.choice([1, 2])), H=int(rng.choice([3, 5, 8])), W=int(rng.choice([3, 5, 8])), grid="random")
CASES = {"C14": {"round": c_round}}
