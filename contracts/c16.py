"""C16: saving and restoring a configuration preserves the automaton"""
from .common import *
from .c10 import ker
from .c12 import bell
PRELOAD = list(FAMILIES.values()) + ["yuca.kernels", "yuca.activations"]
def cp(): return mod("yuca.ca.continuous")
def kernel_cfg(h, name, tag=""):
    """an arbitrary configuration of the named kernel"""
    r = h.int("radius" + tag, 1); q = lambda n: h.real(n + tag)
    c = {"name": name.split("/")[0], "radius": r}
    if name == "GaussianMixture": n = h.int("peaks" + tag, 1); c["kernel_kwargs"] = {"parameters": h.ndarray("kp" + tag, (wrap(A.canon_int(R.mul(3, n.r))),))}
    elif name == "GaussianMixture/pairs":
        c["kernel_kwargs"] = {"parameters": h.ndarray("kp" + tag, (4,))}
    elif name == "Gaussian": c["kernel_kwargs"] = {"mu": q("kmu"), "sigma": q("ksg")}
    elif name == "DoGaussian": c["kernel_kwargs"] = {"mu": q("kmu"), "sigma": q("ksg"), "dx": q("kdx")}
    elif name == "CosOverX2": c["kernel_kwargs"] = {"mu": q("kmu"), "omega": q("kom")}
    elif name == "SmoothLifeKernel": c["kernel_kwargs"] = {"r_a": q("ra"), "r_i": q("ri")}
    elif name == "LaplacianOfGaussian": sg = q("ksg"); h.assume(sg != 0); c["kernel_kwargs"] = {"sigma": sg}
    elif name == "defaults": c = {"name": "Gaussian", "radius": r, "kernel_kwargs": {}}
    return c
def fn_cfg(h, name, tag):
    """an arbitrary configuration of the named update function"""
    T = torch(); q = lambda n: h.real(n + tag)
    c = {"name": name.split("/")[0]}
    if name in ("Gaussian", "DoGaussian"): c.update(mu=q("mu"), sigma=q("sigma"), mode=1)
    if name == "Gaussian/tensor": c.update(mu=h.tensor("mu" + tag, (1,)), sigma=h.tensor("sigma" + tag, (1,)), mode=0)
    if name == "DoGaussian": c["dx"] = q("dx")
    if name == "DoubleGaussian": c.update(mu=h.tensor("mu" + tag, (2,)), sigma=h.tensor("sigma" + tag, (2,)), mode=1)
    if name == "Polynomial": c.update(coefficients=h.tensor("coef" + tag, (h.int("degree" + tag, 1),)), mode=1)
    if name == "SmoothIntervals": c.update(parameters=h.tensor("iv" + tag, (h.int("intervals" + tag, 1), 2)), alpha=q("alpha"), mode=1)
    if name.startswith("GaussianMixture"):
        n = {"GaussianMixture": 2, "GaussianMixture/2": 4, "GaussianMixture/1a": 3, "GaussianMixture/2a": 6, "GaussianMixture/3": 6}[name]
        c.update(parameters=h.tensor("mix" + tag, (n,)), mode=1)
    return c
FNS = ("Gaussian", "DoGaussian", "DoubleGaussian", "Polynomial", "SmoothIntervals", "GaussianMixture", "GaussianMixture/2", "GaussianMixture/1a", "GaussianMixture/2a", "Identity", "ReLU", "Tanh", "Gaussian/tensor")
KERNELS = ("Gaussian", "GaussianMixture", "GaussianMixture/pairs", "DoGaussian", "CosOverX2", "SmoothLifeKernel", "LaplacianOfGaussian", "MooreLike", "defaults")
def layers_equal(h, a, b):
    for n, what in (("neighborhood_layer", "neighborhood kernel"), ("id_layer", "identity kernel")):
        la, lb = getattr(a, n), getattr(b, n)
        h.equals(lb.weight, la.weight._shape, la.weight.reader(), f"same {what}")
        for k in ("in_channels", "out_channels", "groups", "padding", "padding_mode", "dilation", "stride"):
            h.ensure(wrap(same(getattr(lb, k), getattr(la, k))), f"{what}: same {k}")
def same(x, y):
    if isinstance(x, (tuple, list)): return len(x) == len(y) and R.and_(*[same(p, q) for p, q in zip(x, y)])
    if isinstance(x, str) or isinstance(y, str): return x == y
    return R.eq(unwrap(x), unwrap(y))
def twin(h, a, b, fam, forward=False):
    """b behaves as a does"""
    h.eq(b.kernel_radius, a.kernel_radius, "same radius")
    h.ensure(wrap(same(b.conv_mode, a.conv_mode)), "same boundary mode")
    for n in ("external_channels", "internal_channels"): h.eq(getattr(b, n), getattr(a, n), "same " + n.replace("_", " "))
    for n in ("dt",) + (("dx", "diffusion_u", "diffusion_v", "f", "k") if fam == "RxnDfn" else ("alive_threshold",)):
        x = getattr(a, n); y = getattr(b, n)
        h.ensure(wrap(R.eq(value(y), value(x))), f"same {n}")
    layers_equal(h, a, b)
    if fam != "RxnDfn":
        wa, wb = [p for _, p in a.weights_layer.named_parameters()], [p for _, p in b.weights_layer.named_parameters()]
        h.ensure(len(wa) == len(wb), "as many weight layers")
        for p, q in zip(wa, wb): h.equals(q, p._shape, p.reader(), "same weights")
    if fam not in ("RxnDfn", "NCA", "many"):
        B, Hh, W = h.int("B", 1), h.int("H", 1), h.int("W", 1)
        x = h.tensor("x", (B, 1, Hh, W))
        for kind in ("genesis", "persistence"):
            fa, fb = getattr(a, kind + "_fns"), getattr(b, kind + "_fns")
            h.ensure(len(fa) == len(fb), f"as many {kind} functions")
            for f, g in zip(fa, fb):
                want = h.call("original function", f, x)
                h.equals(h.call("restored function", g, x), want._shape, want.reader(), f"same {kind} function")
    if forward:
        E = a.external_channels
        u, B, Hh, W = grid(h, None, E)
        h.assume(Hh >= a.kernel_radius); h.assume(W >= a.kernel_radius)
        want = h.call("original step", a, u); got = h.call("restored step", b, u)
        h.equals(got, want._shape, want.reader(), "same step")
def value(t):
    t = unwrap(t)
    return t.reader()((0,) * len(t._shape)) if hasattr(t, "reader") else t
def base(h, fam, **kw):
    """another automaton, with a state of its own (built without random update functions: they are replaced)"""
    if fam == "RxnDfn": return family(fam)()
    if fam == "NCA": return family(fam)(**kw)
    a = family(fam)(ca_mode="given", **kw)
    a.ca_mode = "functional"; a.initialize_weight_layer()
    del a.instant_kwargs["ca_mode"]
    return a
def through(h, a, fam, how="load", name=None):
    b = base(h, fam) if fam == "RxnDfn" else base(h, fam, kernel_radius=2, kernel_peaks=2, **({"hidden_channels": 3} if fam == "NCA" else {}))
    if how == "load": h.call("load_config", b.load_config, h.call("make_config", a.make_config))
    else:
        h.call("save_config", a.save_config, "saved/config.npy")
        h.call("restore_config", b.restore_config, "saved/config.npy")
    return b
def loaded(h, fam, kernel, gen, per, ident=None, ctor=None, dt=True):
    a = base(h, fam, kernel_radius=1, kernel_peaks=1, **(ctor or {}))
    c = {"neighborhood_kernel_config": kernel_cfg(h, kernel), "genesis_config": fn_cfg(h, gen, "g"), "persistence_config": fn_cfg(h, per, "p")}
    if ident: c["identity_kernel_config"] = kernel_cfg(h, ident, "id")
    if dt: c["dt"] = h.real("dt")
    h.call("load_config", a.load_config, c)
    return a
def rt(name, fam, build, fns, how="load", forward=False, bounded=None):
    def f(h):
        a = build(h)
        b = through(h, a, fam, how)
        twin(h, a, b, fam, forward)
    contract("C16", name, fns, time_limit=200, bounded=bounded)(f)
Q = ["CCA.make_config", "CCA.get_fn_config", "CCA.load_config"]
for i, g in enumerate(FNS):
    p = FNS[(i + 2) % len(FNS)]
    rt(f"CCA, {g} / {p}", "CCA", lambda h, g=g, p=p: loaded(h, "CCA", "Gaussian", g, p), Q)
for k in KERNELS: rt(f"CCA, {k} kernel", "CCA", lambda h, k=k: loaded(h, "CCA", k, "Gaussian", "DoGaussian"), Q)
rt("CCA, identity kernel", "CCA", lambda h: loaded(h, "CCA", "MooreLike", "Gaussian", "DoGaussian", ident="SmoothLifeKernel"), Q)
rt("CCA, zero padding", "CCA", lambda h: loaded(h, "CCA", "Gaussian", "Gaussian", "DoGaussian", ctor={"conv_mode": "zeros", "alive_threshold": h.real("thr")}), Q)
rt("CCA, default step size", "CCA", lambda h: loaded(h, "CCA", "Gaussian", "Gaussian", "DoGaussian", dt=False), Q)
rt("CCA, equal steps", "CCA", lambda h: loaded(h, "CCA", "Gaussian", "Gaussian", "Gaussian"), Q + ["CCA.forward"], forward=True)
rt("CCA, through a file", "CCA", lambda h: loaded(h, "CCA", "Gaussian", "GaussianMixture", "SmoothIntervals"), Q + ["CCA.save_config", "CCA.restore_config"], how="file")
rt("Lenia", "Lenia", lambda h: loaded(h, "Lenia", "Gaussian", "GaussianMixture", "Gaussian"), Q)
rt("CCA with its defaults", "CCA", lambda h: family("CCA")(kernel_radius=h.int("r", 1), kernel_peaks=2), Q + ["CCA.default_init"], bounded="1 channel, 2 kernel components")
# histories: whatever was done to the automaton since
def after(fam, op, kernel="Gaussian"):
    def build(h):
        a = loaded(h, fam, kernel, "Gaussian", "DoGaussian") if fam != "NCA" else nca_loaded(h, kernel)
        if op == "set_dt": h.call("set_dt", a.set_dt, h.real("newdt"))
        elif op == "set_kernel_radius": h.call("set_kernel_radius", a.set_kernel_radius, h.int("newradius", 1))
        elif op.startswith("set_kernel_config"): h.call("set_kernel_config", a.set_kernel_config, kernel_cfg(h, op.split()[1], "new"))
        elif op == "set_params":
            p = a.get_params(); h.call("set_params", a.set_params, h.ndarray("v", p._shape))
        elif op == "step":
            u, B, Hh, W = grid(h, None, 1); h.assume(Hh >= a.kernel_radius); h.assume(W >= a.kernel_radius)
            h.call("forward", a, u)
        elif op == "make_config": h.call("make_config", a.make_config)
        return a
    return build
OPS = ("set_dt", "set_kernel_radius", "set_kernel_config DoGaussian", "set_kernel_config MooreLike", "set_params", "step", "make_config")
for op in OPS:
    rt(f"CCA after {op}", "CCA", after("CCA", op), Q + ["CCA." + op.split()[0]])

# several channels: a list of functions of any length
class Summary:
    """default_init by its contract: it may leave any kernels, step size, kernel parameters and (here) no functions;
    load_config establishes all of these itself"""
    def __init__(self, h, cls): self.h, self.cls = h, cls
    def __enter__(self):
        h, cls = self.h, self.cls
        self.old = cls.default_init
        def default_init(ca):
            ca.genesis_fns, ca.persistence_fns = VList([]), VList([])
            ca.add_identity_kernel(); ca.initialize_id_layer()
            ca.kernel_params = h.ndarray("kp_any", (3,))
            ca.add_neighborhood_kernel(h.tensor("k_any", (1, 1, 3, 3))); ca.initialize_neighborhood_layer()
            ca.initialize_weight_layer(); ca.set_dt(h.real("dt_any"))
        cls.default_init = default_init
    def __exit__(self, *a): self.cls.default_init = self.old
def many(gk, pk, mode):
    from .c14 import Fns
    def f(h):
        cls = family("CCA")
        E, I, md = channels(h, mode)
        with Summary(h, cls):
            a = cls(kernel_radius=h.int("r", 1), internal_channels=I, external_channels=E)
            G, P = Fns(h, gk, I, "G", h.int("gd", 1).r if gk == "Polynomial" else None), Fns(h, pk, I, "P", h.int("pd", 1).r if pk == "Polynomial" else None)
            a.genesis_fns, a.persistence_fns = G.list, P.list
            h.call("set_kernel_config", a.set_kernel_config, kernel_cfg(h, "Gaussian", "k"))
            b = cls(kernel_radius=2)
            h.call("load_config", b.load_config, h.call("make_config", a.make_config))
        twin(h, a, b, "many")
        k = h.int("k", 0); h.assume(R.lt(k.r, unwrap(I)))
        x = h.tensor("x", (h.int("B", 1), 1, h.int("H", 1), h.int("W", 1)))
        for kind in ("genesis", "persistence"):
            fa, fb = getattr(a, kind + "_fns"), getattr(b, kind + "_fns")
            h.ensure(wrap(R.eq(unwrap(len_(fb)), unwrap(I))), f"one {kind} function for each channel")
            want = h.call("original function", fa[k], x)
            h.equals(h.call("restored function", fb[k], x), want._shape, want.reader(), f"same {kind} function")
    return f
def len_(l): return l.length() if hasattr(l, "length") else len(l)
for gk, pk, mode in (("Identity", "Gaussian", "one"), ("DoGaussian", "Identity", "mixed"), ("Identity", "DoubleGaussian", "multiple"), ("Polynomial", "Identity", "multiple"), ("Identity", "Polynomial", "mixed"), ("Gaussian", "Identity", "multiple")):
    contract("C16", f"any number of channels, {gk} / {pk} [{mode}]", Q, time_limit=200)(many(gk, pk, mode))
contract("C16", "any number of channels, Polynomial / Gaussian [mixed]", Q, time_limit=400, tier="thorough")(many("Polynomial", "Gaussian", "mixed"))
# channels with functions of different kinds
def sides(kinds, ext=1):
    def build(h):
        n = len(kinds)
        a = base(h, "CCA", kernel_radius=1, kernel_peaks=1)
        c = {"neighborhood_kernel_config": kernel_cfg(h, "Gaussian"), "dt": h.real("dt"),
             "genesis_config": [fn_cfg(h, k, f"g{i}") for i, k in enumerate(kinds)], "persistence_config": [fn_cfg(h, k, f"p{i}") for i, k in enumerate(kinds[::-1])]}
        cls = family("CCA")
        a.internal_channels = n; a.external_channels = ext
        h.call("load_config", a.load_config, c)
        h.ensure(len(a.genesis_fns) == n and len(a.persistence_fns) == n, "one function for each channel")
        return a
    return build
def sides_rt(kinds, ext):
    def f(h):
        with Summary(h, family("CCA")):
            a = sides(kinds, ext)(h)
            b = through(h, a, "CCA")
            twin(h, a, b, "CCA")
    contract("C16", f"functions side by side: {', '.join(kinds)} [{ext}]", Q, time_limit=200, bounded="2 or 3 channels")(f)
for kinds, ext in ((("Gaussian", "GaussianMixture/2a"), 1), (("SmoothIntervals", "Polynomial"), 2), (("DoGaussian", "Identity", "GaussianMixture"), 3), (("Tanh", "DoubleGaussian", "SmoothIntervals"), 1)): sides_rt(kinds, ext)
# ownership: configurations, automata and the caller's objects are separate
def scribble(h, x, seen=None):
    """overwrite everything reachable from a configuration"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, tuple)) or hasattr(x[k], "st"): scribble(h, x[k])
            else: x[k] = None
        x["name"] = "scribbled"; x["scribbled"] = True
    elif isinstance(x, list):
        for v in x: scribble(h, v)
        x.append("scribbled")
    elif hasattr(x, "st") and x.st.dtype not in ("int64", "bool"): x[...] = Fraction(77) if len(x._shape) else Fraction(77)
def frozen(h, a, fam):
    """the automaton as it is now, as a reader of each component"""
    keep = lambda t: (t._shape, t.reader())
    out = {n: keep(getattr(a, n).weight) for n in ("neighborhood_layer", "id_layer")}
    if fam != "RxnDfn":
        for i, (_, p) in enumerate(a.weights_layer.named_parameters()): out[f"weights {i}"] = keep(p)
    for kind in ("genesis_fns", "persistence_fns"):
        for i, f in enumerate(getattr(a, kind, ())):
            for j, (_, p) in enumerate(f.named_parameters()): out[f"{kind} {i} {j}"] = keep(p)
            if hasattr(f, "intervals"): out[f"{kind} {i} intervals"] = keep(f.intervals)
            if hasattr(f, "amplitudes"): out[f"{kind} {i} amplitudes"] = keep(f.amplitudes)
    out["dt"] = value(a.dt)
    out["radius"], out["mode"] = a.kernel_radius, a.conv_mode
    if fam != "RxnDfn": out["threshold"] = a.alive_threshold
    else: out.update({n: value(getattr(a, n)) for n in ("dx", "f", "k", "diffusion_u", "diffusion_v")})
    return out
def unmoved(h, a, fam, before, what):
    now = frozen(h, a, fam)
    h.ensure(wrap(list(now) == list(before)), f"{what}: same components")
    for n, v in before.items():
        if isinstance(v, tuple):
            lib = h.const_array("torch", now[n][0], lambda i, n=n: now[n][1](i), "float64")
            h.equals(lib, v[0], v[1], f"{what}: {n.split()[0]} unchanged")
        else: h.ensure(wrap(same(now[n], v)), f"{what}: {n} unchanged")
def automaton(h, fam, g, p):
    return nca_loaded(h, "GaussianMixture", peaks=1) if fam == "NCA" else rd_loaded(h) if fam == "RxnDfn" else loaded(h, fam, "Gaussian", g, p, ident="SmoothLifeKernel")
def reinstalled(h, a):
    """what the automaton would install again from its own record of the kernel"""
    k = ker().get_kernel(a.neighborhood_kernel_config)
    h.equals(k, a.neighborhood_kernels._shape if a.neighborhood_kernels._shape[0] == 1 else (1,) + tuple(a.neighborhood_kernels._shape[1:]), (lambda r: lambda i: r(i))(a.neighborhood_kernels.reader()), "the recorded kernel is the installed kernel")
def owned(fam, g="Gaussian", p="DoGaussian"):
    def f(h):
        a = automaton(h, fam, g, p)
        before = frozen(h, a, fam)
        cfg = h.call("make_config", a.make_config)
        unmoved(h, a, fam, before, "making a configuration")
        b, c = second(h, fam), second(h, fam)
        h.call("load_config", b.load_config, cfg)
        # the second automaton is changed in every way it can be
        h.call("set_kernel_radius", b.set_kernel_radius, h.int("r2", 1))
        v = b.get_params()
        h.call("set_params", b.set_params, h.ndarray("v2", v._shape))
        h.call("set_dt", b.set_dt, h.real("dt2"))
        unmoved(h, a, fam, before, "changing the restored automaton")
        # the configuration is still that of the first
        h.call("load_config", c.load_config, cfg)
        twin(h, a, c, fam)
        loaded_c = frozen(h, c, fam)
        scribble(h, cfg)
        unmoved(h, a, fam, before, "overwriting the configuration")
        unmoved(h, c, fam, loaded_c, "overwriting the configuration that was loaded")
        reinstalled(h, a); reinstalled(h, c)
        twin(h, a, through(h, a, fam), fam)
    contract("C16", f"{fam}: nothing is shared" + (f", {g} / {p}" if fam != "NCA" and fam != "RxnDfn" else ""), [f"{fam}.make_config", f"{fam}.load_config"], time_limit=300, max_paths=600)(f)
def second(h, fam):
    return base(h, fam) if fam == "RxnDfn" else base(h, fam, kernel_radius=2, kernel_peaks=2, **({"hidden_channels": 3} if fam == "NCA" else {}))
# neural automata
def nca_new(h, act="Gaussian", E=1, I=1, **kw):
    E, I = (h.int("E", 2) if E is None else E), (h.int("I", 1) if I is None else I)
    return family("NCA")(kernel_radius=1, kernel_peaks=2, hidden_channels=h.int("hidden", 1), activation=act, dropout_rate=h.real("dropout"), internal_channels=I, external_channels=E, **kw)
def nca_loaded(h, kernel, act="Gaussian", E=1, I=1, ident=None, dt=True, peaks=None, **kw):
    """an automaton with an arbitrary kernel of the kind and arbitrary network parameters"""
    a = nca_new(h, act, E, I, **kw)
    c = {"neighborhood_kernel_config": kernel_cfg(h, kernel)}
    if peaks: c["neighborhood_kernel_config"]["kernel_kwargs"]["parameters"] = h.ndarray("kp", (3 * peaks,))
    n = 0
    for _, q in a.weights_layer.named_parameters():
        m = 1
        for d in q._shape: m = R.mul(m, unwrap(d))
        n = R.add(n, m)
    for v in c["neighborhood_kernel_config"].get("kernel_kwargs", {}).values():
        n = R.add(n, unwrap(v._shape[0]) if hasattr(v, "_shape") else 1)
    c["params"] = h.ndarray("params", (wrap(A.canon_int(n)),))
    if ident: c["identity_kernel_config"] = kernel_cfg(h, ident, "id")
    if dt: c["dt"] = h.real("dt")
    h.call("load_config", a.load_config, c)
    return a
def eval_(a):
    a.eval(); return a
QN = ["NCA.make_config", "NCA.load_config"]
def nrt(name, build, how="load", **k): rt(f"NCA, {name}", "NCA", build, QN + (["NCA.save_config", "NCA.restore_config"] if how != "load" else []), how=how, **k)
for k in KERNELS: nrt(f"{k} kernel", lambda h, k=k: nca_loaded(h, k))
for a_ in ("Tanh", "ReLU", "SiLU", "ELU", "Sigmoid", "Identity"): nrt(f"{a_} activation", lambda h, a_=a_: nca_loaded(h, "GaussianMixture/pairs", a_))
nrt("identity kernel", lambda h: nca_loaded(h, "MooreLike", ident="SmoothLifeKernel"))
nrt("zero padding", lambda h: nca_loaded(h, "Gaussian", conv_mode="zeros", alive_threshold=h.real("thr")))
nrt("default step size", lambda h: nca_loaded(h, "Gaussian", dt=False))
nrt("through a file", lambda h: nca_loaded(h, "Gaussian"), how="file")
nrt("with its defaults", lambda h: nca_new(h))
for nm, E, I in (("one to many", 1, None), ("mixed", None, None)): nrt(f"channels {nm}", lambda h, E=E, I=I: nca_loaded(h, "Gaussian", E=E, I=I))
for op in OPS: nrt(f"after {op}", after("NCA", op))
owned("NCA")
for g, p in (("Gaussian", "DoGaussian"), ("DoubleGaussian", "Polynomial"), ("GaussianMixture/2a", "GaussianMixture"), ("SmoothIntervals", "Gaussian/tensor")): owned("CCA", g, p)
owned("Lenia", "GaussianMixture", "Gaussian")
# Gray-Scott
def rd_loaded(h):
    a = base(h, "RxnDfn")
    c = {"neighborhood_kernel_config": kernel_cfg(h, "LaplacianOfGaussian"), "params": h.ndarray("params", (4,))}
    for n in ("dt", "dx", "diffusion_u", "diffusion_v", "feed_rate", "decay_rate"): c[n] = h.real(n)
    h.assume(c["dx"] > 0)
    h.call("load_config", a.load_config, c)
    return a
def rd_state(h):
    a = RDState(h).ca
    h.call("set_kernel_config", a.set_kernel_config, kernel_cfg(h, "LaplacianOfGaussian"))
    return a
QR = ["RxnDfn.make_config", "RxnDfn.load_config"]
rt("Gray-Scott, loaded", "RxnDfn", rd_loaded, QR)
rt("Gray-Scott, any parameters", "RxnDfn", rd_state, QR, forward=True)
rt("Gray-Scott with its defaults", "RxnDfn", lambda h: base(h, "RxnDfn"), QR + ["RxnDfn.default_init"])
rt("Gray-Scott, through a file", "RxnDfn", rd_state, QR + ["RxnDfn.save_config", "RxnDfn.restore_config"], how="file")
def rd_after(op):
    def build(h):
        a = rd_loaded(h)
        if op == "set_params": h.call("set_params", a.set_params, h.ndarray("v", (4,)))
        elif op == "set_kernel_radius": h.call("set_kernel_radius", a.set_kernel_radius, h.int("r2", 1))
        else: h.call(op, getattr(a, op), h.real("new"))
        return a
    return build
for op in ("set_params", "set_kernel_radius", "set_dt", "set_dx", "set_diffusion_u", "set_diffusion_v"): rt(f"Gray-Scott after {op}", "RxnDfn", rd_after(op), QR + [f"RxnDfn.{op}"])
owned("RxnDfn")
