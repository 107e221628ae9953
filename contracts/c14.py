"""C14: automaton parameters survive a get/set round trip"""
from .common import *
from .c10 import ker
from .c12 import bell, clip01, clip11, lin
from .c17 import check_conv
from pyvc import core as C
PRELOAD = list(FAMILIES.values()) + ["yuca.kernels", "yuca.activations"]
def act(): return mod("yuca.activations")
class Fns:
    """a list of n real update functions of one kind whose parameters are rows of one arbitrary table"""
    def __init__(self, h, kind, n, name, size=None):
        self.h, self.kind, self.n, self.size = h, kind, unwrap(n), size
        self.c = size if size is not None else {"Gaussian": 2, "DoGaussian": 2, "DoubleGaussian": 4, "Identity": 0, "GaussianMixture": 4, "GaussianMixture3": 4}[kind]
        T = torch(); self.tab = h.tensor(name, (wrap(self.n), wrap(self.c)) if R.is_sym(self.c) or self.c != 0 else (1, 1))
        def par(k, a, b=None): return T.Parameter(self.tab[wrap(k)][a:b] if b is not None else self.tab[wrap(k)][a], requires_grad=False)
        def one(k):
            A_ = act()
            if kind == "Identity": return A_.Identity()
            if kind in ("Gaussian", "DoGaussian", "DoubleGaussian"):
                w = 2 if kind == "DoubleGaussian" else 1
                f = getattr(A_, kind)(mu=T.tensor([Fraction(0)]), sigma=T.tensor([Fraction(1)]), mode=1)
                f.mu = par(k, 0, w); f.sigma = par(k, w, 2 * w)
                return f
            if kind == "Polynomial":
                f = A_.Polynomial(mode=1); q = par(k, 0, wrap(self.c)); f.coefficients = q; f.coef = q
                return f
            # two components, zero-dimensional parameters; with or without amplitudes
            amps = kind.endswith("3")
            f = A_.GaussianMixture(mode=1, parameters=[Fraction(1, 2), Fraction(1, 2)] * 2 if not amps else [Fraction(1, 2)] * 6)
            for i, g in enumerate(f.gaussians):
                m, s = par(k, 2 * i), par(k, 2 * i + 1)
                g.mu, g.sigma = m, s
                o = i * (3 if amps else 2)
                setattr(f, f"mu_{o}", m); setattr(f, f"sigma_{o}", s)
            return f
        def item(k):
            f = one(k); object.__setattr__(f, "__vc_item__", True); return f
        self.list = VList.sym(self.n, item) if R.is_sym(self.n) else VList([one(k) for k in range(self.n)])
    def total(self): return R.mul(self.n, unwrap(self.c))
    def value(self, row, x):
        """documented value of a function with parameters row(i)"""
        k = self.kind
        if k == "Identity": return x
        if k == "Gaussian": return lin(bell(x, row(0), row(1)))
        if k == "DoGaussian":
            d = Fraction(1, 100)
            return lin(R.sub(bell(R.add(x, d), row(0), row(1)), bell(R.sub(x, d), row(0), row(1))))
        if k == "DoubleGaussian": return clip11(lin(R.add(bell(x, row(0), row(2)), bell(x, row(1), row(3)))))
        if k == "Polynomial": return lin(N.sum_(unwrap(self.c), lambda i: R.mul(row(i), R.pow_(x, i))))
        a = Fraction(1, 2) if k.endswith("3") else Fraction(1)
        return clip11(lin(R.add(R.mul(a, bell(x, row(0), row(1))), R.mul(a, bell(x, row(2), row(3))))))
def glaber(h, fam, gk, pk, I, peaks=2, E=1, md="one"):
    ca = family(fam)(kernel_radius=1, kernel_peaks=peaks)
    ca.external_channels, ca.internal_channels = E, I
    ca.initialize_id_layer(); ca.initialize_weight_layer()
    return ca
def exact(h, got, want, n, name): h.equals(got, (wrap(n),), lambda i: want(i), name)
def roundtrip(fam, gk, pk, count, peaks="2"):
    def f(h):
        T = torch()
        I = h.int("channels", 1) if count is None else count
        ca = glaber(h, fam, gk, pk, I)
        for n in list(ca._parameters): del ca._parameters[n]
        deg = lambda nm, k: h.int(nm, 1).r if k == "Polynomial" else None
        G = Fns(h, gk, I, "G0", deg("gdeg", gk)); P = Fns(h, pk, I, "P0", deg("pdeg", pk))
        ca.genesis_fns, ca.persistence_fns = G.list, P.list
        r = h.int("radius", 1); ca.kernel_radius = r
        q = h.int("peaks", 1); nk = (q * 3).r
        ca.kernel_params = h.ndarray("kp0", (wrap(nk),))
        lenia = fam == "Lenia"
        gt, pt = A.canon_int(G.total()), A.canon_int(P.total())
        tot = gt if lenia else A.canon_int(R.add(R.add(gt, pt), nk))
        v = h.ndarray("v", (wrap(tot),)); vr = v.reader()
        want = lambda i: vr(i)
        if lenia: before = P.tab.reader()
        h.call("set_params", ca.set_params, v)
        exact(h, h.call("get_params", ca.get_params), want, tot, "the vector read back is the vector set")
        v[:] = 0
        exact(h, h.call("get_params", ca.get_params), want, tot, "and does not change with the caller's array")
        # the automaton behaves according to the vector: every update function and the kernel
        B, Hh, W = h.int("B", 1), h.int("H", 1), h.int("W", 1)
        x = h.tensor("x", (B, I, Hh, W)); xr = x.reader()
        for F, fn, off in ((G, "genesis", 0), (P, "persistence", gt)):
            if F is P and lenia: continue
            row = h.tensor("row" + fn, F.tab._shape).reader()
            if F.kind != "Identity": h.equals(F.tab, (I, wrap(F.c)), lambda i: vr((R.add(R.add(off, R.mul(i[0], unwrap(F.c))), i[1]),)), f"the parameters of the {fn} functions are their part of the vector")
            # every function of the list, for arbitrary parameters (that genesis and persistence apply the k-th function to the k-th channel is C02)
            k = h.int("k" + fn, 0); h.assume(R.lt(k.r, unwrap(I)))
            F.tab.st.set(row)
            out = h.call("update function", getattr(ca, fn + "_fns")[k], x)
            h.equals(out, (B, I, Hh, W), lambda i: F.value(lambda o: row((k.r, o)), xr(i)), f"every {fn} function uses its parameters")
        if not lenia:
            kv = h.const_array("numpy", (nk,), lambda i: vr((R.add(R.add(gt, pt), i[0]),)), "float64")
            k = ker().get_gaussian_mixture_kernel(radius=r, parameters=kv); kr = k.reader()
            check_conv(h, ca, 1, unwrap(I), "one", lambda c, p, s: kr((0, 0, p, s)), r.r, A.canon_int(R.add(R.mul(2, r.r), 1)), "the kernel follows the vector")
    return f
KINDS = ("Gaussian", "DoGaussian", "DoubleGaussian", "Polynomial", "GaussianMixture", "GaussianMixture3", "Identity")
for i, g in enumerate(KINDS):
    p = KINDS[(i + 2) % len(KINDS)]
    contract("C14", f"CCA, {g} / {p}", ["CCA.set_params", "CCA.get_params", "CCA.get_genesis_params", "CCA.get_persistence_params"], time_limit=200)(roundtrip("CCA", g, p, None))
contract("C14", f"Lenia, Gaussian", ["Lenia.set_params", "Lenia.get_params"], time_limit=200)(roundtrip("Lenia", "Gaussian", "Gaussian", None))
def own(I, peaks, config):
    def f(h):
        """reading the parameters of a freshly built automaton and setting them again leaves functions and kernel as they were"""
        T = torch()
        r = h.int("radius", 1)
        ca = h.call("constructor", family("CCA"), internal_channels=I, kernel_radius=r, kernel_peaks=peaks)
        if config is not None:
            n = h.int("components", 1)
            kp = h.ndarray("kp", (wrap(A.canon_int(R.mul(3, n.r))),))
            h.call("load_config", ca.load_config, {"neighborhood_kernel_config": {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": kp}},
                "genesis_config": {"name": "Gaussian", "parameters": [Fraction(1, 2), Fraction(1, 10)], "mode": 1},
                "persistence_config": {"name": "DoGaussian", "parameters": [Fraction(1, 4), Fraction(1, 10)], "mode": 1}})
        keep = lambda t: (t._shape, t.reader())
        state = lambda: [keep(ca.neighborhood_layer.weight)] + [keep(p) for g in list(ca.genesis_fns) + list(ca.persistence_fns) for _, p in g.named_parameters()]
        before = state()
        p = h.call("get_params", ca.get_params); pr = p.reader(); n = p._shape[0]
        h.call("set_params", ca.set_params, p)
        objs = [ca.neighborhood_layer.weight] + [q for g in list(ca.genesis_fns) + list(ca.persistence_fns) for _, q in g.named_parameters()]
        h.ensure(wrap(len(objs) == len(before)), "as many parameters as before")
        for (sh, rd), o, i in zip(before, objs, range(99)):
            h.equals(o, sh, rd, "the kernel is what it was" if i == 0 else "every function parameter is what it was")
        h.equals(h.call("get_params", ca.get_params), (wrap(n),), pr, "the parameters are what they were")
    return f
for I in (1, 2):
    contract("C14", f"own parameters, {I} channel(s), default functions", ["CCA.default_init", "CCA.set_params", "CCA.get_params"], bounded="1 or 2 internal channels, 3 kernel components")(own(I, 3, None))
contract("C14", "own parameters, Gaussian mixture configuration", ["CCA.load_config", "CCA.set_params", "CCA.get_params"])(own(1, 3, True))
def nca(act_, E, with_kernel):
    def f(h):
        T = torch()
        ca = family("NCA")(kernel_radius=1, activation=act_)
        E_ = h.int("E", 1) if E is None else E
        ca.hidden_channels = Hd = h.int("hidden", 1)
        NCAState(h, ca, E_, h.int("I", 1)); ca.eval()
        I = ca.internal_channels
        r = h.int("radius", 1); ca.kernel_radius = r
        params = [p for _, p in ca.weights_layer.named_parameters()]
        sizes = []
        for p in params:
            n = Fraction(1)
            n = 1
            for d in p._shape: n = R.mul(n, unwrap(d))
            sizes.append(A.canon_int(n))
        nk = 0
        if with_kernel:
            q = h.int("peaks", 1); nk = (q * 3).r; ca.kernel_params = h.ndarray("kp0", (wrap(nk),))
        else: ca.kernel_params = None
        tot = nk
        for s in sizes: tot = R.add(tot, s)
        tot = A.canon_int(tot)
        v = h.ndarray("v", (wrap(tot),)); vr = v.reader()
        h.call("set_params", ca.set_params, v)
        off = 0
        for p, s in zip([p for _, p in ca.weights_layer.named_parameters()], sizes):
            sh = p._shape
            def want(i, off=off, sh=sh):
                k = 0
                for a, d in zip(i, sh): k = R.add(R.mul(k, unwrap(d)), a)
                return vr((A.canon_int(R.add(off, k)),))
            h.equals(p, sh, want, "network parameters are their part of the vector")
            off = R.add(off, s)
        h.equals(h.call("get_params", ca.get_params), (wrap(tot),), lambda i: vr(i), "the vector read back is the vector set")
        v[:] = 0
        h.equals(h.call("get_params", ca.get_params), (wrap(tot),), lambda i: vr(i), "and does not change with the caller's array")
        if with_kernel:
            kv = h.const_array("numpy", (nk,), lambda i: vr((R.add(off, i[0]),)), "float64")
            k = ker().get_gaussian_mixture_kernel(radius=r, parameters=kv); kr = k.reader()
            md = {1: "one"}.get(E)
            if md: check_conv(h, ca, 1, unwrap(I), md, lambda c, p, s: kr((0, 0, p, s)), r.r, A.canon_int(R.add(R.mul(2, r.r), 1)), "the kernel follows the vector")
    return f
for a_ in ("Gaussian", "Tanh"):
    for e in (1, None):
        contract("C14", f"NCA, {a_}, {'one channel' if e == 1 else 'any channels'}", ["NCA.set_params", "NCA.get_params"], time_limit=200)(nca(a_, e, True))
contract("C14", "NCA without kernel parameters", ["NCA.set_params", "NCA.get_params"])(nca("Tanh", None, False))
def gs(included):
    def f(h):
        st = RDState(h); ca = st.ca; T = torch()
        if included: h.call("include_parameters", ca.include_parameters)
        v = h.ndarray("v", (4,)); vr = v.reader()
        h.call("set_params", ca.set_params, v)
        h.equals(h.call("get_params", ca.get_params), (4,), lambda i: vr(i), "the vector read back is the vector set")
        v[:] = 0
        h.equals(h.call("get_params", ca.get_params), (4,), lambda i: vr(i), "and does not change with the caller's array")
        for i, n in enumerate(("diffusion_u", "diffusion_v", "f", "k")):
            h.ensure(wrap(R.eq(unwrap(getattr(ca, n)), vr((i,)))), f"parameter {i} is {n}")
    return f
for inc in (False, True):
    contract("C14", f"Gray-Scott{', parameters registered' if inc else ''}", ["RxnDfn.set_params", "RxnDfn.get_params"])(gs(inc))
for fam_ in ("CODE", "RandomStepCA", "MetaCA"):
    contract("C14", f"{fam_}, Gaussian / DoGaussian", ["CCA.set_params", "CCA.get_params"], time_limit=200)(roundtrip(fam_, "Gaussian", "DoGaussian", None))
def mixed(kinds):
    def f(h):
        """functions of different kinds side by side"""
        ca = glaber(h, "CCA", None, None, len(kinds))
        for n in list(ca._parameters): del ca._parameters[n]
        one = [Fns(h, k, 1, f"T{i}", h.int(f"d{i}", 1).r if k == "Polynomial" else None) for i, k in enumerate(kinds + kinds[::-1])]
        n = len(kinds)
        ca.genesis_fns = VList([F.list[0] for F in one[:n]]); ca.persistence_fns = VList([F.list[0] for F in one[n:]])
        q = h.int("peaks", 1); nk = (q * 3).r; ca.kernel_radius = h.int("radius", 1)
        ca.kernel_params = h.ndarray("kp0", (wrap(nk),))
        tot = nk
        for F in one: tot = R.add(tot, F.total())
        tot = A.canon_int(tot)
        v = h.ndarray("v", (wrap(tot),)); vr = v.reader()
        h.call("set_params", ca.set_params, v)
        h.equals(h.call("get_params", ca.get_params), (wrap(tot),), lambda i: vr(i), "the vector read back is the vector set")
        off = 0
        for F in one:
            if F.kind == "Identity": continue
            h.equals(F.tab, (1, wrap(F.c)), lambda i: vr((R.add(off, i[1]),)), "parameters of every function are their part of the vector")
            off = R.add(off, F.total())
    return f
contract("C14", "CCA, three different functions", ["CCA.set_params", "CCA.get_params"], bounded="three channels", time_limit=200)(mixed(["Gaussian", "Polynomial", "DoubleGaussian"]))
contract("C14", "CCA, two different functions", ["CCA.set_params", "CCA.get_params"], bounded="two channels", time_limit=200)(mixed(["Identity", "GaussianMixture"]))
