"""C17: installing a kernel makes it exactly the neighborhood convolution"""
from .common import *
from .c10 import ker
PRELOAD = list(FAMILIES.values()) + ["yuca.kernels"]
def automaton(h, fam, mode):
    if fam == "RxnDfn": return family("RxnDfn")(), 2, 2, "same"
    kw = {"kernel_radius": 1, "kernel_peaks": 1}
    if fam == "NCA": kw["hidden_channels"] = h.int("hidden", 1)
    ca = family(fam)(**kw)
    E, I, md = channels(h, mode)
    ca.external_channels, ca.internal_channels = E, I
    return ca, unwrap(E), unwrap(I), md
def conv_spec(u, w, E, md, side, rk, H, W, pad="circular"):
    """reader of the correlation of u with w(k, p, q), offset zero, in the boundary mode"""
    H, W = unwrap(H), unwrap(W)
    def at(b, c, y, x):
        if pad == "circular": return u((b, c, R.wrap(y, H), R.wrap(x, W)))
        return R.ite(R.and_(R.ge(y, 0), R.lt(y, H), R.ge(x, 0), R.lt(x, W)), u((b, c, y, x)), Fraction(0))
    def f(i):
        b, k, y, x = i
        one = lambda c: N.sum_(side, lambda p: N.sum_(side, lambda q: R.mul(w(k, p, q), at(b, c, R.sub(R.add(y, p), rk), R.sub(R.add(x, q), rk)))))
        if isinstance(md, str): return N.sum_(E, one) if md == "mixed" else one(0) if md == "one" else one(k)
        return one(A.smart_divmod(k, md)[0])
    return f
def data(h, E, rk):
    B, Hh, W = h.int("B", 1), h.int("H", 1), h.int("W", 1)
    h.assume(Hh >= wrap(rk)); h.assume(W >= wrap(rk))
    return h.tensor("u", (B, wrap(E), Hh, W)), B, Hh, W
def check_conv(h, ca, E, I, md, w, rk, side, name, pad="circular"):
    u, B, Hh, W = data(h, E, rk)
    out = h.call("neighborhood_conv", ca.neighborhood_conv, u)
    h.equals(out, (B, I, Hh, W), conv_spec(u.reader(), w, E, md, side, rk, Hh, W, pad), name)
FORMS = {"2-D": 2, "3-D": 3, "4-D": 4, "stack": 0}
def kernel_of(h, form, lib, I, side, dtype):
    sh = {"2-D": (side, side), "3-D": (1, side, side), "4-D": (1, 1, side, side), "stack": (I, 1, side, side)}[form]
    k = (h.tensor if lib == "torch" else h.ndarray)("kernel", sh, dtype=dtype)
    kr = k.reader()
    return k, (lambda c, p, q: kr((c, 0, p, q) if form == "stack" else (0,) * (len(sh) - 2) + (p, q)))
def install(fam, form, lib, mode, pad, dtype="float64"):
    def f(h):
        ca, E, I, md = automaton(h, fam, mode)
        if pad != "circular": ca.conv_mode = pad
        rk = h.int("rk", 0).r; side = A.canon_int(R.add(R.mul(2, rk), 1))
        k, w = kernel_of(h, form, lib, I, side, dtype)
        h.call("add_neighborhood_kernel", ca.add_neighborhood_kernel, k)
        # the caller's array is changed afterwards: the automaton must not notice, before or after the layer is built
        k[:] = 0
        h.call("initialize_neighborhood_layer", ca.initialize_neighborhood_layer)
        k[:] = 1
        check_conv(h, ca, E, I, md, w, rk, side, "correlation with the kernel given", pad)
    return f
def reject(fam, form):
    def f(h):
        ca, E, I, md = automaton(h, fam, "one")
        a, b = h.int("rows", 1), h.int("cols", 1); h.assume(a != b)
        sh = {"2-D": (a, b), "4-D": (1, 1, a, b)}[form]
        h.raises("a non-square kernel is rejected", AssertionError, ca.add_neighborhood_kernel, h.tensor("kernel", sh))
    return f
def cfg(name, r, h):
    kw = {"Gaussian": lambda: {"mu": h.real("mu"), "sigma": h.real("sigma")}, "MooreLike": lambda: {}, "DoGaussian": lambda: {"mu": h.real("mu"), "sigma": h.real("sigma"), "dx": h.real("dx")},
          "LaplacianOfGaussian": lambda: {"sigma": h.real("sigma")}}[name]()
    return {"name": name, "radius": r, "kernel_kwargs": kw}
def configured(fam, name, mode, how):
    """set_kernel_radius and set_kernel_config install the kernel of the configuration at the new radius"""
    def f(h):
        ca, E, I, md = automaton(h, fam, mode)
        r, r0 = h.int("radius", 1), h.int("old_radius", 1)
        if how == "radius":
            ca.neighborhood_kernel_config = cfg(name, r0, h)
            h.call("set_kernel_radius", ca.set_kernel_radius, r)
        else:
            c = cfg(name, r, h)
            h.call("set_kernel_config", ca.set_kernel_config, c)
        h.eq(ca.kernel_radius, r, "recorded radius")
        h.eq(h.call("get_kernel_radius", ca.get_kernel_radius), r, "get_kernel_radius")
        h.eq(ca.neighborhood_kernel_config["radius"], r, "radius of the recorded configuration")
        k = ker().get_kernel(cfg(name, r, h)); kr = k.reader()
        side = A.canon_int(R.add(R.mul(2, r.r), 1))
        check_conv(h, ca, E, I, md, lambda c, p, q: kr((0, 0, p, q)), r.r, side, "correlation with the configured kernel at the new radius")
    return f
Q = ["CA.add_neighborhood_kernel", "CA.initialize_neighborhood_layer", "CA.neighborhood_conv"]
def reg(name, fn, f): contract("C17", name, fn, time_limit=200)(f)
for fam in ("CCA", "NCA"):
    for form in FORMS:
        for lib, dt in (("torch", "float32"), ("numpy", "float64")):
            for mode in MODES if lib == "torch" else ("multiple",):
                reg(f"{fam}: {lib} {form} kernel [{mode}]", Q, install(fam, form, lib, mode, "circular", dt))
    for form in ("2-D", "4-D"): reg(f"{fam}: non-square {form} kernel", Q[:1], reject(fam, form))
    for mode in MODES: reg(f"{fam}: zero padding [{mode}]", Q, install(fam, "stack", "torch", mode, "zeros"))
reg("RxnDfn: 4-D kernel", Q, install("RxnDfn", "4-D", "torch", None, "circular", "float32"))
reg("RxnDfn: non-square kernel", Q[:1], reject("RxnDfn", "4-D"))
for fam in ("CCA", "Lenia", "NCA", "RxnDfn"):
    for name in ("LaplacianOfGaussian",) if fam == "RxnDfn" else ("Gaussian", "MooreLike", "DoGaussian"):
        for mode in (None,) if fam == "RxnDfn" else MODES if name == "Gaussian" else ("one",) if name == "MooreLike" else ("multiple",):
            reg(f"{fam}.set_kernel_radius, {name}" + (f" [{mode}]" if mode else ""), ["CA.set_kernel_radius", "get_kernel"] + Q, configured(fam, name, mode, "radius"))
            reg(f"{fam}.set_kernel_config, {name}" + (f" [{mode}]" if mode else ""), [f"{fam}.set_kernel_config", "CA.set_kernel_radius", "get_kernel"] + Q, configured(fam, name, mode, "config"))
