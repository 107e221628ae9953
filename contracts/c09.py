from .common import *
PRELOAD = list(FAMILIES.values())
def clip(r): return R.mx(Fraction(0), R.mn(Fraction(1), r))
def family_step(fam, few, frame=False):
    """the step of u is the step computed from the documented masked grid (the update of that grid by the real layers)"""
    def f(h):
        if few:
            E, I = h.int("E", 1, 3), h.int("I", 1)
        else: E, I = h.int("E", 4), h.int("I", 1)
        if fam == "NCA":
            ca = family("NCA")(hidden_channels=h.int("hidden", 1), kernel_radius=1, kernel_peaks=1)
            s = NCAState(h, ca, E, I); ca.eval()
        else: s = CAState(h, family(fam), E, I)
        ca = s.ca
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        ur = u.reader()
        if few: m = ur
        else: m = lambda i: R.ite(R.gt(ur((i[0], 3, i[2], i[3])), unwrap(s.thr)), ur(i), Fraction(0))
        mt = h.const_array("torch", (B, E, Hh, W), m, "float32")
        vel = None
        if fam == "CODE": ca.dt = h.real("dt")
        if fam == "MetaCA":
            v = h.tensor("velocity", (B, E, Hh, W)); ca.dgrid = v; vel = v.reader()
        snap = h.snapshot(u)
        call = ca.get_frame if frame else {"CODE": getattr(ca, "get_new_grid", None)}.get(fam) or ca.forward
        up = h.call("update of the masked grid", lambda: ca.update_universe(ca.id_conv(mt), ca.neighborhood_conv(mt))).reader()
        out = h.call("step", call, u)
        dt = h.value(ca.dt)
        if vel and not frame: want = lambda i: clip(R.add(m(i), R.mul(dt, R.add(vel(i), R.mul(unwrap(ca.ddt), up(i))))))
        else: want = lambda i: clip(R.add(m(i), R.mul(dt, up(i))))
        h.equals(out, (B, E, Hh, W), want, "step of the masked grid" if not few else "no mask below four channels")
        h.unchanged(snap, "caller's grid not modified")
    return f
def mask_fn(fam, fp16=False):
    def f(h):
        ca = family(fam)(kernel_radius=1, kernel_peaks=1) if fam != "RxnDfn" else family(fam)()
        E = h.int("E", 4)
        thr = ca.alive_threshold = h.real("thr")
        u, B, Hh, W = grid(h, None, E, lo=None, hi=None, dtype="float16" if fp16 else "float32")
        ur = u.reader()
        h.reachable()
        snap = h.snapshot(u)
        out = h.call("alive_mask", ca.alive_mask, u)
        if fam == "RxnDfn": h.equals(out, (B, E, Hh, W), ur, "Gray-Scott never masks")
        else:
            h.equals(out, (B, E, Hh, W), lambda i: R.ite(R.gt(ur((i[0], 3, i[2], i[3])), thr.r), ur(i), Fraction(0)), "zero exactly where the alpha channel does not exceed the threshold")
        h.unchanged(snap, "caller's grid not modified")
    return f
def threshold(h):
    """the threshold given at construction is the one used (default 0.1)"""
    t = h.real("thr")
    ca = family("CCA")(alive_threshold=t, kernel_radius=1, kernel_peaks=1)
    h.eq(ca.alive_threshold, t, "configured threshold")
    h.eq(family("CCA")(kernel_radius=1, kernel_peaks=1).alive_threshold, wrap(Fraction(1, 10)), "default threshold 0.1")
    h.eq(family("NCA")(alive_threshold=t, hidden_channels=2, kernel_radius=1, kernel_peaks=1).alive_threshold, t, "configured threshold (neural)")
for fam in ("CCA", "Lenia", "NCA", "CODE", "RandomStepCA", "MetaCA"):
    for few in (False, True):
        contract("C09", f"{fam} step, {'fewer than four' if few else 'four or more'} channels", [f"{fam}.forward", "CA.alive_mask"])(family_step(fam, few))
    contract("C09", f"{fam}.alive_mask", ["CA.alive_mask"])(mask_fn(fam))
for fam in ("CCA", "NCA", "MetaCA"):
    for few in (False, True):
        contract("C09", f"{fam}.get_frame, {'fewer than four' if few else 'four or more'} channels", ["get_frame", "CA.alive_mask"])(family_step(fam, few, True))
contract("C09", "CCA.alive_mask [half precision]", ["CA.alive_mask"])(mask_fn("CCA", True))
contract("C09", "RxnDfn.alive_mask", ["RxnDfn.alive_mask"])(mask_fn("RxnDfn"))
contract("C09", "alive threshold configuration", ["CA.__init__", "CCA.__init__"])(threshold)
