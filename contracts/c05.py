from .common import *
PRELOAD = list(FAMILIES.values())
TIMED = ("CCA", "Lenia", "NCA", "RxnDfn", "RandomStepCA")

def state(h, fam):
    """an instance in an arbitrary reachable-or-not state with one external channel (time does not depend on channels)"""
    if fam == "RxnDfn": s = RDState(h); E = 2
    elif fam == "NCA":
        E, I, _ = channels(h, "mixed")
        ca = family("NCA")(hidden_channels=h.int("hidden", 1), kernel_radius=1, kernel_peaks=1)
        s = NCAState(h, ca, E, I)
    else:
        E, I, _ = channels(h, "mixed")
        s = CAState(h, family(fam), E, I)
    return s, E

def count(h, ca, tensor):
    t0 = h.real("t0")
    ca.t_count = torch().tensor(t0) if tensor else t0
    return t0

def step(fam, tensor):
    def f(h):
        s, E = state(h, fam)
        ca = s.ca
        if fam == "RxnDfn" and tensor:
            ca.t_count = torch().tensor([h.real("t0")]); t0 = h.real("t0")
        else: t0 = count(h, ca, tensor)
        d0 = h.value(ca.dt) if fam != "RandomStepCA" else None
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        h.call("forward", ca.forward, u)
        d1 = h.value(ca.dt)
        if d0 is not None: h.ensure(wrap(R.eq(d1, d0)), "a step does not change dt")
        h.eq(ca.t_count, wrap(R.add(t0.r, d1)), "the counter advances by exactly the dt applied")
        # an arbitrary history: the counter after a second step is again advanced by the dt in force
        if fam != "RandomStepCA":
            t1 = h.value(ca.t_count)
            d2 = h.real("dt2")
            ca.set_dt(d2)
            h.call("forward again", ca.forward, u)
            h.eq(ca.t_count, wrap(R.add(t1, d2.r)), "after set_dt the next step advances by the new dt")
        t2 = h.value(ca.t_count)
        for m in (0, 1, 2, 3, 4):
            h.call("get_frame", ca.get_frame, u, mode=m)
            h.eq(ca.t_count, wrap(t2), f"rendering a frame (mode {m}) does not advance time")
        h.call("reset", ca.reset)
        h.eq(ca.t_count, 0, "reset sets the counter to zero")
    return f

def construct(fam):
    def f(h):
        kw = {"kernel_radius": 1}
        if fam != "RxnDfn": kw["kernel_peaks"] = 1
        if fam == "NCA": kw["hidden_channels"] = h.int("hidden", 1)
        ca = h.call("constructor", family(fam), **kw)
        h.eq(ca.t_count, 0, "the counter starts at zero")
        h.call("reset", ca.reset)
        h.eq(ca.t_count, 0, "and is zero after reset")
    return f

def applied(fam):
    """set_dt takes effect from the next step, and get_dt reads it back"""
    def f(h):
        s, E = state(h, fam)
        ca = s.ca
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        x = h.real("new_dt")
        for form, v in (("number", x), ("tensor", torch().tensor(h.real("new_dt_t"))), ("one-element tensor", torch().tensor([h.real("new_dt_1")]))):
            want = h.value(v)
            h.call(f"set_dt({form})", ca.set_dt, v)
            h.eq(h.call("get_dt", ca.get_dt), wrap(want), f"get_dt returns the {form} set")
        ca.set_dt(x)
        if hasattr(ca, "eval"): ca.eval()
        m = masked(h, s, u, E) if fam != "RxnDfn" else u.reader()
        mt = h.const_array("torch", (B, E, Hh, W), m, "float32")
        up = ca.update_universe(ca.id_conv(mt), ca.neighborhood_conv(mt)).reader()
        out = h.call("forward", ca.forward, u)
        h.equals(out, (B, E, Hh, W), lambda i: R.mx(Fraction(0), R.mn(Fraction(1), R.add(m(i), R.mul(x.r, up(i))))), "the next step uses the new dt")
    return f

for fam in TIMED:
    for t in (False, True):
        contract("C05", f"{fam}: step, frame, reset [{'tensor' if t else 'number'} counter]", [f"{fam}.forward", f"{fam}.reset", "get_frame", "CA.set_dt"])(step(fam, t))
    contract("C05", f"{fam}: construction", [f"{fam}.__init__", f"{fam}.reset"])(construct(fam))
    if fam != "RandomStepCA":
        contract("C05", f"{fam}: set_dt / get_dt", ["CA.set_dt", "CA.get_dt", f"{fam}.forward"])(applied(fam))
contract("C05", "CODE: construction", ["CODE.__init__", "CODE.reset"])(construct("CODE"))
