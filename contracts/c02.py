from .common import *
PRELOAD = ["yuca.ca.continuous"]
def make(h, mode, fp16=False):
    CCA = family("CCA")
    E, I, md = channels(h, mode)
    s = CAState(h, CCA, E, I)
    u, B, Hh, W = grid(h, s, E, lo=None, hi=None, dtype="float16" if fp16 else "float32")
    return s, E, I, md, u, B, Hh, W

def forward_contract(mode, fp16):
    def f(h):
        s, E, I, md, u, B, Hh, W = make(h, mode, fp16)
        h.reachable()
        snap = h.snapshot(u)
        sp = StepSpec(s, masked(h, s, u, E), Hh, W, md)
        out = h.call("forward", s.ca.forward, u)
        h.equals(out, (B, E, Hh, W), lambda i: sp.euler(i, s.dt), "new grid = clip(u + dt*update)")
        h.ensure(out.st.dtype == u.st.dtype, "result keeps the grid's precision")
        h.unchanged(snap, "input grid not modified")
    return f

def frame_contract(mode, m):
    def f(h):
        s, E, I, md, u, B, Hh, W = make(h, mode)
        snap = h.snapshot(u)
        mr = masked(h, s, u, E)
        sp = StepSpec(s, mr, Hh, W, md)
        new = lambda a: h.equals(a, (B, E, Hh, W), lambda i: sp.euler(i, s.dt), "new grid")
        nb = lambda a: h.equals(a, (B, I, Hh, W), sp.N, "neighborhoods")
        up = lambda a: h.equals(a, (B, E, Hh, W), lambda i: sp.upd(i), "update")
        gr = lambda a: h.shape_is(a, (B, E, Hh, W), "current grid")
        parts = ((new,), (new, nb), (new, up), (new, nb, up), (new, gr, nb, up))[m]
        r = h.call("get_frame", s.ca.get_frame, u, mode=m)
        if m == 0: r = (r,)
        if h.ensure(isinstance(r, tuple) and len(r) == len(parts), f"mode {m} returns {len(parts)} parts"):
            for a, p in zip(r, parts): p(a)
        h.unchanged(snap, "input grid not modified")
    return f

for mode in MODES:
    for fp in (False, True):
        contract("C02", f"CCA.forward [{mode} channels{', half precision' if fp else ''}]",
                 ["CCA.forward", "CA.alive_mask", "CA.id_conv", "CA.neighborhood_conv", "CCA.update_universe", "CCA.genesis", "CCA.persistence",
                  "CA.initialize_id_layer", "CA.initialize_neighborhood_layer", "CCA.initialize_weight_layer"])(forward_contract(mode, fp))
    for m in range(5):
        contract("C02", f"CCA.get_frame mode {m} [{mode} channels]",
                 ["CCA.get_frame", "CA.alive_mask", "CA.id_conv", "CA.neighborhood_conv", "CCA.update_universe", "CCA.genesis", "CCA.persistence"])(frame_contract(mode, m))
