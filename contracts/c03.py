from .common import *
PRELOAD = ["yuca.lenia", "yuca.ca.continuous"]
def lenia(mode, frame):
    def f(h):
        E, I, md = channels(h, mode)
        s = CAState(h, family("Lenia"), E, I)
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        h.reachable()
        sp = StepSpec(s, masked(h, s, u, E), Hh, W, md)
        snap = h.snapshot(u)
        out = h.call("step", s.ca.get_frame if frame else s.ca.forward, u)
        h.equals(out, (B, E, Hh, W), lambda i: sp.euler(i, s.dt, sp.lenia_term), "clip(u + dt * average of genesis(N)), no persistence and no identity term")
        h.unchanged(snap, "input grid not modified")
    return f

def coincide(mode, frame):
    """a glaberish automaton with G = P makes exactly the Lenia step (two real executions)"""
    def f(h):
        E, I, md = channels(h, mode)
        s = CAState(h, family("Lenia"), E, I)
        u, B, Hh, W = grid(h, s, E, lo=None, hi=None)
        g = family("CCA")()
        for n in ("external_channels", "internal_channels", "neighborhood_kernels", "neighborhood_dim", "alive_threshold", "genesis_fns", "t_count"):
            setattr(g, n, getattr(s.ca, n))
        g.persistence_fns = s.ca.genesis_fns
        g.initialize_id_layer(); g.initialize_neighborhood_layer(); g.initialize_weight_layer()
        g.dt = torch().tensor(s.dt)
        s.ca.persistence_fns = opaque_list("other", wrap(s.I))[0]
        step = lambda ca: ca.get_frame if frame else ca.forward
        a = h.call("Lenia step", step(s.ca), u)
        b = h.call("glaberish step", step(g), u)
        h.shape_is(a, (B, E, Hh, W), "Lenia")
        h.equals(b, (B, E, Hh, W), a.reader(), "glaberish step with G = P equals the Lenia step")
    return f
for mode in MODES:
    for frame in (False, True):
        fn = "get_frame" if frame else "forward"
        contract("C03", f"Lenia.{fn} [{mode}]", ["Lenia.update_universe", f"CCA.{fn}", "CCA.genesis"])(lenia(mode, frame))
        contract("C03", f"Lenia and CCA with G = P coincide, {fn} [{mode}]", ["Lenia.update_universe", "CCA.update_universe", f"CCA.{fn}"])(coincide(mode, frame))
