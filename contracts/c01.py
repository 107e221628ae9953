from .common import *
PRELOAD = list(FAMILIES.values())

def nonneg_dt(h, s): pass

def result_ok(h, out, u, B, E, Hh, W, what):
    h.shape_is(out, (B, E, Hh, W), what)
    h.in_unit(out, f"{what}: every cell in [0,1]")

def check(h, s, u, B, E, Hh, W, frame):
    ca = s.ca
    if frame is None:
        out = h.call("forward", ca.forward, u)
        result_ok(h, out, u, B, E, Hh, W, "step")
    else:
        out = h.call("get_frame", ca.get_frame, u, mode=frame)
        if frame:
            if not h.ensure(isinstance(out, tuple), "a tuple is returned"): return
            out = out[0]
        result_ok(h, out, u, B, E, Hh, W, "frame")

def glaberish(fam, mode, frame, fp16=False):
    def f(h):
        E, I, md = channels(h, mode)
        s = CAState(h, family(fam), E, I)
        u, B, Hh, W = grid(h, s, E, dtype="float16" if fp16 else "float32")
        ca = s.ca
        if fam == "RandomStepCA":
            ca.min_dt, ca.max_dt = h.real("min_dt"), h.real("max_dt")
        if fam == "MetaCA":
            ca.ddt = h.real("ddt")
            T = torch()
            ca.dgrid = h.tensor("velocity", (h.int("b0", 1), h.int("e0", 1), h.int("h0", 1), h.int("w0", 1)))
        h.reachable()
        check(h, s, u, B, E, Hh, W, frame)
    return f

def code_contract(mode, frame):
    def f(h):
        E, I, md = channels(h, mode)
        s = CAState(h, family("CODE"), E, I)
        u, B, Hh, W = grid(h, s, E)
        s.ca.dt = h.real("dt0")
        out = h.call("get_new_grid", s.ca.get_new_grid, u)     # the only producer of CODE.forward's result; see C06
        result_ok(h, out, u, B, E, Hh, W, "step")
    return f

def nca(mode, frame, fp16=False):
    def f(h):
        E, I, md = channels(h, mode)
        ca = family("NCA")(hidden_channels=h.int("hidden", 1), dropout_rate=h.real("dropout", 0, 1), activation="Gaussian", kernel_radius=1, kernel_peaks=1)
        s = NCAState(h, ca, E, I)
        u, B, Hh, W = grid(h, s, E, dtype="float16" if fp16 else "float32")
        check(h, s, u, B, E, Hh, W, frame)
    return f

def gray_scott(frame):
    def f(h):
        s = RDState(h)
        u, B, Hh, W = grid(h, s, 2)
        check(h, s, u, B, 2, Hh, W, frame)
    return f

FN = {"CCA": ["CCA.forward", "CCA.get_frame"], "Lenia": ["Lenia.update_universe", "CCA.forward"], "RandomStepCA": ["RandomStepCA.forward", "RandomStepCA.get_new_grid"],
      "MetaCA": ["MetaCA.forward"]}
for mode in MODES:
    for fam in FN:
        contract("C01", f"{fam}.forward [{mode}]", FN[fam])(glaberish(fam, mode, None))
    contract("C01", f"CCA.forward [{mode}, half precision]", FN["CCA"])(glaberish("CCA", mode, None, True))
    for m in range(5):
        contract("C01", f"CCA.get_frame mode {m} [{mode}]", ["CCA.get_frame"])(glaberish("CCA", mode, m))
    contract("C01", f"Lenia.get_frame [{mode}]", ["CCA.get_frame", "Lenia.update_universe"])(glaberish("Lenia", mode, 0))
    contract("C01", f"CODE.get_new_grid [{mode}]", ["CODE.get_new_grid"])(code_contract(mode, None))
    contract("C01", f"NCA.forward [{mode}]", ["CA.forward", "NCA.update_universe", "NCA.initialize_weight_layer"])(nca(mode, None))
    contract("C01", f"NCA.get_frame [{mode}]", ["CA.get_frame", "NCA.update_universe"])(nca(mode, 0))
contract("C01", "RxnDfn.forward", ["RxnDfn.forward", "RxnDfn.update_universe"])(gray_scott(None))
for m in range(5):
    contract("C01", f"RxnDfn.get_frame mode {m}", ["CA.get_frame", "RxnDfn.update_universe"])(gray_scott(m))
