"""C15: pattern generators are parameter-faithful and produce valid windows"""
from .common import *
from .c12 import bell, clip01
from pyvc import core as C
PRELOAD = ["yuca.cppn", "yuca.params_agent", "yuca.activations"]
def cp(): return mod("yuca.cppn")
def pa(): return mod("yuca.params_agent")
def sizes(ca):
    r = []
    for _, p in ca.model.named_parameters():
        n = 1
        for d in p._shape: n = R.mul(n, unwrap(d))
        r.append((p, A.canon_int(n)))
    return r
def total(ss):
    t = 0
    for _, n in ss: t = R.add(t, n)
    return A.canon_int(t)
def flat(i, sh):
    k = 0
    for a, d in zip(i, sh): k = R.add(R.mul(k, unwrap(d)), a)
    return k
def build(h, cls_, E=None, **kw):
    E = h.int("channels", 1) if E is None else E
    Hd, D = h.int("hidden", 1), h.int("dim", 2)
    h.c.ceilings = [D]                   # D - 1/D rounded up
    return h.call("constructor", getattr(cp(), cls_), external_channels=E, hidden_dim=Hd, dim=D, **kw), E, Hd, D
def roundtrip(h):
    g, E, Hd, D = build(h, "CPPN")
    ss = sizes(g); n = total(ss)
    v = h.ndarray("v", (wrap(n),)); vr = v.reader()
    h.call("set_params", g.set_params, v)
    h.equals(v, (wrap(n),), vr, "the caller's vector is not modified")
    v[:] = 0
    h.equals(h.call("get_params", g.get_params), (wrap(n),), lambda i: vr(i), "the vector read back is the vector set")
    off = 0
    for p, m in sizes(g):
        h.equals(p, p._shape, lambda i, off=off, sh=p._shape: vr((A.canon_int(R.add(off, flat(i, sh))),)), "the network uses the vector")
        off = R.add(off, m)
    h.call("get_params", g.get_params)[:] = 0
    h.equals(h.call("get_params", g.get_params), (wrap(n),), lambda i: vr(i), "editing the vector read back does not change the generator")
    a = h.call("get_action", g.get_action)
    h.equals(h.call("get_params", g.get_params), (wrap(n),), lambda i: vr(i), "generating a pattern does not change the parameters")
contract("C15", "CPPN parameters", ["CPPN.set_params", "CPPN.get_params"], time_limit=200)(roundtrip)
def rpos(D):
    """distance of the pixel (y, x) from the centre, which is at distance 1 from the border"""
    st = R.div(Fraction(2), R.to_real(R.sub(unwrap(D), 1)))
    p = lambda k: R.add(Fraction(-1), R.mul(st, R.to_real(k)))
    return lambda y, x: R.sqrt_(R.add(R.mul(p(x), p(x)), R.mul(p(y), p(y))))
def outside(r): return R.ge(r, Fraction(3, 4))
def pattern(cls_, E):
    def f(h):
        """the value of every pixel, for an arbitrary network"""
        g, E_, Hd, D = build(h, cls_, E)
        T = mod("pyvc.torch_impl"); e, d = unwrap(E_), unwrap(D)
        net = h.reader("net", 4); seen = []
        class Net(cp().nn.Module):
            def forward(self, x):
                seen.append(x); return h.const_array("torch", (1, d, d, e), net, "float32")
        g.model = Net()
        gr = g.grid.reader()
        h.equals(g.grid, (1, wrap(A.canon_int(R.mul(16, e))), D, D), gr, "sixteen features per channel")
        for t in range(2):
            a = h.call("get_action", g.get_action) if cls_ == "CPPN" else h.call("get_pattern_action", g.get_pattern_action)
            r = rpos(D)
            def want(i):
                q = r(i[2], i[3]); s = R.sub(Fraction(1), q)
                v = R.mul(net((0, i[3], i[2], i[1])), R.mul(s, s))
                return R.mx(Fraction(0), R.mul(v, R.ite(outside(q), Fraction(1, 10 ** 6), Fraction(1))))
            h.equals(a, (1, E_, D, D), want, "non-negative output of the network, fading from the centre" + (" (again)" if t else ""))
            h.equals(seen[-1], (1, D, D, wrap(A.canon_int(R.mul(16, e)))), lambda i: gr((0, i[3], i[2], i[1])), "the network sees the features of each pixel")
    return f
def window(E):
    def f(h):
        """bounds for the real network"""
        g, E_, Hd, D = build(h, "CPPN", E)
        a = h.call("get_action", g.get_action); ar = a.reader()
        h.equals(a, (1, E_, D, D), ar, "one window per channel")
        r = rpos(D)
        h.forall((1, E_, D, D), lambda i: R.ge(ar(i), Fraction(0)), "non-negative")
        s2 = lambda q: R.mul(R.sub(Fraction(1), q), R.sub(Fraction(1), q))
        h.forall((1, E_, D, D), lambda i: R.implies(outside(r(i[2], i[3])), R.le(ar(i), R.mul(Fraction(1, 10 ** 6), s2(r(i[2], i[3]))))), "vanishes outside the central disc")
        h.forall((1, E_, D, D), lambda i: R.le(ar(i), s2(r(i[2], i[3]))), "fades from the centre")
    return f
for e in (1, None):
    n = "one channel" if e else "any channels"
    contract("C15", f"CPPN pattern, {n}", ["CPPN.__init__", "CPPN.get_cppn_input", "CPPN.get_action"], time_limit=200)(pattern("CPPN", e))
    contract("C15", f"CPPN window, {n}", ["CPPN.get_action", "CPPN.forward"], time_limit=200)(window(e))
contract("C15", f"CPPNPlus pattern", ["CPPNPlus.get_pattern_action"], time_limit=200)(pattern("CPPNPlus", None))
def plus(how):
    def f(h):
        """generator parameters, then automaton parameters"""
        m = h.int("ca", 1)
        w = h.ndarray("w", (m,)); wr = w.reader()
        g, E, Hd, D = build(h, "CPPNPlus", None, **({"ca_params": w} if how == "ca_params" else {}))
        w[:] = 0
        n = total(sizes(g))
        if how == "ca_params": h.equals(h.call("get_rule_action", g.get_rule_action), (m,), wr, "starts from the automaton parameters given")
        tot = A.canon_int(R.add(n, m.r))
        v = h.ndarray("v", (wrap(tot),)); vr = v.reader()
        h.call("set_params", g.set_params, v)
        h.equals(v, (wrap(tot),), vr, "the caller's vector is not modified")
        v[:] = 0
        h.equals(h.call("get_params", g.get_params), (wrap(tot),), lambda i: vr(i), "the vector read back is the vector set")
        off = 0
        for p, k in sizes(g):
            h.equals(p, p._shape, lambda i, off=off, sh=p._shape: vr((A.canon_int(R.add(off, flat(i, sh))),)), "the network uses the first part")
            off = R.add(off, k)
        h.equals(h.call("get_rule_action", g.get_rule_action), (m,), lambda i: vr((A.canon_int(R.add(n, i[0])),)), "the automaton gets the rest")
        rule, pat = h.call("get_action", g.get_action)
        h.equals(rule, (m,), lambda i: vr((A.canon_int(R.add(n, i[0])),)), "get_action: automaton parameters first")
        q = h.call("get_pattern_action", g.get_pattern_action)
        h.equals(pat, (1, E, D, D), q.reader(), "get_action: pattern second")
        rule[:] = 0
        h.equals(h.call("get_params", g.get_params), (wrap(tot),), lambda i: vr(i), "an action does not share state with the agent")
    return f
for how in ("ca_params", "default"):
    contract("C15", f"CPPNPlus split, {how}", ["CPPNPlus.__init__", "CPPNPlus.set_params", "CPPNPlus.get_params", "CPPNPlus.get_action", "CPPNPlus.get_rule_action"], time_limit=200)(plus(how))
def given(cls_):
    def f(h):
        """the constructor takes the vector"""
        E, Hd, D = h.int("channels", 1), h.int("hidden", 1), h.int("dim", 2)
        h.c.ceilings = [D]
        t = h.call("constructor", getattr(cp(), "CPPN"), external_channels=E, hidden_dim=Hd, dim=D)
        n = total(sizes(t)); m = h.int("ca", 1) if cls_ == "CPPNPlus" else S(0)
        tot = A.canon_int(R.add(n, m.r))
        v = h.ndarray("v", (wrap(tot),)); vr = v.reader()
        g = h.call("constructor", getattr(cp(), cls_), external_channels=E, hidden_dim=Hd, dim=D, params=v)
        v[:] = 0
        h.equals(h.call("get_params", g.get_params), (wrap(tot),), lambda i: vr(i), "starts from the vector given")
    return f
for c_ in ("CPPN", "CPPNPlus"): contract("C15", f"{c_} from a vector", [f"{c_}.__init__", f"{c_}.get_params"], time_limit=200)(given(c_))
def agent(how):
    def f(h):
        n = h.int("n", 1); N0 = pa().ParamsAgent
        w = h.ndarray("w", (n,)); wr = w.reader()
        a = h.call("constructor", N0, **({"ca_params": w} if how == "ca_params" else {"params": w} if how == "params" else {"num_params": n} if how == "num_params" else {}))
        w[:] = 0
        if how in ("ca_params", "params"): h.equals(h.call("get_params", a.get_params), (n,), wr, "starts from the vector given")
        if how == "num_params": h.ensure(wrap(R.eq(unwrap(h.call("get_params", a.get_params)._shape[0]), n.r)), "as many parameters as asked for")
        k = h.int("k", 1)
        v = h.ndarray("v", (k,)); vr = v.reader()
        h.call("set_params", a.set_params, v)
        h.equals(v, (k,), vr, "the caller's vector is not modified")
        v[:] = 0
        h.equals(h.call("get_params", a.get_params), (k,), vr, "the vector read back is the vector set")
        h.equals(h.call("get_action", a.get_action), (k,), vr, "the action is the vector")
        h.call("get_params", a.get_params)[:] = 0; h.call("get_action", a.get_action)[:] = 0
        h.equals(h.call("get_params", a.get_params), (k,), vr, "no state is shared with the caller")
    return f
for how in ("ca_params", "params", "num_params", "default"):
    contract("C15", f"ParamsAgent, {how}", ["ParamsAgent.__init__", "ParamsAgent.set_params", "ParamsAgent.get_params", "ParamsAgent.get_action"])(agent(how))
def filtered(h):
    """an agent asked to filter: the vector with every entry made positive and at most 1"""
    a = h.call("constructor", pa().ParamsAgent, filter_params=True)
    k = h.int("k", 1); v = h.ndarray("v", (k,)); vr = v.reader()
    h.call("set_params", a.set_params, v)
    h.equals(v, (k,), vr, "the caller's vector is not modified")
    want = lambda i: R.mn(Fraction(1), R.mx(Fraction(1, 10000), R.ite(R.ge(vr(i), Fraction(0)), vr(i), R.neg(vr(i)))))
    for t in range(2):
        h.equals(h.call("get_params", a.get_params), (k,), want, "filtered vector")
        h.equals(h.call("get_action", a.get_action), (k,), want, "the action is the filtered vector")
contract("C15", "ParamsAgent with a filter", ["ParamsAgent.set_params", "ParamsAgent.get_action"])(filtered)
