"""C23: masks, apertures and training inputs are placed exactly"""
from .common import *
PRELOAD = ["yuca.utils"]
def ut(): return mod("yuca.utils")
def np_(): return mod("pyvc.numpy_impl")
ONE, ZERO = Fraction(1), Fraction(0)
def image(h, name="img", lib="numpy"):
    """an image batch of one: (1, channels, 2r, 2r)"""
    Cc, r = h.int("C", 1), h.int("r", 1)
    side = wrap(A.canon_int(R.mul(2, r.r)))
    img = h.ndarray(name, (1, Cc, side, side))
    return img, Cc, r, side
def coordinate(r, j): return R.add(R.neg(R.to_real(r)), R.mul(R.to_real(j), R.div(R.to_real(R.add(R.mul(2, r), 1)), R.to_real(R.mul(2, r)))))
def bite(r, rad, c0, c1, y, x):
    """1 outside (and on) the disc of relative radius rad around (c0, c1) and 0 inside"""
    dx, dy = R.sub(coordinate(r, x), c0), R.sub(coordinate(r, y), c1)
    d = R.div(R.sqrt_(R.add(R.mul(dx, dx), R.mul(dy, dy))), R.to_real(r))
    return R.ite(R.lt(d, rad), ZERO, ONE)
def same_seed(h, f):
    s = h.int("seed")
    np_().random.seed(s); torch().manual_seed(s)
    return f()

@contract("C23", "get_mask", ["yuca.utils.get_mask"])
def _(h):
    for nd in (2, 3):
        sh = [h.int(f"n{nd}{k}", 1) for k in range(nd)]
        g = h.ndarray(f"grid{nd}", sh); gr = g.reader(); rad = h.real("radius")
        snap = h.snapshot(g)
        m = h.call("get_mask", ut().get_mask, g, rad)
        h.equals(m, sh, lambda i: R.ite(R.lt(gr(i), rad.r), ZERO, ONE), f"mask of the distance ({nd}-D)")
        h.unchanged(snap, f"the distance grid is not changed ({nd}-D)")

def check_bite(h, img, Cc, r, side, m, rad, c0, c1, name):
    h.equals(m, (1, Cc, side, side), lambda i: bite(r.r, rad.r, c0, c1, i[2], i[3]), name)
@contract("C23", "get_bite_mask with given coordinates", ["yuca.utils.get_bite_mask", "yuca.utils.get_mask"])
def _(h):
    img, Cc, r, side = image(h); rad = h.real("bite_radius")
    c0, c1 = h.real("c0"), h.real("c1"); snap = h.snapshot(img)
    for form, co in (("list", [c0, c1]), ("array", np_().array([c0, c1]))):
        m = h.call("get_bite_mask", ut().get_bite_mask, img, rad, co)
        check_bite(h, img, Cc, r, side, m, rad, c0.r, c1.r, f"the same disc is cut out of every channel (coordinates as {form})")
    h.unchanged(snap, "the image is not changed")
@contract("C23", "get_bite_mask at random coordinates", ["yuca.utils.get_bite_mask", "yuca.utils.get_mask"])
def _(h):
    img, Cc, r, side = image(h); rad = h.real("bite_radius")
    co = same_seed(h, lambda: np_().random.rand(2)).reader()
    m = same_seed(h, lambda: h.call("get_bite_mask", ut().get_bite_mask, img, rad))
    at = lambda k: R.mul(co((k,)), R.to_real(r.r))
    check_bite(h, img, Cc, r, side, m, rad, at(0), at(1), "the disc is centred at a uniformly drawn point of the quadrant")
def aperture_spec(r, ap, y, x): return R.ite(R.lt(ap, Fraction(975, 1000)), R.sub(1, bite(r, ap, ZERO, ZERO, y, x)), ONE)
@contract("C23", "get_aperture", ["yuca.utils.get_aperture", "yuca.utils.get_bite_mask", "yuca.utils.get_mask"])
def _(h):
    img, Cc, r, side = image(h); ap = h.real("aperture_radius"); snap = h.snapshot(img)
    m = h.call("get_aperture", ut().get_aperture, img, ap)
    h.equals(m, (1, Cc, side, side), lambda i: aperture_spec(r.r, ap.r, i[2], i[3]), "one inside the centred disc, all ones from 0.975 up")
    h.unchanged(snap, "the image is not changed")

def settings(h, Cc, form):
    """keyword arguments of prep_input, with the values they stand for"""
    if form == "default": return {}, Cc, Fraction(1), Fraction(1, 10), Fraction(1, 20)
    E = wrap(A.canon_int(R.add(Cc.r, h.int("extra", 0).r)))
    ap, br, nl = h.real("aperture_radius"), h.real("bite_radius"), h.real("noise_level", 0)
    return dict(external_channels=E, aperture_radius=ap, bite_radius=br, noise_level=nl), E, ap.r, br.r, nl.r
class Draws:
    """records the uniform draws the code under contract makes (in whatever order)"""
    def __enter__(self):
        np = np_(); self.log = []; self.old = np.random._draw
        def d(dist, sh):
            a = self.old(dist, sh); self.log.append((dist, sh, a)); return a
        np.random._draw = d
        return self
    def __exit__(self, *a): np_().random._draw = self.old
for form in ("default", "given"):
    @contract("C23", f"prep_input, one sample, {form} settings", ["yuca.utils.prep_input", "yuca.utils.get_aperture", "yuca.utils.get_bite_mask", "yuca.utils.get_mask"])
    def _(h, form=form):
        img, Cc, r, side = image(h); ir = img.reader(); snap = h.snapshot(img)
        kw, E, ap, br, nl = settings(h, Cc, form)
        with Draws() as d: out = h.call("prep_input", ut().prep_input, img, batch_size=1, **kw)
        h.shape_is(out, (1, E, side, side), "batch")
        co = [a for dist, sh, a in d.log if dist == "uniform" and sh == (2,)]
        rest = [a for dist, sh, a in d.log if not (dist == "uniform" and sh == (2,))]
        if len(co) != 1:
            h.c.fail("one bite position is drawn per sample", f"{len(co)} pairs of coordinates were drawn"); return
        c0, c1 = (R.mul(co[0].reader()((k,)), R.to_real(r.r)) for k in (0, 1))
        o = out.reader()
        def signal(i): return R.mul(R.mul(ir((0,) + i[1:]), aperture_spec(r.r, ap, i[2], i[3])), bite(r.r, br, c0, c1, i[2], i[3]))
        sh = (1, Cc, side, side)
        def noisy(i):
            n = R.sub(o(i), signal(i))
            return R.and_(R.ge(n, 0), R.or_(R.lt(n, nl), R.and_(R.eq(nl, 0), R.eq(n, 0))))
        if len(rest) == 1 and len(rest[0]._shape) == 4:
            nr = rest[0].reader()
            h.forall(sh, lambda i: R.eq(R.sub(o(i), signal(i)), R.mul(nl, nr(i))), "image times aperture times bite mask, plus the sample's noise")
        h.forall(sh, noisy, "image times aperture times bite mask, plus noise in [0, level)")
        with h.scope():
            b, k, y, x = h.skolems((1, E, side, side))
            h.c.assume(R.ge(k, unwrap(Cc)))
            h.ensure(wrap(R.eq(o((b, k, y, x)), 0)), "the channels beyond the image are zero")
        h.unchanged(snap, "the image is not changed")
    @contract("C23", f"prep_input, any batch size, {form} settings", ["yuca.utils.prep_input"], time_limit=200)
    def _(h, form=form):
        # sample b of a batch is the one-sample batch prepared in the generator state that b earlier samples leave behind:
        # every sample has its own draws, and nothing else
        img, Cc, r, side = image(h)
        kw, E, ap, br, nl = settings(h, Cc, form)
        n, b = h.int("batch_size", 2), h.int("b", 0); h.assume(b < n)
        p = ut().prep_input
        out = same_seed(h, lambda: h.call("prep_input (n)", p, img, batch_size=n, **kw))
        h.shape_is(out, (n, E, side, side), "batch")
        same_seed(h, lambda: h.call("prep_input (b)", p, img, batch_size=b, **kw))
        one = h.call("prep_input (1)", p, img, batch_size=1, **kw)
        o, q = out.reader(), one.reader()
        h.forall((E, side, side), lambda i: R.eq(o((b.r,) + i), q((0,) + i)), "sample b is the one-sample batch after b samples")
@contract("C23", "make_target", ["yuca.utils.make_target"])
def _(h):
    sh = [h.int(k, 1) for k in "CHW"]
    img = h.ndarray("img", sh); ir = img.reader(); snap = h.snapshot(img)
    t = h.call("make_target", ut().make_target, img)
    h.equals(t, [1] + sh, lambda i: ir(i[1:]), "the image with a leading batch dimension")
    h.unchanged(snap, "the image is not changed")
