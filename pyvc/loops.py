"""Loop rule for symbolic iteration counts.

One arbitrary iteration j of the real loop body is executed from a havocked state (every
location the body writes is replaced by an arbitrary value); the resulting transition
relation is solved to a closed form which is proved/derived by the shape of the recurrence
(unchanged / last value / accumulation / growth / write at index / opaque iterate)."""
import hashlib, builtins, itertools
from fractions import Fraction
import z3, os
DEBUG = bool(os.environ.get('VC_DEBUG'))
from . import raw as R, norm as N, core as C, arr as A
from .core import S, wrap, unwrap, cur, PathEnd
from .raw import Unsupported
from .seq import VList, SymIter, SRange, Poison, memo1

class Escape(BaseException):
    def __init__(self, kind, value=None): self.kind, self.value = kind, value
class NeedPeel(Exception): pass
class Breaks(Unsupported): pass

class EnumIter:
    def __init__(self, it, start=0): self.it, self.start = it, start
    def __iter__(self):
        k = self.start
        for v in self.it:
            yield k, v
            k = k + 1

def viter(x):
    """iterable of the program -> concrete iterable or SymIter"""
    if isinstance(x, SymIter): return x
    if isinstance(x, VList):
        return SymIter(x.length(), x.item) if x.pre is not None else x
    if isinstance(x, A.Arr):
        n, f = x.__vc_iter__()
        if R.is_sym(n): return SymIter(n, f)
        return x
    if isinstance(x, (Poison, A.MaskSel)): raise Unsupported("iteration over unsummarised value")
    return x

def comp(it, lam, kind):
    it = viter(it)
    if isinstance(it, SymIter):
        # the same passes as a loop that appends
        out = VList()
        def body(x):
            l = lam([x])
            if builtins.len(l) != 1: raise Unsupported("filtered comprehension over a symbolic sequence")
            out.append(l[0])
        sym_for(it, body, lambda: {}, lambda d: None, "comprehension")
        return out
    r = lam(it)
    return VList(r) if kind == "list" else r

# ---- journal -------------------------------------------------------------
class Journal:
    def __init__(self):
        self.stors, self.lists, self.objs, self.rngs, self.dicts = {}, {}, {}, {}, {}
        self.fresh = {}       # objects created while this journal was open: unreachable once it is rolled back
    def note_new(self, x): self.fresh[id(x)] = x
    def note_storage(self, st):
        if id(st) not in self.stors and id(st) not in self.fresh: self.stors[id(st)] = (st, st._fn, st.shape)
    def note_list(self, l):
        if id(l) not in self.lists and id(l) not in self.fresh: self.lists[id(l)] = (l, l.pre, l.rawlist())
    def note_obj(self, o):
        if id(o) in self.objs or id(o) in self.fresh: return
        if not o.__dict__: self.fresh[id(o)] = o     # first attribute of a new object
        else: self.objs[id(o)] = (o, snap_obj(o))
    def note_rng(self, g):
        if id(g) not in self.rngs: self.rngs[id(g)] = (g, g.state)
    def note_dict(self, d):
        if id(d) not in self.dicts and id(d) not in self.fresh: self.dicts[id(d)] = (d, dict(d))
    def rollback(self):
        for st, fn, sh in self.stors.values(): st._fn = fn; st.shape = sh
        for l, pre, items in self.lists.values():
            l.pre = pre; builtins.list.clear(l); builtins.list.extend(l, items)
        for o, s in self.objs.values(): restore_obj(o, s)
        for g, s in self.rngs.values(): g.state = s
        for d, s in self.dicts.values(): d.clear(); d.update(s)

_SUB = ("_parameters", "_modules", "_buffers")
def snap_obj(o):
    d = o.__dict__
    return dict(d), {s: dict(d[s]) for s in _SUB if s in d}
def restore_obj(o, s):
    d = o.__dict__
    d.clear(); d.update(s[0])
    for k, v in s[1].items():
        d[k].clear(); d[k].update(v)
def attrs_of(o):
    d = {k: v for k, v in o.__dict__.items() if k not in _SUB}
    for s in _SUB:
        if s in o.__dict__: d.update(o.__dict__[s])
    return d
def attrs_of_snap(s):
    d = {k: v for k, v in s[0].items() if k not in _SUB}
    for v in s[1].values(): d.update(v)
    return d

def note_attr(o, n):
    if "__vc_item__" in getattr(o, "__dict__", ()): raise Unsupported("attribute of an element of a symbolic list is set")
    for j in C.JOURNALS:
        if hasattr(o, "__dict__"): j.note_obj(o)
def setitem(v, o, i):
    if isinstance(o, dict) and C.Ctx.cur is not None and any(o is d for d in C.cur().ghost.get("item_dicts", ())): raise Unsupported("item of an element of a symbolic list is set")
    if C.JOURNALS and isinstance(o, dict):
        for j in C.JOURNALS: j.note_dict(o)
    o[i] = v

class Local:
    """explore all paths of a piece of code without leaving the current outer path"""
    def __init__(self, ctx): self.ctx = ctx
    def run(self, f, extra, record=True):
        """yield (pathcond, result, journal) ; state rolled back after each"""
        ctx = self.ctx
        saved = (ctx.decisions, ctx.pos, ctx.assumed, ctx._cache)
        base = list(ctx.assumed) + [e for e in extra if R.is_sym(e)]
        out = []
        decisions = []
        obs = ctx.obs
        try:
            for _ in range(200):
                ctx.decisions, ctx.pos, ctx.assumed, ctx._cache = decisions, 0, list(base), {}
                if not record: ctx.obs = []
                j = Journal()
                C.JOURNALS.append(j)
                try:
                    r = f()
                    pc = ctx.assumed[len(base):]
                    out.append((R.and_(*pc), r, j))
                except PathEnd: pass
                except Escape as e:
                    raise (Breaks if e.kind == "break" else Unsupported)(f"{e.kind} inside a loop over a symbolic range")
                except (Unsupported, NeedPeel): raise
                except C.CheckFailure: raise
                except Exception as e:
                    if DEBUG: import traceback; traceback.print_exc()
                    raise Unsupported(f"{type(e).__name__} possible inside a loop over a symbolic range: {e}")
                finally:
                    C.JOURNALS.remove(j)
                    j.rollback()
                    ctx.obs = obs
                decisions = ctx.decisions
                if not ctx.next_path(): return out
            raise Unsupported("too many paths in loop body")
        finally:
            ctx.decisions, ctx.pos, ctx.assumed, ctx._cache = saved

# ---- values --------------------------------------------------------------
def is_num(v): return not isinstance(v, A.Arr) and isinstance(v, (S, bool, int, Fraction, float))
def is_text(v): return isinstance(v, str) and type(v).__name__ in ("str", "VStr")

def canon(t):
    try: return R.val(cur().P.NM.canon(R.z(t))) if R.is_sym(t) else t
    except Unsupported: return t

def mentions_decl(t, decl):
    if not R.is_sym(t): return False
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.decl().eq(decl): return True
            st.extend(x.children())
    return False

def subst(t, pairs):
    if not R.is_sym(t): return t
    pairs = [(a, R.z(b)) for a, b in pairs if R.is_sym(a)]
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs: return t
    return R.val(z3.substitute(t, *pairs))

def subst_fun(t, decl, f):
    """replace every application decl(args) by f(args)"""
    if not R.is_sym(t): return t
    memo = {}
    def go(x):
        if x.get_id() in memo: return memo[x.get_id()][1]
        if z3.is_quantifier(x):
            n = x.num_vars()
            vs = [z3.Const(R.fresh_name("sv"), x.var_sort(i)) for i in range(n)]
            b = z3.substitute_vars(x.body(), *reversed(vs))
            r = z3.Lambda(vs, go(b))
        elif z3.is_app(x):
            ch = [go(c) for c in x.children()]
            if x.decl().eq(decl): r = R.z(f(*[R.val(c) for c in ch]))
            elif ch: r = rebuild(x, ch)
            else: r = x
        else: r = x
        memo[x.get_id()] = (x, r)
        return r
    return R.val(go(t))
def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL: return z3.Product(*ch)
    if k == z3.Z3_OP_SUB and len(ch) == 2: return ch[0] - ch[1]
    return x.decl()(*ch)

def fresh_idx(shape):
    """one arbitrary index (0 in unit dimensions)"""
    return tuple(0 if (not R.is_sym(d) and d == 1) else R.fresh_int("i") for d in shape)
def hz(iv): return [R.z(i) for i in iv]

class Loc:
    """one havocked location"""
    def __init__(self, key, kind):
        self.key, self.kind = key, kind      # kind: num | arr | stor | list | rng | obj
        self.guess = None                    # tentative closed form j -> raw, kept only if inductive
        self.h = None                        # unknown (z3 const or FuncDecl)
        self.grow = None                     # (axis, c)
        self.closed = None                   # function (j, idx) -> raw    (value BEFORE iteration j)

def same_shape(a, b):
    return len(a) == len(b) and all((x is y) or dims_eq(x, y) for x, y in zip(a, b))
def dims_eq(x, y):
    if not R.is_sym(x) and not R.is_sym(y): return x == y
    d = canon(R.sub(x, y))
    if not R.is_sym(d): return d == 0
    return bool(cur().entails(R.eq(x, y)))

def sym_for(it, body, get, set_, where):
    ctx = cur()
    h = getattr(ctx, "loop_hook", None)
    n = it.n
    base = 0
    for attempt in range(3):
        rest = canon(R.sub(n, base))
        if not ctx.branch(R.gt(rest, 0)): return
        try:
            return summarise(ctx, it, base, rest, body, get, set_, where)
        except Breaks: return with_break(ctx, it, base, rest, body, get, set_, where)
        except NeedPeel as e:
            why = str(e)
            try: body(it.item(base))
            except Escape as e2:
                if e2.kind == "break": return "break"
                raise Unsupported("return inside a loop over a symbolic range")
            base += 1
    raise Unsupported(f"loop {where}: state keeps changing shape ({why})")

def with_break(ctx, it, base, m, body, get, set_, where):
    """a loop that may be left early: n iterations that go on, for an arbitrary n < m, then one iteration that either leaves the loop or is the last"""
    n = R.fresh_int("iters")
    ctx.assume(n >= 0); ctx.assume(R.lt(n, m))
    def on(x):
        try: body(x)
        except Escape as e:
            if e.kind == "break": raise PathEnd()
            raise
    ent = {"n": n, "went_on": lambda k: False}
    ctx.ghost.setdefault("for_log", []).append(ent)
    if ctx.branch(R.gt(n, 0)):
        solved, pcs, j = summarise(ctx, it, base, n, on, get, set_, where, True)
        ent["went_on"] = lambda jj: fix(R.or_(*pcs), jj, solved, j)
    left = False
    try: body(it.item(canon(R.add(base, n))))
    except Escape as e:
        if e.kind != "break": raise Unsupported("return inside a loop over a symbolic range")
        left = True
    if not left: ctx.assume(R.eq(n, R.sub(m, 1)))
    return "break" if left else None

def summarise(ctx, it, base, m, body, get, set_, where, loose=False):
    j = R.fresh_int("j")
    rng = [j >= 0, R.lt(j, m)]
    pre = get()
    targets = set()
    locs = {}
    def onecall():
        set_(pre)
        try: body(it.item(canon(R.add(base, j)) if not (not R.is_sym(base) and base == 0) else j))
        except (Unsupported, NeedPeel, PathEnd, Escape, C.CheckFailure): raise
        except Exception: pass      # the state before the loop need not suit a later iteration: this run only finds what is modified
        post = get()
        return post
    def wrapped(): 
        post = onecall()
        snap = {}
        for kk, (st, fn, sh) in C.JOURNALS[-1].stors.items(): snap[("stor", kk)] = (st, st._fn, fn)
        lists = {kk: (l, l.pre, l.rawlist(), pre_, items_) for kk, (l, pre_, items_) in C.JOURNALS[-1].lists.items()}
        attrs = []
        for o, s in C.JOURNALS[-1].objs.values():
            a, b = attrs_of_snap(s), attrs_of(o)
            for k in set(a) | set(b):
                if a.get(k, Loc) is not b.get(k, Loc): attrs.append((o, k, a.get(k, Loc), b.get(k, Loc)))
        rngs = [(g, s0, g.state) for g, s0 in C.JOURNALS[-1].rngs.values()]
        dicts = [(d, s, dict(d)) for d, s in C.JOURNALS[-1].dicts.values() if any(d.get(k, Loc) is not s.get(k, Loc) for k in set(d) | set(s))]
        return post, snap, lists, attrs, rngs, dicts
    loc = Local(ctx)

    def classify(paths):
        """add newly modified locations to locs; True if anything new"""
        new = False
        for pc, (post, snap, lists, attrs, rngs, dicts), jr in paths:
            if dicts: raise Unsupported(f"loop {where}: dictionary modified over a symbolic range")
            for nme, v in post.items():
                if nme not in pre: continue
                v0 = pre[nme]
                if v is state_now.get(("local", nme), v0): continue
                new |= add_value_loc(("local", nme), v0, v)
            for o, k, a, b in attrs:
                if id(o) in fresh_objs(jr): continue
                if a is Loc and not loose: raise NeedPeel(f"new attribute {k}")
                if a is Loc:
                    if ("attr", id(o), k) not in locs:
                        l = Loc(("attr", id(o), k), "obj"); l.v0, l.o = None, o
                        locs[l.key] = l; new = True
                    continue
                new |= add_value_loc(("attr", id(o), k), a, b, o)
            for kk, (st, fnew, fold) in snap.items():
                if kk not in locs:
                    l = Loc(kk, "stor"); l.st = st; l.v0 = st._fn; locs[kk] = l; new = True
            for kk, (l0, pre1, items1, pre0, items0) in lists.items():
                key = ("list", kk)
                if key in locs: continue
                n0, n1 = llen(pre0, items0), llen(pre1, items1)
                c = canon(R.sub(n1, n0))
                l = Loc(key, "list"); l.lst = l0; l.v0 = (pre0, items0); l.c = c; l.cand = None
                if R.is_sym(c):
                    l.cand = list_candidate(l, n0, n1, pre1, items1, pc)
                    if l.cand is None: raise Unsupported(f"loop {where}: list growth is not constant")
                locs[key] = l; new = True
            for g, s0, s1 in rngs:
                key = ("rng", g.name)
                if key not in locs:
                    l = Loc(key, "rng"); l.g = g; l.v0 = g.state; locs[key] = l; new = True
        return new
    def fresh_objs(jr): return ()
    def list_candidate(l, n0, n1, pre1, items1, pc):
        """invariant offered by the contract for a list that grows by varying amounts: before iteration j it has length(j) items item(0), item(1), ...
        Here only the matching one is picked; that it holds initially and is kept is checked below."""
        t = VList(items1); t.pre = pre1
        k = R.fresh_int("k")
        base_ = ctx.assumed + rng + [pc, k >= 0, R.lt(k, R.sub(n1, n0))]
        for length, item in getattr(ctx, "list_candidates", lambda: ())():
            saved = ctx.assumed, ctx._cache
            ctx.assumed, ctx._cache = [x for x in base_ if R.is_sym(x)], {}
            try:
                a, b = t.item(canon(R.add(n0, k))), item(canon(R.add(length(j), k)))
                if not (is_num(a) and is_num(b)): continue
                if ctx.P.prove(ctx.assumed, R.eq(unwrap(a), unwrap(b)), 3000)[0] == "proved": return length, item
            finally: ctx.assumed, ctx._cache = saved
        return None
    def llen(pre_, items): return builtins.len(items) if pre_ is None else R.add(pre_[0], builtins.len(items))
    def add_value_loc(key, v0, v, o=None):
        if key in locs: return False
        try: return add_value_loc_(key, v0, v, o)
        except NeedPeel:
            if not loose: raise
            l = Loc(key, "obj")          # arbitrary, unusable value at the head of an iteration
            l.v0, l.o = v0, o
            locs[key] = l
            return True
    def add_value_loc_(key, v0, v, o=None):
        if is_num(v0) and is_num(v):
            l = Loc(key, "num")
            k0, k1 = R.kind(unwrap(v0)), R.kind(unwrap(v))
            l.k = k0 if k0 == k1 else ('r' if 'r' in (k0, k1) else 'i')
            if l.k == 'i':
                # tentative invariant "grows by the same amount in every iteration"; dropped unless every path of an iteration starting in it keeps it
                d = canon(R.sub(unwrap(v), unwrap(v0)))
                if not (R.is_sym(d) and N.mentions(d, j)): l.guess = (lambda a, d: lambda jj: canon(R.add(a, R.mul(jj, d))))(unwrap(v0), d)
        elif is_text(v0) and is_text(v) and "textfs" in ctx.ghost:
            if str.__eq__(v0, v): return False
            l = Loc(key, "num"); l.k = "s"
        elif isinstance(v0, A.Arr) and isinstance(v, A.Arr):
            if v0.lib != v.lib or len(v0._shape) != len(v._shape): raise NeedPeel(f"{key[1]} changes rank")
            if v0.st.dtype != v.st.dtype: raise NeedPeel(f"{key[1]} changes dtype")
            l = Loc(key, "arr")
            for ax, (a, b) in enumerate(zip(v0._shape, v._shape)):
                if dims_eq(a, b): continue
                c = canon(R.sub(b, a))
                if R.is_sym(c) and N.mentions(c, j): raise NeedPeel(f"{key[1]} changes shape")
                if l.grow is not None: raise NeedPeel(f"{key[1]} changes shape in two dimensions")
                if not R.is_sym(c) and c < 0: raise NeedPeel("shrinking array")
                l.grow = (ax, c)
        elif isinstance(v0, VList) and isinstance(v, VList):
            l = Loc(key, "obj")          # a new list in every iteration: unusable before it is bound again
        else:
            if type(v0) is not type(v) and not isinstance(v0, Poison): raise NeedPeel(f"{key[1]} changes type")
            if isinstance(v, (str, tuple)) and not isinstance(v0, Poison) and v0 == v: return False
            l = Loc(key, "obj")
        l.v0, l.o = v0, o
        locs[key] = l
        return True

    def havoc():
        """install arbitrary values; returns nothing (journalled by the caller)"""
        d = dict(pre)
        state_now.clear()
        for key, l in locs.items():
            if l.kind == "num" and l.guess is not None: val = wrap(l.guess(j))
            elif l.kind == "num":
                if l.h is None: l.h = {"i": R.fresh_int, "r": R.fresh_real, "b": R.fresh_bool, "s": lambda p: z3.Const(R.fresh_name(p), R.STR)}[l.k]("h")
                val = wrap(l.h)
            elif l.kind == "arr":
                v0 = l.v0
                if l.h is None:
                    srt = {'r': R.REAL, 'i': R.INT, 'b': R.BOOL}[v0.kd]
                    l.h = z3.Function(R.fresh_name("ha"), *([R.INT] * len(v0._shape)), srt) if v0._shape else z3.Const(R.fresh_name("ha"), srt)
                    sh = builtins.list(v0._shape)
                    if l.grow: sh[l.grow[0]] = canon(R.add(sh[l.grow[0]], R.mul(j, l.grow[1])))
                    l.shape = tuple(sh)
                hh = l.h
                val = A.mk(v0.lib, l.shape, (lambda hh: lambda idx: hh(*[R.z(i) for i in idx]))(hh) if v0._shape else (lambda hh: lambda idx: hh)(hh), v0.st.dtype)
            elif l.kind == "stor":
                st = l.st
                if l.h is None:
                    srt = {'r': R.REAL, 'i': R.INT, 'b': R.BOOL}[A.dkind(st.dtype)]
                    l.h = z3.Function(R.fresh_name("hs"), *([R.INT] * len(st.shape)), srt) if st.shape else z3.Const(R.fresh_name("hs"), srt)
                hh = l.h
                st.set((lambda hh: lambda idx: hh(*[R.z(i) for i in idx]))(hh) if st.shape else (lambda hh: lambda idx: hh)(hh))
                continue
            elif l.kind == "list":
                pre0, items0 = l.v0
                from .seq import note_list
                note_list(l.lst)
                builtins.list.clear(l.lst)
                if l.cand is not None:
                    l.lst.pre = (canon(l.cand[0](j)), l.cand[1]); continue
                if pre0 is None and not items0 and not R.is_sym(l.c) and l.c == 0: continue      # empty before and (checked below) after every iteration
                n0 = llen(pre0, items0)
                v0 = (pre0, items0)
                def item(k, l=l, n0=n0, v0=v0):
                    if cur().entails(R.lt(k, n0)):
                        t = VList(v0[1]); t.pre = v0[0]; return t.item(k)
                    raise Unsupported("list element written by the same loop is read")
                l.lst.pre = (canon(R.add(n0, R.mul(j, l.c))), item)
                continue
            elif l.kind == "rng":
                if l.h is None: l.h = R.fresh_int("hrng")
                for jj in C.JOURNALS: jj.note_rng(l.g)
                l.g.state = l.h
                continue
            else: val = Poison(f"{key[1]} inside {where}")
            state_now[key] = val
            if key[0] == "local": d[key[1]] = val
            else:
                note_attr(l.o, key[2]); setattr(l.o, key[2], val)
        return d

    state_now = {}
    try:
        # probe
        def probe():
            return wrapped()
        paths = loc.run(probe, rng, record=False)
        set_(pre)
        if not paths: raise PathEnd()
        classify(paths)
        for rounds in range(9):
            def step():
                nonlocal_pre = havoc()
                # after havoc the journal snapshot is the pre-loop state; record the havocked state
                set_(nonlocal_pre)
                body(it.item(canon(R.add(base, j)) if not (not R.is_sym(base) and base == 0) else j))
                post = get()
                jr = C.JOURNALS[-1]
                snap = {("stor", kk): (st, st._fn, fn) for kk, (st, fn, sh) in jr.stors.items()}
                lists = {kk: (l, l.pre, l.rawlist(), p0, i0) for kk, (l, p0, i0) in jr.lists.items()}
                attrs = []
                for o, s in jr.objs.values():
                    a, b = attrs_of_snap(s), attrs_of(o)
                    for k in set(a) | set(b):
                        if a.get(k, Loc) is not b.get(k, Loc): attrs.append((o, k, a.get(k, Loc), b.get(k, Loc)))
                rngs = [(g, s0, g.state) for g, s0 in jr.rngs.values()]
                dicts = [(d, s, dict(d)) for d, s in jr.dicts.values() if any(d.get(k, Loc) is not s.get(k, Loc) for k in set(d) | set(s))]
                # templates are evaluated inside the iteration's context
                vals = {}
                for key, l in locs.items():
                    l.j = j
                    vals[key] = template(l, post)
                return post, snap, lists, attrs, rngs, dicts, vals
            paths = loc.run(step, rng, record=not getattr(ctx, "exact_loops", False))
            set_(pre)
            if not paths: raise PathEnd()
            again = classify([(pc, r[:6], jr) for pc, r, jr in paths])
            for key, l in locs.items():
                if l.guess is None or any(key not in r[6] for _, r, _ in paths): continue
                if not all(ctx.P.prove([x for x in ctx.assumed + rng + [pc] if R.is_sym(x)], R.eq(r[6][key][1], l.guess(R.add(j, 1))), 2000)[0] == "proved" for pc, r, _ in paths):
                    l.guess = None; again = True
            if not again: break
        else: raise Unsupported(f"loop {where}: modified set does not stabilise")
    finally:
        set_(pre)
    # merge paths
    merged = {}
    for key, l in locs.items():
        vs = [(pc, r[6][key]) for pc, r, _ in paths]
        merged[key] = merge_templates(vs, l, where)
    solved = solve(ctx, locs, merged, j, m, where, paths)
    if getattr(ctx, "exact_loops", False):
        # obligations of an arbitrary iteration, from the state its closed form says it starts in
        def exact():
            d = dict(pre)
            for key, l in locs.items():
                v = final_value(l, j, j, where)
                if key[0] == "local": d[key[1]] = v
                else: install(key, l, v)
            set_(d)
            body(it.item(canon(R.add(base, j)) if not (not R.is_sym(base) and base == 0) else j))
        try: loc.run(exact, rng, record=True)
        finally: set_(pre)
    # install the final state
    final = dict(pre)
    for pc, r, _ in paths[:1]:
        for nme in r[0]:
            if nme not in pre: final[nme] = Poison(f"{nme} after loop {where}")
    names_after = set()
    for pc, r, _ in paths: names_after |= set(r[0])
    for nme in names_after:
        if nme not in pre: final[nme] = Poison(f"{nme} after loop {where}")
    for key, l in locs.items():
        v = final_value(l, m, j, where)
        if key[0] == "local": final[key[1]] = v
        else: install(key, l, v)
    set_(final)
    return solved, [pc for pc, r, _ in paths], j

def install(key, l, v):
    """make v the value of a location"""
    if key[0] == "attr": note_attr(l.o, key[2]); setattr(l.o, key[2], v)
    elif l.kind == "stor": l.st.set(v)
    elif l.kind == "rng":
        for jj in C.JOURNALS: jj.note_rng(l.g)
        l.g.state = v
    elif l.kind == "list":
        from .seq import note_list
        note_list(l.lst)
        builtins.list.clear(l.lst); l.lst.pre = None
        if v[0] is not None: l.lst.pre = v[0]
        builtins.list.extend(l.lst, v[1])

def template(l, post):
    """value of the location after the iteration as (idxvars, term, extra)"""
    if l.kind == "num":
        v = post[l.key[1]] if l.key[0] == "local" else getattr(l.o, l.key[2])
        if l.k == "s":
            from . import strs
            if not is_text(v): raise NeedPeel("text changes type in the loop")
            return (), strs.term(v), None
        r = unwrap(v)
        return (), ({"r": R.to_real, "i": R.to_int_exact, "b": R.truth}[l.k](r) if l.k != R.kind(r) else r), None
    if l.kind == "arr":
        v = post[l.key[1]] if l.key[0] == "local" else getattr(l.o, l.key[2])
        if not isinstance(v, A.Arr) or v.lib != l.v0.lib or v.st.dtype != l.v0.st.dtype or len(v._shape) != len(l.shape):
            raise NeedPeel("array changes type in the loop")
        want = builtins.list(l.shape)
        if l.grow: want[l.grow[0]] = canon(R.add(want[l.grow[0]], l.grow[1]))
        if not same_shape(v._shape, want): raise NeedPeel("array shape is not linear in the iteration")
        iv = fresh_idx(l.shape)
        return iv, eval_at(v.reader(), iv, v._shape), None
    if l.kind == "stor":
        iv = fresh_idx(l.st.shape)
        return iv, eval_at(l.st._fn, iv, l.st.shape), None
    if l.kind == "rng": return (), l.g.state, None
    if l.kind == "list":
        pre0, items0 = l.v0
        items = l.lst.rawlist()
        if l.cand is not None:
            k = R.fresh_int("k"); jj = l.j
            n1 = l.cand[0](R.add(jj, 1))
            if not cur().entails(R.eq(l.lst.length(), n1)): raise Unsupported("the length of a list is not the one claimed by its invariant")
            c = cur(); saved = c.assumed, c._cache
            c.assumed, c._cache = c.assumed + [k >= 0, R.lt(k, n1)], {}
            try:
                if not c.entails(R.eq(unwrap(l.lst.item(k)), unwrap(l.cand[1](k)))): raise Unsupported("the items of a list are not those claimed by its invariant")
            finally: c.assumed, c._cache = saved
            return (), None, []
        if pre0 is None and not items0 and not R.is_sym(l.c) and l.c == 0:
            if l.lst.pre is not None or items: raise Unsupported("list is not empty after the iteration")
            return (), None, []
        if l.lst.pre is None or builtins.len(items) != l.c: raise Unsupported("list is not only appended to in the loop")
        return (), None, items
    return (), None, None

def eval_at(rd, iv, shape):
    c = cur()
    saved = (list(c.assumed), c._cache)
    for i, d in zip(iv, shape): c.assumed = c.assumed + [i >= 0] + ([R.lt(i, d)] if R.is_sym(R.lt(i, d)) else [])
    c._cache = {}
    n = builtins.len(c.assumed)
    try: 
        v = rd(iv)
        return v
    finally:
        extra = c.assumed[n:]      # decisions taken while evaluating stay in the path
        c.assumed, c._cache = saved[0] + extra, {}

def merge_templates(vs, l, where):
    pc, (iv, t, x) = vs[-1]
    for pc2, (iv2, t2, x2) in reversed(vs[:-1]):
        if l.kind == "list":
            x = [merge_val(pc2, a, b, where) for a, b in zip(x2, x)]
            continue
        if l.kind == "obj": continue
        t2 = subst(t2, builtins.list(zip(iv2, iv)))
        t = R.ite(pc2, t2, t)
    return iv, t, x
def merge_val(c, a, b, where):
    if a is b: return a
    if is_num(a) and is_num(b): return wrap(R.ite(c, unwrap(a), unwrap(b)))
    if isinstance(a, A.Arr) and isinstance(b, A.Arr) and same_shape(a._shape, b._shape):
        ra, rb = a.reader(), b.reader()
        return A.mk(a.lib, a._shape, lambda i: R.ite(c, ra(i), rb(i)), a.st.dtype)
    if type(a) is tuple and type(b) is tuple and builtins.len(a) == builtins.len(b): return tuple(merge_val(c, x, y, where) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList):
        if a.pre is None and b.pre is None and builtins.list.__len__(a) == builtins.list.__len__(b):
            return VList([merge_val(c, x, y, where) for x, y in zip(a.rawlist(), b.rawlist())])
        a, b = a.copy(), b.copy()
        none = lambda l: l.pre is None and builtins.list.__len__(l) == 0
        # an empty list has no items to merge
        if none(a): return VList.sym(R.ite(c, 0, b.length()), b.item)
        if none(b): return VList.sym(R.ite(c, a.length(), 0), a.item)
        return VList.sym(R.ite(c, a.length(), b.length()), lambda k: merge_val(c, a.item(k), b.item(k), where))
    return Poison(f"value appended in loop {where}: it depends on the path taken")

def solve(ctx, locs, merged, j, m, where, paths):
    todo = [l for l in locs.values() if l.kind in ("num", "arr", "stor", "rng", "list")]
    solved = []
    def unknown_decl(l): return l.h if isinstance(l.h, z3.FuncDeclRef) else l.h.decl()
    hv = [l for l in todo if l.h is not None]
    for l in todo:
        if l.kind == "rng":
            # the state after j iterations: a function of the initial state, named by the transition of the body
            s0, T = l.v0, merged[l.key][1]
            if l.h is not None and not any(mentions_decl(T, unknown_decl(o)) for o in hv):
                # reseeded by every iteration: the state that the last one leaves
                l.closed = (lambda s0, T: lambda jj, idx: R.ite(R.eq(jj, 0), s0, z3.substitute(T, (j, R.z(R.sub(jj, 1))))))(s0, T)
                l.T = T; l.iv = ()
                solved.append(l); continue
            try: T = ctx.P.NM.canon(T)
            except Unsupported: pass
            T = z3.substitute(T, (l.h, z3.Int("st!")), (j, z3.Int("it!"))) if l.h is not None else T
            f = z3.Function("rngloop!" + hashlib.md5(T.sexpr().encode()).hexdigest()[:16], R.INT, R.INT, R.INT)
            l.closed = (lambda s0, f: lambda jj, idx: f(s0, R.z(jj)))(s0, f)
            ctx.assume(f(s0, z3.IntVal(0)) == s0)
            l.T = merged[l.key][1]; l.iv = ()
            solved.append(l)
    rest = [l for l in todo if l.kind in ("num", "arr", "stor")]
    for l in rest: l.iv, l.T, _ = merged[l.key]
    progress = True
    while rest and progress:
        progress = False
        for l in builtins.list(rest):
            T = l.T
            for s in solved: T = apply_closed(T, s, j)
            deps = [o for o in hv if o is not l and o not in solved and mentions_decl(T, unknown_decl(o))]
            if deps: continue
            l.T = T
            f = close(ctx, l, T, j, m) if l.guess is None else lambda jj, idx, l=l: l.guess(jj)
            if f is None and l.kind == "num": f = by_invariant(ctx, l, T, j, m)
            if f is None: continue
            l.closed = f
            solved.append(l); rest.remove(l); progress = True
    for l in rest:
        # opaque iterate: arbitrary function of the iteration (sound havoc)
        opaque(ctx, l, rest, j, m, where)
        solved.append(l)
    fresh = {}
    for _, _, jr in paths: fresh.update(jr.fresh)
    cp = Copier(solved, j, m, fresh if builtins.len(paths) == 1 else None)
    for l in todo:
        if l.kind == "list" and l.cand is not None:
            pre0, items0 = l.v0
            n0 = builtins.len(items0) if pre0 is None else R.add(pre0[0], builtins.len(items0))
            if not (not R.is_sym(n0) and n0 == 0) or not ctx.entails(R.eq(l.cand[0](0), 0)): raise Unsupported(f"loop {where}: the invariant of a list does not hold initially")
            continue
        if l.kind == "list":
            l.items = merged[l.key][2]
            l.subst = lambda v, jj, cp=cp: cp.copy(v, jj)
    return solved

def apply_closed(T, s, j, jj=None):
    jj = j if jj is None else jj
    if not R.is_sym(T) or s.h is None: return T
    if isinstance(s.h, z3.FuncDeclRef):
        if not mentions_decl(T, s.h): return T
        return subst_fun(T, s.h, lambda *idx: s.closed(jj, idx))
    if not mentions_decl(T, s.h.decl()): return T
    return subst(T, [(s.h, s.closed(jj, ()))])

def fin_or(c0, v0, v): return R.ite(c0, v0, v)

def close(ctx, l, T, j, m):
    """closed form (value before iteration jj) or None"""
    v0 = (lambda idx: l.v0(idx)) if l.kind == "stor" else (l.v0.reader() if l.kind == "arr" else (lambda idx: conv(l, start_of(l))))
    iv = l.iv
    isf = isinstance(l.h, z3.FuncDeclRef)
    decl = l.h if isf else l.h.decl()
    if l.grow:
        ax, c = l.grow
        s0 = l.v0._shape[ax]
        # old part unchanged
        here = R.and_(*[R.ge(i, 0) for i in iv], R.lt(iv[ax], R.add(s0, R.mul(j, c))))
        st, _, _ = ctx.P.prove(ctx.assumed + [j >= 0, R.lt(j, m), here], R.eq(T, l.h(*hz(iv))), 3000)
        if st != "proved": return None
        if not R.is_sym(c) and c == 1:
            V = canon(subst(T, [(iv[ax], R.add(s0, j))]))
            if mentions_decl(V, decl): V = strip_ite(ctx, V, [j >= 0])
            if mentions_decl(V, decl): return None
            def closed(jj, idx):
                jx = canon(R.sub(idx[ax], s0))
                v = subst(V, [(j, jx)] + [(a, b) for k, (a, b) in enumerate(zip(iv, idx)) if k != ax])
                return R.ite(R.lt(idx[ax], s0), v0(tuple(idx)), v) if not A.is0(s0) else v
        else:
            r = R.fresh_int("r")
            V = strip_ite(ctx, canon(subst(T, [(iv[ax], R.add(R.add(s0, R.mul(j, c)), r))])), [j >= 0, r >= 0, R.lt(r, c)])
            if mentions_decl(V, decl): return None
            def closed(jj, idx):
                off = canon(R.sub(idx[ax], s0))
                q, rr = A.smart_divmod(off, c)
                v = subst(V, [(j, q), (r, rr)] + [(a, b) for k, (a, b) in enumerate(zip(iv, idx)) if k != ax])
                return R.ite(R.lt(idx[ax], s0), v0(tuple(idx)), v) if not A.is0(s0) else v
        return closed
    Tc = canon(T)
    if not mentions_decl(Tc, decl):
        def closed(jj, idx):
            t = subst(Tc, [(j, R.sub(jj, 1))] + builtins.list(zip(iv, idx)))
            if not R.is_sym(jj): return v0(tuple(idx)) if jj == 0 else t
            if cur().entails(R.gt(jj, 0)): return t
            return R.ite(R.eq(jj, 0), v0(tuple(idx)), t)
        return closed
    # replace the self reference at the same index by a constant
    hc = z3.Const(R.fresh_name("self"), decl.range())
    ok = [True]
    def at(*idx):
        if all((a is b) or (R.is_sym(a) and a.eq(b)) for a, b in zip([R.z(x) for x in idx], hz(iv))): return hc
        ok[0] = False
        return l.h(*[R.z(i) for i in idx])
    T1 = subst_fun(Tc, l.h, at) if isf else subst(Tc, [(l.h, hc)])
    if not ok[0]:
        # the body may write back what it read
        st, _, _ = ctx.P.prove(ctx.assumed + [j >= 0, R.lt(j, m)] + [R.ge(i, 0) for i in iv], R.eq(T, l.h(*hz(iv))), 3000)
        return (lambda jj, idx: v0(tuple(idx))) if st == "proved" else None
    if decl.range() in (R.REAL, R.INT):
        try:
            D = canon(R.sub(T1, hc))
        except Unsupported: D = T1
        if mentions_decl(D, hc.decl()) and hc.sort() == R.REAL:
            D1 = increment(T1, hc)
            if D1 is not None: D = D1
        if not mentions_decl(D, hc.decl()):
            isint = decl.range() == R.INT
            def closed(jj, idx):
                d = lambda t: subst(D, [(j, t)] + builtins.list(zip(iv, idx)))
                if not (R.is_sym(D) and N.mentions(D, j)):
                    s = R.mul(R.to_real(jj) if not isint else jj, d(0))
                else:
                    s = N.sum_(jj, lambda t: R.to_real(d(t)))
                    if isint: s = R.trunc(s)
                return R.add(v0(tuple(idx)), s)
            return closed
    if decl.range() == R.REAL and not iv:
        c = ratio(T1, hc)
        if c is not None: return lambda jj, idx: R.mul(v0(tuple(idx)), R.powi(c, jj))
    # write at index:  ite(c, V, self)
    w = split_write(ctx, T1, hc)
    if w is not None:
        c, V = w
        if not mentions_decl(V, hc.decl()) and not mentions_decl(c, hc.decl()):
            sol = solve_index(c, j, iv)
            if sol is not None:
                def closed(jj, idx):
                    mp = builtins.list(zip(iv, idx))
                    js = canon(subst(sol, mp))
                    cc = subst(c, [(j, js)] + mp)
                    cond = R.and_(R.ge(js, 0), R.lt(js, jj), R.val(cc) if R.is_sym(cc) else cc)
                    return R.ite(cond, subst(V, [(j, js)] + mp), v0(tuple(idx)))
                return closed
    return None

def increment(t, hc):
    """t - hc, when every branch of t adds something that does not depend on hc; else None"""
    if not mentions_decl(t, hc.decl()): return None
    if t.eq(hc): return R.val(z3.IntVal(0) if hc.sort() == R.INT else z3.RealVal(0))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if mentions_decl(c, hc.decl()): return None
        da, db = increment(a, hc), increment(b, hc)
        return None if da is None or db is None else R.ite(R.val(c), da, db)
    if z3.is_add(t):
        own = [x for x in t.children() if mentions_decl(x, hc.decl())]
        if builtins.len(own) != 1: return None
        r = increment(own[0], hc)
        if r is None: return None
        for x in t.children():
            if x is not own[0] and not x.eq(own[0]): r = R.add(r, R.val(x))
        return r
    return None
def by_invariant(ctx, l, T, j, m):
    """closed form offered by the contract (an invariant x = cand(j)), accepted only if it holds initially and is kept by an arbitrary iteration"""
    for cand in getattr(ctx, "loop_candidates", ()):
        c0, cj, c1 = cand(0), cand(j), cand(R.add(j, 1))
        if R.kind(cj) != l.k: continue
        if ctx.P.prove(ctx.assumed, R.eq(c0, conv(l, start_of(l))), 2000)[0] != "proved": continue
        if ctx.P.prove(ctx.assumed + [j >= 0, R.lt(j, m)], R.eq(subst(T, [(l.h, cj)]), c1), 5000)[0] == "proved":
            return lambda jj, idx, cand=cand: cand(jj)
    return None
def ratio(t, hc):
    """t == c*hc for a rational constant c"""
    nm = N.Norm()
    try: p = nm.poly(t)
    except Unsupported: return None
    if builtins.len(p) != 1: return None
    (mo, c), = p.items()
    return c if builtins.len(mo) == 1 and mo[0][1] == 1 and nm.atoms[mo[0][0]].eq(hc) else None
def start_of(l):
    if l.kind == "num" and l.k == "s":
        from . import strs
        return strs.term(l.v0)
    return unwrap(l.v0)
def conv(l, r):
    if l.k == "s": return r
    return {"r": R.to_real, "i": R.to_int_exact, "b": R.truth}[l.k](r) if l.k != R.kind(r) else r

def strip_ite(ctx, t, extra):
    """resolve ite conditions decided by the context"""
    if not R.is_sym(t): return t
    memo = {}
    def go(x):
        if x.get_id() in memo: return memo[x.get_id()][1]
        r = x
        if z3.is_app(x) and x.num_args():
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                if ctx.P.prove(ctx.assumed + extra, c, 1500)[0] == "proved": r = go(x.arg(1))
                elif ctx.P.prove(ctx.assumed + extra, z3.Not(c), 1500)[0] == "proved": r = go(x.arg(2))
                else: r = z3.If(c, go(x.arg(1)), go(x.arg(2)))
            elif not any(z3.is_quantifier(k) for k in x.children()):
                r = rebuild(x, [go(k) for k in x.children()])
        memo[x.get_id()] = (x, r)
        return r
    return R.val(go(t))

def split_write(ctx, t, hc):
    """t == ite(c, V, hc) ? -> (c, V)"""
    if not R.is_sym(t): return None
    if t.eq(hc): return (z3.BoolVal(False), hc)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if b.eq(hc): return c, R.val(a)
        if a.eq(hc): return R.not_(c), R.val(b)
        if mentions_decl(a, hc.decl()):
            w = split_write(ctx, a, hc)
            if w is not None and not mentions_decl(b, hc.decl()):
                return R.or_(R.not_(c), w[0]), R.ite(c, w[1], R.val(b))
        if mentions_decl(b, hc.decl()):
            w = split_write(ctx, b, hc)
            if w is not None and not mentions_decl(a, hc.decl()):
                return R.or_(c, w[0]), R.ite(c, R.val(a), w[1])
            if w is not None and mentions_decl(a, hc.decl()):
                w2 = split_write(ctx, a, hc)
                if w2 is not None:
                    return R.or_(R.and_(c, w2[0]), R.and_(R.not_(c), w[0])), R.ite(c, w2[1], w[1])
    return None

def solve_index(c, j, iv):
    """c entails  i_d == a*j+b  with a=+-1 : return j as a term of the indices"""
    cs = builtins.list(c.children()) if z3.is_and(c) else [c]
    nm = N.Norm()
    for q in cs:
        if not z3.is_eq(q) or q.arg(0).sort() != R.INT: continue
        if not N.mentions(q, j): continue
        p = nm.padd(nm.poly(q.arg(0)), nm.poly(q.arg(1)), -1)
        key = None
        for mo in p:
            if any(N.mentions(nm.atoms[i], j) for i, e in mo):
                if len(mo) == 1 and mo[0][1] == 1 and nm.atoms[mo[0][0]].eq(j) and key is None: key = mo
                else: key = False
        if not key: continue
        a = p[key]
        if abs(a) != 1: continue
        rest = {k: v for k, v in p.items() if k != key}
        t = nm.term({k: -v / a for k, v in rest.items()}, R.INT)
        if any(N.mentions(t, i) for i in iv): return t
    # an equality hidden in the condition (two inequalities of a slice of length one, several branches, ...)
    atoms, seen = [], set()
    def gather(x):
        if x.get_id() in seen: return
        seen.add(x.get_id())
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x):
            for y in x.children(): gather(y)
        elif x.num_args() == 2 and x.arg(0).sort() == R.INT and N.mentions(x, j): atoms.append(x)
    gather(c)
    tried = set()
    for q in atoms:
        try: p = nm.padd(nm.poly(q.arg(0)), nm.poly(q.arg(1)), -1)
        except Unsupported: continue
        ks = [mo for mo in p if any(N.mentions(nm.atoms[i], j) for i, e in mo)]
        if len(ks) != 1 or len(ks[0]) != 1 or ks[0][0][1] != 1 or not nm.atoms[ks[0][0][0]].eq(j) or abs(p[ks[0]]) != 1: continue
        t = nm.term({k: -v / p[ks[0]] for k, v in p.items() if k != ks[0]}, R.INT)
        if t.get_id() in tried or not any(N.mentions(t, i) for i in iv): continue
        tried.add(t.get_id())
        sv = z3.Solver(); sv.set("timeout", 1000); sv.add(c); sv.add(t != j)
        if sv.check() == z3.unsat: return t
    return None

_opaque_cnt = itertools.count()
def opaque(ctx, l, rest, j, m, where):
    f = None
    nidx = len(l.iv)
    sort = l.h.range() if isinstance(l.h, z3.FuncDeclRef) else l.h.sort()
    nm = f"iter!{next(_opaque_cnt)}"     # never reused: range facts are attached to the name
    f = z3.Function(nm, R.INT, *([R.INT] * nidx), sort)
    v0 = (lambda idx: l.v0(idx)) if l.kind == "stor" else (l.v0.reader() if l.kind == "arr" else (lambda idx: conv(l, start_of(l))))
    def closed(jj, idx):
        if not R.is_sym(jj) and jj == 0: return v0(tuple(idx))
        return f(R.z(jj), *[R.z(i) for i in idx])
    if l.grow: raise NeedPeel(f"growing array is not a plain concatenation")
    # inductive range invariants 0 <= x <= 1 (Houdini over two candidates)
    if sort == R.REAL:
        iv = l.iv
        rngi = []
        facts = []
        shp_ = l.shape if l.kind == "arr" else (l.st.shape if l.kind == "stor" else ())
        for i, d in zip(iv, shp_): rngi += [i >= 0, R.lt(i, d)]
        h_at = l.h(*hz(iv)) if isinstance(l.h, z3.FuncDeclRef) else l.h
        for nme, lo, hi in (("ge0", Fraction(0), None), ("le1", None, Fraction(1))):
            P = lambda t: R.ge(t, lo) if lo is not None else R.le(t, hi)
            base_ok = ctx.P.prove(ctx.assumed + rngi, P(v0(iv)), 2000)[0] == "proved"
            if not base_ok: continue
            ind = ctx.P.prove(ctx.assumed + rngi + [j >= 0, R.lt(j, m), P(h_at)], P(l.T), 2000)[0] == "proved"
            if ind: facts.append((lo, hi))
        if facts: C.RANGE_DECLS[nm] = facts
    ctx.notes.append(f"loop {where}: {l.key[1]} abstracted to an opaque iterate")
    l.closed = closed

class Copier:
    """values created by iteration j, as functions of the iteration; storages created by the iteration become
    rows of one backing storage per loop, so that aliases stay aliases and later writes are seen by all of them"""
    def __init__(self, solved, j, m, fresh):
        self.solved, self.j, self.m, self.fresh = builtins.list(solved), j, m, fresh
        self.memo, self.back = {}, {}
    def fix(self, t, jj): return fix(t, jj, self.solved, self.j)
    def copy(self, v, jj):
        if type(v).__name__ == "VStr": return wrap(self.fix(unwrap(v), jj))
        if v is None or isinstance(v, (str, bool, int, Poison)): return v
        if isinstance(v, (S, Fraction, float)): return wrap(self.fix(unwrap(v), jj))
        k = (id(v), A.key(jj))
        hit = self.memo.get(k)
        if hit is not None: return hit[2]
        r = self._copy(v, jj)
        self.memo[k] = (v, jj, r)
        return r
    def _copy(self, v, jj):
        if isinstance(v, tuple): return tuple(self.copy(x, jj) for x in v)
        if isinstance(v, VList) or type(v) is builtins.list:
            if isinstance(v, VList) and v.pre is not None:
                n, it = v.pre
                r = VList.sym(self.fix(n, jj), lambda k: self.copy(it(k), jj))
                builtins.list.extend(r, [self.copy(x, jj) for x in v.rawlist()]); return r
            return VList([self.copy(x, jj) for x in v])
        if isinstance(v, dict):
            r = {k: self.copy(x, jj) for k, x in v.items()}
            C.cur().ghost.setdefault("item_dicts", []).append(r); return r
        if isinstance(v, A.Arr): return self.arr(v, jj)
        r = unwrap(v)
        if r is not None: return wrap(self.fix(r, jj))
        f = getattr(v, "__vc_subst__", None)
        if f is not None: return f(lambda t: self.fix(t, jj), lambda x: self.copy(x, jj))
        if not hasattr(v, "__dict__") or isinstance(v, type): return v
        if callable(v) and not hasattr(v, "forward"):
            if getattr(v, "__closure__", None) and "/yuca/" in getattr(getattr(v, "__code__", None), "co_filename", ""): raise Unsupported("closure created inside a loop over a symbolic range")
            return v
        if self.fresh is not None and id(v) not in self.fresh and not self.depends(v): return v
        o = object.__new__(type(v))
        self.memo[(id(v), A.key(jj))] = (v, jj, o)
        for k, x in v.__dict__.items():
            o.__dict__[k] = self.copy(x, jj) if not callable(x) or isinstance(x, A.Arr) or hasattr(x, "forward") else x
        return o
    def depends(self, v): return True
    def arr(self, v, jj):
        st = v.st
        iv = tuple(R.fresh_int("i") for _ in v._shape)
        sh = tuple(self.fix(d, jj) for d in v._shape)
        if self.fresh is not None and id(st) not in self.fresh:
            back, pre = st, ()                                  # created before the loop: keep the alias
        elif any(R.is_sym(d) and self.fix(d, jj) is not d and not (R.is_sym(self.fix(d, jj)) and self.fix(d, jj).eq(d)) for d in st.shape) or self.fresh is None:
            T = self.fix(v.reader()(iv), jj)
            return self.like(v, A.mk(v.lib, sh, lambda idx: subst(T, builtins.list(zip(iv, idx))), st.dtype), frozen=True)
        else:
            hit = self.back.get(id(st))
            if hit is None:
                sv = tuple(R.fresh_int("i") for _ in st.shape)
                T0 = st._fn(sv)
                def row(idx):
                    return subst(self.fix(T0, idx[0]), builtins.list(zip(sv, idx[1:])))
                hit = self.back[id(st)] = (st, A.Storage((self.m,) + tuple(st.shape), row, st.dtype))
            back, pre = hit[1], (jj,)
        if v.m is None and not pre: return v
        m0 = iv if v.m is None else v.m(iv)
        mT = [self.fix(t, jj) for t in m0]
        m = lambda idx: tuple(pre) + tuple(subst(t, builtins.list(zip(iv, idx))) for t in mT)
        bv = tuple(R.fresh_int("b") for _ in st.shape)
        cond, inv0 = (True, bv) if v.m is None or v.inv is None else v.inv(bv)
        if v.m is not None and v.inv is None: inv = None
        else:
            condT, invT = self.fix(cond, jj), [self.fix(t, jj) for t in inv0]
            k0 = builtins.len(pre)
            def inv(b):
                mp = builtins.list(zip(bv, b[k0:]))
                c = subst(condT, mp)
                if k0: c = R.and_(R.eq(b[0], jj), c)
                return c, tuple(subst(t, mp) for t in invT)
        n = object.__new__(type(v))
        A.Arr.__init__(n, back, sh, m, inv)
        return self.like(v, n)
    def like(self, v, n, frozen=False):
        if type(n) is not type(v):
            o = object.__new__(type(v)); A.Arr.__init__(o, n.st, n._shape, n.m, n.inv); n = o
        if frozen: n.st.frozen = True
        for k, x in v.__dict__.items():
            if k not in ("st", "_shape", "m", "inv", "flat_of"): n.__dict__[k] = x
        return n

def fix(t, jj, solved, j):
    if not R.is_sym(t): return t
    for s in solved: t = apply_closed(t, s, j)
    return subst(t, [(j, jj)])

def final_value(l, m, j, where):
    if l.kind == "obj": return Poison(f"{l.key[1]} after loop {where}")
    if l.kind == "rng": return l.closed(m, ())
    if l.kind == "num": return wrap(l.closed(m, ()))
    if l.kind == "stor": return lambda idx: l.closed(m, idx)
    if l.kind == "arr":
        sh = builtins.list(l.v0._shape)
        if l.grow: sh[l.grow[0]] = canon(R.add(sh[l.grow[0]], R.mul(m, l.grow[1])))
        return A.mk(l.v0.lib, tuple(sh), lambda idx: l.closed(m, idx), l.v0.st.dtype)
    if l.kind == "list":
        pre0, items0 = l.v0
        if l.cand is not None: return (canon(l.cand[0](m)), l.cand[1]), []
        if l.c == 0: return l.v0
        n0 = builtins.len(items0) if pre0 is None else R.add(pre0[0], builtins.len(items0))
        old = VList(items0); old.pre = pre0
        c, items, sub = l.c, l.items, l.subst
        def chunk(k):
            if c == 1: return sub(items[0], k)
            q, r = A.smart_divmod(k, c)
            if not R.is_sym(r): return sub(items[r], q)
            vs = [sub(it, q) for it in items]
            return VList(vs)[wrap(r)]
        new = VList.sym(canon(R.mul(m, c)), chunk)
        from .seq import concat
        r = concat(old, new)
        return r.pre, r.rawlist()

# ---- while -----------------------------------------------------------------
CAP = 12
def wtest(where, t):
    ctx = C.Ctx.cur
    r = unwrap(t) if not isinstance(t, A.Arr) else t.__vc_scalar__()
    if r is None or not R.is_sym(r): return t
    v = ctx.branch(R.truth(r))
    if v:
        k = ("while", where)
        ctx.ghost[k] = ctx.ghost.get(k, 0) + 1
        if ctx.ghost[k] > getattr(ctx, "while_cap", CAP): raise Unsupported(f"loop {where}: unbounded while")
    return v
def while_contract(where):
    """is this loop handled by the rule below (declared by the contract) instead of being unrolled"""
    h = getattr(C.Ctx.cur, "while_rule", None)
    return h is not None and h(where)

def one_iteration(body):
    """-> 'break' if the iteration left the loop"""
    try: body()
    except Escape as e:
        if e.kind == "break": return "break"
        raise Unsupported("return inside a while loop under a contract")
    return None

def sym_while(test, body, get, set_, where):
    """n >= 0 iterations that continue (summarised like a loop over range(n), for an arbitrary n), then one last iteration that leaves the loop.
    Recorded for the contract in ctx.while_log: n and, for an arbitrary iteration, the condition under which it continued."""
    ctx = cur()
    def truth():
        t = test()
        r = t.__vc_scalar__() if isinstance(t, A.Arr) else unwrap(t)
        return builtins.bool(t) if r is None else R.truth(r)
    log = ctx.ghost.setdefault("while_log", [])
    # iterations nothing depends on are executed as they are
    for k in range(CAP):
        t = truth()
        if R.is_sym(t): break
        if not t: return None
        if builtins.len(Local(ctx).run(lambda: one_iteration(body), [], record=False)) > 1: break
        if one_iteration(body): return "break"
    t = truth()
    if R.is_sym(t):
        if not ctx.branch(t):
            log.append({"n": None}); return None
    elif not t: return None
    n = R.fresh_int("iters")
    ctx.assume(n >= 0)
    def continuing(_):
        t = truth()
        if R.is_sym(t): cur().assume(t)
        elif not t: raise PathEnd()
        if one_iteration(body): raise PathEnd()
        t = truth()
        if R.is_sym(t): cur().assume(t)
        elif not t: raise PathEnd()
    ent = {"n": n, "cont": lambda jj: False}
    log.append(ent)
    if ctx.branch(R.gt(n, 0)):
        try: solved, pcs, j = summarise(ctx, SymIter(n, lambda k: None), 0, n, continuing, get, set_, where, True)
        except NeedPeel as e: raise Unsupported(f"loop {where}: {e}")
        ent["cont"] = lambda jj: fix(R.or_(*pcs), jj, solved, j)
    t = truth()
    if R.is_sym(t): ctx.assume(t)
    elif not t: raise PathEnd()
    if one_iteration(body): return "break"
    t = truth()
    if R.is_sym(t): ctx.assume(R.not_(t))
    elif t: raise PathEnd()
    return None
