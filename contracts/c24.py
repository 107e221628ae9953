"""C24: the librarian returns what was stored"""
from .common import *
from pyvc.core import PathEnd
from pyvc import strs as T
from pyvc.strs import STR
PRELOAD = ["yuca.zoo.librarian"]
ZOO = "/ghost/zoo"
L = "yuca.zoo.librarian.Librarian."
def lib(): return mod("yuca.zoo.librarian")

EXISTS = z3.Function("exists!", STR, R.BOOL)
class Disk(T.Files):
    """files of the zoo: an arbitrary set of files is there before"""
    def __init__(self, h, base=None):
        T.Files.__init__(self, lambda q: EXISTS(T.term(q)), base or (lambda q: Opaque(f"content of {q!s}")))
        h.c.ghost["fs"] = h.c.ghost["textfs"] = self
        h.c.ghost["dirs"] = {ZOO}
class Shelf(T.Files):
    """files of the zoo: exactly the ones listed"""
    def __init__(self, h, names):
        self.files = list(names)
        T.Files.__init__(self, lambda q: R.or_(*[T.equal(q, ZOO + "/" + n) for n in self.files]) if self.files else False, lambda q: Opaque("content"))
        h.c.ghost["fs"] = h.c.ghost["textfs"] = self
        h.c.ghost["dirs"] = {ZOO}
    def listing(self, d):
        out = list(self.files)
        for p in self.names():
            b = T.of_slice(p, d, True) if T.symbolic(p) else p[len(d):]
            if not any(builtins_bool(wrap(T.equal(b, n))) for n in out): out.append(b)
        return out
def builtins_bool(x): return True if x else False

def text(h, name, no="\n\r"):
    """any text without the given characters"""
    T.FREE[name] = set(no)
    t = z3.Const(name, STR)
    for ch in no: h.c.assume(z3.Not(z3.Contains(t, T.lit(ch))))
    return T.of(t)
def title(h, name="name"):
    """a pattern name: no directory separator, not hidden"""
    return text(h, name, "\n\r/\0")
def shelf_name(h, name):
    """the name of an entry of the directory: not empty, not hidden, any other dots allowed"""
    s = text(h, name, "\n\r/\0")
    h.c.assume(R.not_(T.equal(s, ""))); h.c.assume(z3.Not(z3.PrefixOf(T.lit("."), T.term(s))))
    return s
def field(h, name): return text(h, name)
def pattern(h, name="pattern", nd=4, dtype="float32"):
    return h.ndarray(name, tuple(h.int(f"{name}_{k}", 1) for k in range(nd)), dtype=dtype)
def librarian(h, verbose, index=False):
    l = object.__new__(lib().Librarian)
    l.directory, l.config_directory, l.cur_path, l.verbose = ZOO, "/ghost/ca_configs", ZOO, verbose
    l.index = VList([])
    if not index:      # the listing of the directory is the subject of its own contract
        h.c.ghost["indexed"] = []
        object.__setattr__(l, "update_index", lambda: h.c.ghost["indexed"].append(len(h.c.ghost["fs"].log)))
    return l
def rule(h): h.c.while_rule = lambda where: True
def same_text(h, got, want, what):
    if not isinstance(got, str): h.c.fail(what, f"not a text: {type(got).__name__}"); return
    h.ensure(wrap(T.equal(got, want)), what)
def is_pattern(h, got, p, what):
    r = p.reader()
    if h.shape_is(got, p._shape, f"{what}: the shape") is False: return
    h.ensure(got.st.dtype == p.st.dtype, f"{what}: the dtype")
    h.equals(got, p._shape, lambda i: r(i), f"{what}: the values")

def stored(h, disk, since, name):
    """the one entry written: (its name, path of the pattern, path of the metadata)"""
    ps = []
    for p, v in disk.log[since:]:
        if not any(str.__eq__(p, q) for q in ps): ps.append(p)
    arrs = [p for p in ps if isinstance(disk[p], A.Arr)]
    h.ensure(len(arrs) == 1 and len(ps) == 2, "one pattern file and one metadata file are written")
    if len(arrs) != 1: raise PathEnd()
    P = arrs[0]
    Mt = [p for p in ps if p is not P][0]
    pre, suf = ZOO + "/", ".npy"
    ok = str.startswith(P, pre) and str.endswith(P, suf)
    h.ensure(ok, "the pattern file lies in the directory of the librarian")
    if not ok: raise PathEnd()
    entry = T.retag(str.__getitem__(P, slice(len(pre), -len(suf))))
    h.ensure(wrap(T.equal(Mt, pre + entry + ".csv")), "the metadata lies beside the pattern under the same name")
    h.ensure(entry.startswith(name), "the entry is named after the pattern")
    return entry, P, Mt

SUPPLIED = {"a configuration by config_name": dict(config_name=True), "a configuration by ca_config": dict(ca_config=True), "both": dict(config_name=True, ca_config=True), "no configuration": {}}
OTHERS = ("entry_point", "commit_hash", "notes")
def arguments(h, which, tag=""):
    kw = {k: field(h, k + tag) for k in SUPPLIED[which]}
    for k in kw.values(): h.c.assume(R.not_(T.equal(k, "unspecified")))
    kw.update({k: field(h, k + tag) for k in OTHERS})
    return kw, (kw.get("config_name") or kw.get("ca_config") or "unspecified") if False else (kw["config_name"] if "config_name" in kw else kw["ca_config"] if "ca_config" in kw else "unspecified")
def check_loaded(h, l, entry, p, kw, config, what):
    out = h.call("load", l.load, entry)
    if not isinstance(out, tuple) or len(out) != 2: h.c.fail(f"{what}: pattern and metadata", "not a pair"); raise PathEnd()
    got, meta = out
    is_pattern(h, got, p, what)
    h.ensure(isinstance(meta, dict) and set(meta) == {"ca_config", "entry_point", "commit_hash", "notes"}, f"{what}: the metadata fields")
    same_text(h, meta["ca_config"], config, f"{what}: the configuration")
    for k in OTHERS: same_text(h, meta[k], kw[k], f"{what}: {k}")

for which in SUPPLIED:
    for verbose in (True, False):
        @contract("C24", f"a stored pattern is loaded as it was, with {which}, {'verbose' if verbose else 'silent'}", [L + "store", L + "load"])
        def _(h, which=which, verbose=verbose):
            rule(h); d = Disk(h); l = librarian(h, verbose); p = pattern(h); snap = h.snapshot(p)
            name = title(h); kw, config = arguments(h, which)
            h.call("store", l.store, p, name, **kw)
            entry, P, Mt = stored(h, d, 0, name)
            h.ensure(wrap(R.not_(EXISTS(T.term(P)))), "an entry that exists is not overwritten")
            h.unchanged(snap, "the stored array is not changed")
            idx = h.c.ghost["indexed"]
            h.ensure(bool(idx) and idx[-1] == len(d.log), "the index is refreshed after the last write")
            n = len(d.log)
            check_loaded(h, l, entry, p, kw, config, "loaded")
            h.ensure(len(d.log) == n, "loading writes nothing")
            # what is loaded is a copy: changing it changes nothing on disk
            out = l.load(entry)[0]
            out[...] = 0
            check_loaded(h, l, entry, p, kw, config, "loaded again after the first copy was changed")

for nd, dtype in ((2, "float64"), (3, "float32"), (1, "int64"), (4, "uint8"), (2, "bool")):
    @contract("C24", f"patterns of {nd} dimensions ({dtype})", [L + "store", L + "load"])
    def _(h, nd=nd, dtype=dtype):
        rule(h); d = Disk(h); l = librarian(h, False); p = pattern(h, nd=nd, dtype=dtype)
        h.call("store", l.store, p, title(h))
        entry, P, Mt = stored(h, d, 0, title(h))
        is_pattern(h, h.call("load", l.load, entry)[0], p, "loaded")

@contract("C24", "arguments left out are recorded as their placeholders", [L + "store", L + "load"])
def _(h):
    rule(h); d = Disk(h); l = librarian(h, False); p = pattern(h)
    h.call("store", l.store, p)
    entry, P, Mt = stored(h, d, 0, "my_pattern")
    check_loaded(h, l, entry, p, {"entry_point": "not specified", "commit_hash": "not_specified", "notes": "None"}, "unspecified", "loaded")

@contract("C24", "a later store leaves every earlier entry as it was", [L + "store", L + "load"])
def _(h):
    """two stores under arbitrary (possibly equal) names, from an arbitrary state of the directory: with the frame below, the step of an induction over any sequence of stores"""
    rule(h); d = Disk(h); l = librarian(h, False); p, q = pattern(h), pattern(h, "second", 2)
    a, b = title(h, "name"), title(h, "other")
    kw1, c1 = arguments(h, "a configuration by config_name"); kw2, c2 = arguments(h, "a configuration by ca_config", "_2")
    h.call("first store", l.store, p, a, **kw1)
    e1, P1, M1 = stored(h, d, 0, a)
    n = len(d.log)
    h.call("second store", l.store, q, b, **kw2)
    e2, P2, M2 = stored(h, d, n, b)
    check_loaded(h, l, e1, p, kw1, c1, "the first entry")
    check_loaded(h, l, e2, q, kw2, c2, "the second entry")

@contract("C24", "a store touches no other file", [L + "store"])
def _(h):
    rule(h); d = Disk(h); l = librarian(h, False); p = pattern(h); name = title(h)
    kw, c = arguments(h, "both")
    h.call("store", l.store, p, name, **kw)
    entry, P, Mt = stored(h, d, 0, name)
    for w in d.names(): h.ensure(wrap(R.or_(T.equal(w, P), T.equal(w, ZOO + "/" + entry + ".csv"))), "only the entry's own two files are written")
    h.ensure(all(v is not None for _, v in d.log), "nothing is deleted")

# ---- files written by hand or by earlier versions --------------------------------------
OLD = {"configuration and notes": ["ca_config,{ca_config}", "notes, {notes}"],
       "the configuration alone": ["ca_config,{ca_config}"],
       "another order and a final line break": ["ca_config,{ca_config}", "entry_point,{entry_point}", "notes, {notes}", "commit_hash,{commit_hash}", ""]}
for nm, ls in OLD.items():
    @contract("C24", f"a metadata file with {nm}", [L + "load"])
    def _(h, nm=nm, ls=ls):
        vals = {k: field(h, k) for k in ("ca_config",) + OTHERS}
        p = pattern(h)
        entry = title(h)
        body = T.retag("\n".join(x.format(**vals) for x in ls))
        Disk(h, lambda q: body if str.endswith(q, ".csv") else p)
        l = librarian(h, False)
        for ext in (".npy", ".csv"): h.c.assume(EXISTS(T.term(ZOO + "/" + entry + ext)))
        got, meta = h.call("load", l.load, entry)
        is_pattern(h, got, p, "loaded")
        for k, dflt in (("ca_config", None), ("entry_point", "none"), ("commit_hash", "none"), ("notes", "")):
            same_text(h, meta[k], vals[k] if "{" + k + "}" in " ".join(ls) else dflt, f"{k}{'' if '{' + k + '}' in ' '.join(ls) else ' (a placeholder: it was not recorded)'}")

# ---- index ------------------------------------------------------------------------------
def check_index(h, l, stems, what):
    got = l.index.rawlist()
    for s in stems: h.ensure(wrap(R.or_(*[T.equal(g, s) for g in got]) if got else False), f"{what}: every entry is listed")
    for g in got: h.ensure(wrap(R.or_(*[T.equal(g, s) for s in stems]) if stems else False), f"{what}: only entries are listed")
    h.ensure(len(got) == len(stems), f"{what}: every entry is listed once")
    for a, b in zip(got, got[1:]): h.ensure(a <= b, f"{what}: the names are sorted")
BOUND = "directories of at most three entries (of arbitrary names) next to metadata, code and notebook files"
for n in (1, 2, 3):
    @contract("C24", f"the index of a directory of {n} entries", [L + "update_index", L + "__init__"], bounded=BOUND, max_paths=400)
    def _(h, n=n):
        stems = [shelf_name(h, f"entry_{k}") for k in range(n)]
        for i in range(n):
            for k in range(i): h.c.assume(R.not_(T.equal(stems[i], stems[k])))
        names = [s + ".npy" for s in stems] + [stems[0] + ".csv", "librarian.py", "__init__.py", "__pycache__", "notes.ipynb"]
        Shelf(h, [names[(k * 5 + 3) % len(names)] for k in range(len(names))] if len(names) % 5 else names[::-1])
        l = h.call("Librarian", lib().Librarian, directory=ZOO, verbose=False)
        check_index(h, l, stems, "the index")
for n in (0, 1):
    @contract("C24", f"a stored entry is listed ({n} entries before)", [L + "store", L + "update_index", L + "__init__", L + "load"], bounded=BOUND, max_paths=400)
    def _(h, n=n):
        stems = [shelf_name(h, f"entry_{k}") for k in range(n)]
        d = Shelf(h, [s + e for s in stems for e in (".npy", ".csv")] + ["librarian.py"])
        l = h.call("Librarian", lib().Librarian, directory=ZOO, verbose=False)
        rule(h)
        p = pattern(h); name = title(h, "name"); h.c.assume(R.not_(T.equal(name, "")))
        kw, c = arguments(h, "a configuration by config_name")
        h.call("store", l.store, p, name, **kw)
        entry, P, Mt = stored(h, d, 0, name)
        check_index(h, l, stems + [entry], "after the store")
        for k, e in enumerate(l.index.rawlist()):
            if (True if wrap(T.equal(e, entry)) else False): check_loaded(h, l, l.index[k], p, kw, c, "loaded by its place in the index")

# ---- cropping ----------------------------------------------------------------------------
for nd in (2, 3, 4):
    @contract("C24", f"cropping patterns of {nd} dimensions", [L + "crop"])
    def _(h, nd=nd):
        l = librarian(h, False); p = pattern(h, nd=nd); r = p.reader(); snap = h.snapshot(p)
        Hh, W = p._shape[-2:]
        r0, c0 = h.int("r0", 0), h.int("c0", 0); r1, c1 = h.int("r1"), h.int("c1")
        for a, b, n in ((r0, r1, Hh), (c0, c1, W)): h.assume(a <= b); h.assume(b <= wrap(n))
        out = h.call("crop", l.crop, p, (r0, r1), (c0, c1))
        sh = tuple(p._shape[:-2]) + (A.canon_int(R.sub(r1.r, r0.r)), A.canon_int(R.sub(c1.r, c0.r)))
        h.equals(out, sh, lambda i: r(tuple(i[:-2]) + (R.add(i[-2], r0.r), R.add(i[-1], c0.r))), "the cells of rows r0..r1-1 and columns c0..c1-1, over all leading dimensions")
        out[...] = 7
        h.unchanged(snap, "the pattern itself is not changed, not even through the cropped one")
