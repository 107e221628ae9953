import os, shutil, tempfile
import numpy as np
from rt import *
from yuca.zoo.librarian import Librarian
WORDS = ["unspecified", "orbium.npy", "a, b, c", "", " leading", "trailing ", "key,value", "x" * 200, "ca_config,y", "'\"quoted\"'", "tab\there", "naïve – ünïcode", "#", "notes", ",", ",,", "=1", "  two", "None", "0"]
NAMES = ["my_pattern", "glider", "csv_like", "a.py_b", "my.ipynb", "p_7", "glider0", "25P3H1V0.1", "x__pycache__x", "spaced name", "notes", "npy"]
def text(rng): return str(rng.choice(WORDS)) if rng.rand() < .6 else "".join(rng.choice(list("abc ,.;:-_/\\'\"{}%0123"), rng.randint(0, 20)))
def arr(rng):
    sh = tuple(int(v) for v in rng.randint(1, 6, rng.randint(1, 5)))
    k = rng.randint(4)
    return [lambda: rng.rand(*sh), lambda: rng.rand(*sh).astype(np.float32), lambda: rng.randint(-5, 5, sh), lambda: rng.rand(*sh) < .5][k]()
def c_store(c):
    rng = np.random.RandomState(c["seed"])
    d = tempfile.mkdtemp()
    try:
        for junk in ("librarian.py", "__init__.py", "draft.ipynb"): open(os.path.join(d, junk), "w").close()
        os.mkdir(os.path.join(d, "__pycache__"))
        with quiet():
            lib = Librarian(directory=d, verbose=bool(c["verbose"]))
            need(list(lib.index) == [], f"index of a zoo without patterns: {lib.index}")
            want = {}
            libs = [lib, Librarian(directory=d, verbose=False)] if c.get("two") else [lib]     # two librarians of one zoo
            for n in range(c["n"]):
                lib = libs[rng.randint(len(libs))]
                name = str(rng.choice(NAMES[:3] if rng.rand() < .5 else NAMES))
                p = arr(rng); p0 = p.copy(); kw = {}
                if rng.rand() < .5: kw["config_name"] = text(rng)
                if rng.rand() < .5: kw["ca_config"] = text(rng)
                for k in ("entry_point", "commit_hash", "notes"):
                    if rng.rand() < .8: kw[k] = text(rng)
                before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f != "__pycache__"}
                lib.store(p, name, **kw)
                same(p, p0, "store: the array handed over")
                new = sorted(set(os.listdir(d)) - set(before) - {"__pycache__"})
                for f, v in before.items(): need(os.path.exists(os.path.join(d, f)) and open(os.path.join(d, f), "rb").read() == v, f"store({name!r}) after {len(want)} stores: the file {f} of an earlier entry changed")
                need(len(new) == 2 and new[0][:-4] == new[1][:-4] and new[0].startswith(name), f"store({name!r}): new files {new}")
                e = new[0][:-4]
                cfg = kw.get("config_name", "unspecified")
                if cfg == "unspecified": cfg = kw.get("ca_config", "unspecified")
                want[e] = (p0, {"ca_config": cfg, "entry_point": kw.get("entry_point", "not specified"), "commit_hash": kw.get("commit_hash", "not_specified"), "notes": kw.get("notes", "None")})
                need(list(lib.index) == sorted(want), f"the index after {len(want)} stores is {lib.index} instead of {sorted(want)}")
            need(list(Librarian(directory=d, verbose=False).index) == sorted(want), "the index of a new librarian")
            for e in lib.index:
                got, meta = lib.load(e)
                p0, m0 = want[e]
                need(got.dtype == p0.dtype and got.shape == p0.shape and np.array_equal(got, p0), f"load({e!r}): not the stored pattern")
                need(meta == m0, f"load({e!r}): metadata {meta} instead of {m0}")
    finally: shutil.rmtree(d, ignore_errors=True)
def c_old(c):
    rng = np.random.RandomState(c["seed"]); d = tempfile.mkdtemp()
    try:
        p = arr(rng); np.save(os.path.join(d, "old000.npy"), p)
        f = {k: text(rng) for k in ("ca_config", "notes", "commit_hash", "entry_point")}
        rows = [["ca_config"], ["ca_config", "notes"], ["ca_config", "commit_hash", "notes"], ["ca_config", "entry_point", "notes", "commit_hash"]][c["rows"]]
        with open(os.path.join(d, "old000.csv"), "w") as g: g.write("\n".join(f"{k},{' ' if k == 'notes' else ''}{f[k]}" for k in rows) + ("\n" if c["end"] else ""))
        got, meta = Librarian(directory=d, verbose=False).load("old000")
        need(np.array_equal(got, p), "load: pattern")
        want = {k: f[k] if k in rows else dflt for k, dflt in (("ca_config", 0), ("entry_point", "none"), ("commit_hash", "none"), ("notes", ""))}
        need(meta == want, f"load of a file with {rows}: {meta} instead of {want}")
    finally: shutil.rmtree(d, ignore_errors=True)
def c_crop(c):
    rng = np.random.RandomState(c["seed"]); p = rng.rand(*[int(v) for v in rng.randint(1, 8, c["nd"])]); p0 = p.copy()
    H, W = p.shape[-2:]
    r = sorted(int(v) for v in rng.randint(0, H + 1, 2)); k = sorted(int(v) for v in rng.randint(0, W + 1, 2))
    lib = object.__new__(Librarian); lib.verbose = False
    out = lib.crop(p, tuple(r), tuple(k))
    want = p0[..., r[0]:r[1], k[0]:k[1]]
    need(out.shape == want.shape and np.array_equal(out, want), f"crop rows {r}, columns {k} of {p.shape}")
    out[...] = -1
    same(p, p0, "crop: the pattern")
def cases(prop, seed):
    k = 0
    while True:
        s = seed * 100003 + k
        yield {"kind": "store", "seed": s, "n": [3, 1, 6, 13][k % 4], "verbose": k % 2, "two": k % 3 == 1}
        yield {"kind": "old", "seed": s, "rows": k % 4, "end": (k // 4) % 2}
        yield {"kind": "crop", "seed": s, "nd": 2 + k % 3}
        k += 1
CASES = {"C24": {"store": c_store, "old": c_old, "crop": c_crop}}
