"""Symbolic text: words over literals and atoms (z3 strings).

A symbolic text is a python `str` whose characters hold markers (private-use code points) in place of the atoms, so that formatting, joining and
concatenating keep it together; the inspecting operations are decided by the prover (paths fork where both answers are possible)."""
import builtins, re
import z3
from . import raw as R, core as C
from .core import S, wrap, unwrap, cur
from .raw import Unsupported

STR = z3.StringSort()
A0, A1 = "\ue000", "\ue001"
MARK = re.compile("\ue000(\\d+)\ue001|\u27e8(\\d+)\u27e9")
TERMS = {}        # marker -> z3 term of sort String
FREE = {}         # name of an atom -> characters it is assumed not to contain
FMT = {}          # format spec -> function Int -> String

def fmt_int(term, spec):
    """text of an integer under a format spec: digits and possibly a sign (the axioms used: it contains nothing else)"""
    if not R.is_sym(term): return format(term, spec)
    if spec not in FMT: FMT[spec] = z3.Function(f"fmt_{spec or 'd'}", R.INT, STR)
    return mark(FMT[spec](term))
def mark(t):
    TERMS[t.get_id()] = t
    return f"{A0}{t.get_id()}{A1}"

def pieces(s):
    """text -> list of str (literals) and z3 terms"""
    out, p = [], 0
    s = str.__str__(s)
    for m in MARK.finditer(s):
        if m.start() > p: out.append(s[p:m.start()])
        if m.group(1): out.append(TERMS[int(m.group(1))])
        else: out.append(TERMS[z3id(fmt_int(C.NAMED[m.group(2)].r, ""))])
        p = m.end()
    if p < builtins.len(s): out.append(s[p:])
    return out
def z3id(mk): return int(mk[1:-1])
def literal(t):
    """python text of a z3 literal"""
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t.as_string())
def lit(s): return z3.StringVal(s)
def term(x):
    """text -> z3 term"""
    if isinstance(x, z3.ExprRef): return x
    ps = [lit(p) if isinstance(p, str) else p for p in pieces(x)]
    if not ps: return lit("")
    return ps[0] if builtins.len(ps) == 1 else z3.Concat(*ps)
def flat(t, out):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in t.children(): flat(c, out)
    elif z3.is_string_value(t): out.append(literal(t))
    else: out.append(t)
    return out
def of(ps):
    """pieces (or a z3 term) -> text: a plain str when nothing symbolic is left"""
    if isinstance(ps, z3.ExprRef): ps = flat(ps, [])
    s = "".join(p if isinstance(p, str) else mark(p) for p in ps)
    return VStr(s) if A0 in s else s
def retag(s):
    """result of a native formatting operation"""
    if type(s) is not str: return s
    return VStr(s) if A0 in s else s
def join(sep, it):
    from . import loops as L
    out = None
    for x in L.viter(it):
        if not isinstance(x, str): raise TypeError("sequence item: expected str instance")
        out = str.__str__(x) if out is None else out + sep + x
    return "" if out is None else retag(out)
def symbolic(s): return isinstance(s, VStr)

SEPS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
DIGITS = set("0123456789-+ ")
def free(t, ch):
    """the term is known not to contain the character"""
    if z3.is_app(t):
        n = t.decl().name()
        if n.startswith("fmt_"): return ch not in DIGITS
        if z3.is_const(t) and ch in FREE.get(n, ()): return True
        if n in ("head!", "tail!"): return n == "head!" and ch == literal(t.arg(1)) or free(t.arg(0), ch)
        if t.decl().kind() == z3.Z3_OP_ITE: return all(free(x, ch) if not z3.is_string_value(x) else ch not in literal(x) for c in t.children()[1:] for x in flat(c, []) if not isinstance(x, str)) and \
            all(ch not in x for c in t.children()[1:] for x in flat(c, []) if isinstance(x, str))
    return False
HEAD, TAIL = z3.Function("head!", STR, STR, STR), z3.Function("tail!", STR, STR, STR)   # what precedes / follows the first occurrence
LHEAD, LTAIL = z3.Function("lhead!", STR, STR, STR), z3.Function("ltail!", STR, STR, STR)   # ... the last occurrence
STRIP = {k: z3.Function(k + "!", STR, STR, STR) for k in ("strip", "lstrip", "rstrip")}
MAP = {k: z3.Function(k + "!", STR, STR) for k in ("lower", "upper", "title", "casefold", "capitalize", "swapcase")}
REPL = z3.Function("replace!", STR, STR, STR, STR)

def contains(s, sub):
    """raw condition: sub occurs in s"""
    if symbolic(sub): return z3.Contains(term(s), term(sub))
    if sub == "": return True
    ps = pieces(s)
    if any(isinstance(p, str) and sub in p for p in ps): return True
    if builtins.len(sub) == 1:
        return R.or_(*[z3.Contains(p, lit(sub)) for p in ps if not isinstance(p, str) and not free(p, sub)])
    if any(all(free(p, ch) for p in ps if not isinstance(p, str)) and not any(isinstance(p, str) and ch in p for p in ps) for ch in sub): return False
    return z3.Contains(term(s), lit(sub))

def equal(a, b):
    """raw condition: the texts are the same"""
    p, q = pieces(a), pieces(b)
    def same(x, y): return isinstance(x, str) and isinstance(y, str) and x == y or not isinstance(x, str) and not isinstance(y, str) and x.eq(y)
    def trim(p, q, end):
        i = -1 if end else 0
        while p and q:
            x, y = p[i], q[i]
            if same(x, y): p.pop(i); q.pop(i); continue
            if isinstance(x, str) and isinstance(y, str):
                k = min(builtins.len(x), builtins.len(y))
                u, v = (x[-k:], y[-k:]) if end else (x[:k], y[:k])
                if u != v: return False
                x, y = (x[:-k], y[:-k]) if end else (x[k:], y[k:])
                if x: p[i] = x
                else: p.pop(i)
                if y: q[i] = y
                else: q.pop(i)
                continue
            return True
        return True
    if not trim(p, q, False) or not trim(p, q, True): return False
    if not p and not q: return True
    if not p and any(isinstance(y, str) for y in q) or not q and any(isinstance(x, str) for x in p): return False
    for u, v in ((p, q), (q, p)):      # a character of one side that cannot occur in the other
        for x in u:
            if isinstance(x, str) and any(not any(isinstance(y, str) and ch in y for y in v) and all(free(y, ch) for y in v if not isinstance(y, str)) for ch in x): return False
    return z3.simplify(term_of(p) == term_of(q)) if False else term_of(p) == term_of(q)
def term_of(ps):
    ps = [lit(p) if isinstance(p, str) else p for p in ps]
    return lit("") if not ps else ps[0] if builtins.len(ps) == 1 else z3.Concat(*ps)

def cut(s, sep, last=False):
    """(before, after) the first (last) occurrence of the separator, or None; forks where it is unknown"""
    if builtins.len(sep) != 1:
        ps = pieces(s)
        for k, p in enumerate(ps if not last else ps[::-1]):
            if isinstance(p, str):
                if sep in p:
                    if any(not all(any(free(q, ch) for ch in sep[i:]) or True for i in range(1)) for q in ()): pass
                    k = k if not last else builtins.len(ps) - 1 - k
                    # an occurrence may not start in an earlier atom: one of its characters must be missing there
                    before = ps[:k] if not last else ps[k + 1:]
                    for q in before:
                        if not isinstance(q, str) and not any(free(q, ch) for ch in sep): raise Unsupported("search for a text inside symbolic text")
                    i = p.find(sep) if not last else p.rfind(sep)
                    return of(ps[:k] + [p[:i]]), of([p[i + builtins.len(sep):]] + ps[k + 1:])
            elif not any(free(p, ch) for ch in sep): raise Unsupported("search for a text inside symbolic text")
        return None
    ps = pieces(s)
    order = range(builtins.len(ps)) if not last else range(builtins.len(ps) - 1, -1, -1)
    for k in order:
        p = ps[k]
        if isinstance(p, str):
            if sep in p:
                i = p.find(sep) if not last else p.rfind(sep)
                return of(ps[:k] + [p[:i]]), of([p[i + 1:]] + ps[k + 1:])
        elif not free(p, sep) and cur().branch(z3.Contains(p, lit(sep))):
            h, t = (LHEAD, LTAIL) if last else (HEAD, TAIL)
            h, t = h(p, lit(sep)), t(p, lit(sep))
            c = cur()
            c.assume(p == z3.Concat(h, lit(sep), t))
            c.assume(z3.Not(z3.Contains(t if last else h, lit(sep))))
            return of(ps[:k] + [h]), of([t] + ps[k + 1:])
    return None

def never(ps, ch, last):
    """no value of the atoms lets the text begin (end) with the character"""
    for p in (reversed(ps) if last else ps):
        if isinstance(p, str): return p[-1 if last else 0] != ch
        if not free(p, ch): return False
    return True

class VStr(str):
    """text with symbolic parts"""
    __slots__ = ()
    def __vc_scalar__(self): return term(self)
    def __str__(self): return self
    def __format__(self, spec):
        if spec in ("", "s"): return str.__str__(self)
        raise Unsupported("format of symbolic text")
    def __repr__(self): raise Unsupported("repr of symbolic text")
    def __hash__(self): raise Unsupported("hash of symbolic text")
    def __eq__(self, o):
        if not isinstance(o, str): return False
        return wrap(equal(self, o))
    def __ne__(self, o):
        if not isinstance(o, str): return True
        return wrap(R.not_(equal(self, o)))
    def _cmp(self, o, f):
        if not isinstance(o, str): return NotImplemented
        return wrap(f(term(self), term(o)))
    def __lt__(self, o): return wrap(R.and_(R.not_(equal(self, o)), (term(self) <= term(o))))
    def __gt__(self, o): return wrap(R.and_(R.not_(equal(self, o)), (term(o) <= term(self))))
    def __le__(self, o): return wrap(R.or_(equal(self, o), (term(self) <= term(o))))
    def __ge__(self, o): return wrap(R.or_(equal(self, o), (term(o) <= term(self))))
    def __add__(self, o):
        if not isinstance(o, str): return NotImplemented
        return retag(str.__add__(self, o))
    def __radd__(self, o):
        if not isinstance(o, str): return NotImplemented
        return retag(str.__add__(o, self))
    def __bool__(self):
        if any(isinstance(p, str) for p in pieces(self)): return True
        return cur().branch(R.not_(equal(self, "")))
    def __contains__(self, sub): return cur().branch(contains(self, sub)) if R.is_sym(contains(self, sub)) else contains(self, sub)
    def __len__(self): raise Unsupported("len of symbolic text in native code")
    def __vc_len__(self): return wrap(z3.Length(term(self)))
    def __iter__(self): raise Unsupported("iteration over symbolic text")
    def __getitem__(self, k):
        ps = pieces(self)
        if isinstance(k, slice) or hasattr(k, "start"):
            a, b, st = [None if x is None else unwrap(x) for x in (k.start, k.stop, k.step)]
            if st not in (None, 1) or any(R.is_sym(x) for x in (a, b) if x is not None): raise Unsupported("slice of symbolic text")
            if a and a > 0:
                if not isinstance(ps[0], str) or builtins.len(ps[0]) < a: raise Unsupported("slice of symbolic text")
                ps[0] = ps[0][a:]
            elif a: raise Unsupported("slice of symbolic text")
            if b is not None:
                if b >= 0:
                    if b == 0: return ""
                    raise Unsupported("slice of symbolic text")
                if not isinstance(ps[-1], str) or builtins.len(ps[-1]) < -b: raise Unsupported("slice of symbolic text")
                ps[-1] = ps[-1][:b]
            return of([p for p in ps if not isinstance(p, str) or p])
        r = unwrap(k)
        if not R.is_sym(r) and ps:
            p = ps[0] if r >= 0 else ps[-1]
            if isinstance(p, str) and (builtins.len(p) > r if r >= 0 else builtins.len(p) >= -r): return p[r]
        raise Unsupported("index into symbolic text")
    # -- searching
    def startswith(self, x, *a):
        if a: raise Unsupported("startswith with bounds")
        if isinstance(x, tuple): return any(bool(self.startswith(y)) for y in x)
        ps = pieces(self)
        if not symbolic(x):
            if x == "": return True
            if isinstance(ps[0], str):
                if ps[0].startswith(x): return True
                if not x.startswith(ps[0]): return False
            elif never(ps, x[0], False): return False
        return wrap(z3.PrefixOf(term(x), term(self)))
    def endswith(self, x, *a):
        if a: raise Unsupported("endswith with bounds")
        if isinstance(x, tuple): return any(bool(self.endswith(y)) for y in x)
        ps = pieces(self)
        if not symbolic(x):
            if x == "": return True
            if isinstance(ps[-1], str):
                if ps[-1].endswith(x): return True
                if not x.endswith(ps[-1]): return False
            elif never(ps, x[-1], True): return False
        return wrap(z3.SuffixOf(term(x), term(self)))
    def removeprefix(self, x): return of_slice(self, x, True) if self.startswith(x) else self
    def removesuffix(self, x): return of_slice(self, x, False) if self.endswith(x) else self
    def partition(self, sep):
        c = cut(self, sep)
        return (c[0], sep, c[1]) if c is not None else (self, "", "")
    def rpartition(self, sep):
        c = cut(self, sep, True)
        return (c[0], sep, c[1]) if c is not None else ("", "", self)
    def split(self, sep=None, maxsplit=-1):
        from .seq import VList
        if sep is None: raise Unsupported("split of symbolic text at white space")
        out, rest, m = [], self, unwrap(maxsplit)
        for _ in range(24):
            c = cut(rest, sep) if m != 0 and not (type(rest) is str) else None
            if type(rest) is str and m != 0:
                if sep in rest: c = tuple(rest.split(sep, 1))
            if c is None: out.append(rest); return VList(out)
            out.append(c[0]); rest = c[1]; m -= 1
            if not symbolic(rest): continue
            if builtins.len(sep) == 1 and builtins.len([p for p in pieces(rest) if not isinstance(p, str) and p.decl().name() == "tail!" and nested(p) > 3]): raise Unsupported("split of symbolic text into arbitrarily many parts")
        raise Unsupported("split of symbolic text")
    def rsplit(self, sep=None, maxsplit=-1):
        from .seq import VList
        if sep is None: raise Unsupported("split of symbolic text at white space")
        if unwrap(maxsplit) != 1: raise Unsupported("rsplit of symbolic text")
        c = cut(self, sep, True)
        return VList([self]) if c is None else VList(c)
    def splitlines(self, keepends=False):
        for p in pieces(self):
            for ch in SEPS:
                if not isinstance(p, str) and ch not in "\n\r" and not free(p, ch): raise Unsupported("splitlines of text that may contain other line boundaries")
        ls = lines(self, keepends)
        return ls
    def strip(self, chars=None): return strip(self, chars, "strip")
    def lstrip(self, chars=None): return strip(self, chars, "lstrip")
    def rstrip(self, chars=None): return strip(self, chars, "rstrip")
    def replace(self, a, b, n=-1):
        if n != -1: raise Unsupported("replace with a count")
        c = contains(self, a)
        if not (cur().branch(c) if R.is_sym(c) else c): return self
        if builtins.len(a) == 1 and not symbolic(a):
            return of([(p.replace(a, b) if isinstance(p, str) else p if free(p, a) else REPL(p, lit(a), term(b))) for p in pieces(self)])
        raise Unsupported("replace in symbolic text")
    def join(self, it): raise Unsupported("join with symbolic text")
    def isspace(self): raise Unsupported("isspace")
    def find(self, *a): raise Unsupported("find in symbolic text")
    def zfill(self, n):
        ps = pieces(self)
        if builtins.len(ps) == 1 and not isinstance(ps[0], str) and ps[0].decl().name() == "fmt_d": return retag(fmt_int(ps[0].arg(0), f"0{n}"))
        raise Unsupported("zfill of symbolic text")
    index = rfind = rindex = count = encode = expandtabs = center = ljust = rjust = translate = isdigit = isnumeric = isalpha = isalnum = isdecimal = isidentifier = find
    def __mul__(self, n): raise Unsupported("repetition of symbolic text")
    __rmul__ = __mod__ = __mul__
    def __reduce_ex__(self, p): raise Unsupported("pickle of symbolic text")
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
for _n, _f in MAP.items():
    setattr(VStr, _n, (lambda f, n: lambda self: of([getattr(p, n)() if isinstance(p, str) else p if p.decl().name().startswith("fmt_") else f(p) for p in pieces(self)]))(_f, _n))

def nested(t):
    n = 0
    while t.decl().name() == "tail!": t = t.arg(0); n += 1
    return n
def of_slice(s, x, front):
    ps = pieces(s)
    p = ps[0 if front else -1]
    if isinstance(p, str) and not symbolic(x) and builtins.len(p) >= builtins.len(x):
        ps[0 if front else -1] = p[builtins.len(x):] if front else p[:builtins.len(p) - builtins.len(x)]
        return of([q for q in ps if not isinstance(q, str) or q])
    if x == "": return s
    raise Unsupported("affix of symbolic text")

def strip(s, chars, how):
    """removal of leading / trailing characters: exact on literal ends; an atom at the end is kept when none of the characters can occur in it"""
    cs = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0" if chars is None else str(chars)
    if symbolic(chars): raise Unsupported("strip of symbolic characters")
    ps = pieces(s)
    def end(ps, last):
        ps = list(ps)
        while ps:
            p = ps[-1 if last else 0]
            if isinstance(p, str):
                q = (p.rstrip(cs) if last else p.lstrip(cs))
                if q: ps[-1 if last else 0] = q; break
                ps.pop(-1 if last else 0); continue
            if p.decl().name().startswith("fmt_") or all(free(p, ch) for ch in cs): 
                if not p.decl().name().startswith("fmt_"):
                    # it may be empty, in which case what precedes it is exposed
                    rest = ps[:-1] if last else ps[1:]
                    nb = rest[-1 if last else 0] if rest else None
                    if nb is not None and not (isinstance(nb, str) and nb[-1 if last else 0] not in cs):
                        if cur().branch(p == lit("")): ps = rest; continue
                break
            f = STRIP["rstrip" if last else "lstrip"]
            w = (ps[:-1] if last else ps[1:])
            if not w or (isinstance(w[-1 if last else 0], str) and w[-1 if last else 0][-1 if last else 0] not in cs):
                ps[-1 if last else 0] = f(p, lit(cs)); break
            raise Unsupported("strip of symbolic text")
        return ps
    if how in ("strip", "lstrip"): ps = end(ps, False)
    if how in ("strip", "rstrip"): ps = end(ps, True)
    return of(ps)

def lines(s, keep):
    """lines of a text (terminated by newline characters)"""
    from .seq import VList
    out, rest = [], s
    for _ in range(64):
        if not symbolic(rest):
            out += rest.splitlines(True) if "\r" not in rest else bad()
            break
        c = cut(rest, "\n")
        if c is None: out.append(rest); break
        out.append(c[0] + "\n"); rest = c[1]
        if symbolic(rest) and any(not isinstance(p, str) and p.decl().name() == "tail!" and nested(p) > 3 for p in pieces(rest)): raise Unsupported("text of arbitrarily many lines")
        if not symbolic(rest) and rest == "": break
    if not keep: out = [x[:-1] if x.endswith("\n") else x for x in out]
    return VList(out)
def bad(): raise Unsupported("carriage return in a file")

# ---- files --------------------------------------------------------------------
class Files:
    """ghost file system over symbolic paths: the writes so far over an arbitrary initial content"""
    def __init__(self, exists, base):
        self.exists, self.base, self.log, self.seen = exists, base, [], {}
    def note(self):
        if C.JOURNALS: raise Unsupported("file written inside a loop over a symbolic range")
    def has(self, q):
        c = False
        for p, v in self.log:
            e = equal(p, q)
            c = R.or_(R.and_(e, v is not None), R.and_(R.not_(e), c))
        e0 = self.exists(q)
        w = R.or_(*[equal(p, q) for p, v in self.log]) if self.log else False
        return R.or_(c, R.and_(R.not_(w), e0))
    def __contains__(self, q):
        c = self.has(q)
        return cur().branch(c) if R.is_sym(c) else c
    def __getitem__(self, q):
        for p, v in reversed(self.log):
            e = equal(p, q)
            if cur().branch(e) if R.is_sym(e) else e:
                if v is None: raise KeyError(q)
                return v
        return self.base(q)
    def __setitem__(self, q, v): self.note(); self.log.append((q, v))
    def __delitem__(self, q): self.note(); self.log.append((q, None))
    def __iter__(self): raise Unsupported("listing of symbolic files")
    def names(self): return [p for p, v in self.log]
    def listing(self, d): raise Unsupported("listing of symbolic files")

class File:
    """open text file"""
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.closed = fs, path, mode, False
        if mode[0] == "r":
            if path not in fs: raise FileNotFoundError(path)
            self.text = fs[path]
            if not isinstance(self.text, str): raise Unsupported("binary file read as text")
            self.rest = None
        elif mode[0] == "w": self.text = ""; fs[path] = ""
        elif mode[0] == "a": self.text = fs[path] if path in fs else ""
        elif mode[0] == "x":
            if path in fs: raise FileExistsError(path)
            self.text = ""; fs[path] = ""
        else: raise Unsupported(f"open mode {mode}")
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self):
        if not self.closed and self.mode[0] != "r": self.flush()
        self.closed = True
    def flush(self): self.fs[self.path] = self.text
    def _r(self):
        if self.closed: raise ValueError("I/O operation on closed file.")
        if self.mode[0] != "r": raise Unsupported("read of a file opened for writing")
    def write(self, s):
        if self.closed: raise ValueError("I/O operation on closed file.")
        if self.mode[0] == "r": raise OSError("not writable")
        if not isinstance(s, str): raise TypeError("write() argument must be str")
        self.text = retag(str.__add__(self.text, s)); self.flush()
    def writelines(self, it):
        for s in it: self.write(s)
    def _lines(self):
        if self.rest is None: self.rest = list(lines(retag(self.text), True))
        return self.rest
    def read(self, *a):
        self._r()
        if a and a != (-1,): raise Unsupported("partial read")
        if self.rest is None: self.rest = []; return retag(self.text)
        t = "".join(self.rest); self.rest = []; return retag(t)
    def readline(self):
        self._r(); l = self._lines()
        return l.pop(0) if l else ""
    def readlines(self):
        from .seq import VList
        self._r(); l = self._lines(); self.rest = []; return VList(l)
    def __iter__(self):
        self._r()
        while self._lines(): yield self.rest.pop(0)

def v_open(path, mode="r", *a, **k):
    fs = cur().ghost.get("textfs")
    if fs is None: raise Unsupported("open()")
    if "b" in mode or "+" in mode: raise Unsupported(f"open mode {mode}")
    if k.get("newline") not in (None,): raise Unsupported("open with newline=")
    return File(fs, path, mode.replace("t", ""))
