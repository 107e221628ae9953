"""Loads the REAL source of yuca from the repository's working tree, instrumented:
every statement of every function is kept; the transform only makes the following explicit
  * float literals      -> exact decimal rationals
  * a / b (python ints) -> exact rational
  * for / while / comprehensions over a symbolic iterable -> loop controller (loops.py)
  * attribute stores, []-displays -> journalled (so that the loop controller sees the frame)
  * builtins len/range/int/... -> versions that accept symbolic values
  * `try` -> verifier control-flow exceptions are never caught by the code under proof
Imports of torch / numpy / ... resolve to the trusted contracts in torch_impl / numpy_impl."""
import ast, sys, os, types, importlib.abc, importlib.machinery, builtins, inspect
from . import rt, raw as R

REPO = os.environ.get("VC_REPO", "/repo")

class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.scope = ["module"]   # function / module / class
        self.fname = []
        self.globs = [set()]; self.uses = []

    def nm(self, s): self.n += 1; return f"vc0_{s}_{self.n}"
    def call(self, f, *args):
        return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=list(args), keywords=[])

    # ---- expressions
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(self.call("vc0_f", ast.Constant(value=repr(node.value))), node)
        return node
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not any(isinstance(v, ast.FormattedValue) for v in node.values): return node
        return ast.copy_location(self.call("vc0_text", node), node)
    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div): return ast.copy_location(self.call("vc0_div", node.left, node.right), node)
        if isinstance(node.op, ast.Pow): return ast.copy_location(self.call("vc0_pow", node.left, node.right), node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(self.call("vc0_text", node), node)
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            if f.attr == "join" and len(node.args) == 1: return ast.copy_location(self.call("vc0_join", f.value, node.args[0]), node)
            if f.attr == "format": return ast.copy_location(self.call("vc0_text", node), node)
        return node
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call("vc0_list", node), node)
        return node
    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("vc0_dict", node), node)
    def visit_Compare(self, node):
        self.generic_visit(node)
        # a < b < c on symbolic scalars is decided by branching: python semantics are kept
        return node
    def _comp(self, node, kind):
        self.generic_visit(node)
        it = node.generators[0].iter
        p = self.nm("it")
        node.generators[0].iter = ast.Name(id=p, ctx=ast.Load())
        if kind == "gen":
            body = ast.ListComp(elt=node.elt, generators=node.generators)
        elif kind == "dict": body = node
        else: body = node
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        return ast.copy_location(self.call("vc0_comp", it, lam, ast.Constant(value=kind)), node)
    def visit_ListComp(self, node): return self._comp(node, "list")
    def visit_GeneratorExp(self, node): return self._comp(node, "gen")
    def visit_SetComp(self, node): self.generic_visit(node); return node
    def visit_DictComp(self, node): self.generic_visit(node); return node

    # ---- statements
    def visit_Module(self, node):
        self.generic_visit(node); return node
    def visit_FunctionDef(self, node):
        self.scope.append("function"); self.fname.append(node.name)
        g = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Global): g.update(x.names)
        self.globs.append(g)
        self.uses.append(self.counts(node.body))
        node.body = self.stmts(node.body)
        self.uses.pop()
        self.globs.pop()
        node.args = self.visit(node.args)
        self.scope.pop(); self.fname.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node
    def counts(self, stmts):
        """occurrences of every name"""
        c = {}
        for s in stmts:
            for x in ast.walk(s):
                for n in [x.id] if isinstance(x, ast.Name) else x.names if isinstance(x, (ast.Global, ast.Nonlocal)) else [x.name] if isinstance(x, ast.ExceptHandler) and x.name else []:
                    c[n] = c.get(n, 0) + 1
        return c
    def temporaries(self, body):
        """names that occur nowhere in the function but in this loop body, and that every pass assigns before it reads them: no pass sees the value of
        another one, and nothing after the loop sees any"""
        if self.scope[-1] != "function" or not self.uses: return set()
        for x in [x for s in body for x in ast.walk(s)]:
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Delete, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("locals", "vars", "exec", "eval"): return set()
        inside, seen, out = self.counts(body), set(), set()
        for s in body:
            here = set(self.counts([s]))
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                ts = {t.id} if isinstance(t, ast.Name) else {e.id for e in t.elts} if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts) else set()
                ts -= set(self.counts([ast.Expr(value=s.value)]))
                out |= {n for n in ts - seen if inside[n] == self.uses[-1].get(n)}
            seen |= here
        return out
    def visit_Lambda(self, node):
        self.generic_visit(node); return node
    def visit_ClassDef(self, node):
        self.scope.append("class"); self.fname.append(node.name)
        node.body = self.stmts(node.body)
        self.scope.pop(); self.fname.pop()
        node.bases = [self.visit(b) for b in node.bases]
        return node
    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None: continue
            if isinstance(r, list): out += r
            else: out.append(r)
        return out or [ast.Pass()]
    def visit_If(self, node):
        if isinstance(node.test, ast.Compare) and isinstance(node.test.left, ast.Name) and node.test.left.id == "__name__":
            return ast.copy_location(ast.Pass(), node)     # script section
        self.generic_visit(node); return node
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        out = []
        if any(self.has_attr(t) for t in node.targets):
            if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
                t = node.targets[0]
                return ast.copy_location(ast.Expr(self.call("vc0_setattr", node.value, self.visit(t.value), ast.Constant(value=t.attr))), node)
            # tuple targets: bind to temporaries first
            tmp = self.nm("tmp")
            out.append(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value))
            for t in node.targets:
                out += self.unpack(t, ast.Name(id=tmp, ctx=ast.Load()))
            for o in out: ast.copy_location(o, node)
            return out
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.call("vc0_setitem", node.value, self.visit(t.value), self.slice_expr(self.visit(t.slice)))), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node
    def has_attr(self, t):
        if isinstance(t, ast.Attribute): return True
        if isinstance(t, (ast.Tuple, ast.List)): return any(self.has_attr(e) for e in t.elts)
        if isinstance(t, ast.Starred): return self.has_attr(t.value)
        return False
    def unpack(self, t, val):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(self.call("vc0_setattr", val, self.visit(t.value), ast.Constant(value=t.attr)))]
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
            tmps = [self.nm("tmp") for _ in t.elts]
            out = [ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in tmps], ctx=ast.Store())], value=val)]
            for e, x in zip(t.elts, tmps): out += self.unpack(e, ast.Name(id=x, ctx=ast.Load()))
            return out
        return [ast.Assign(targets=[self.visit(t)], value=val)]
    def visit_AugAssign(self, node):
        ops = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.Div: "idiv", ast.Pow: "ipow",
               ast.FloorDiv: "ifloordiv", ast.Mod: "imod", ast.MatMult: "imatmul", ast.BitAnd: "iand", ast.BitOr: "ior",
               ast.BitXor: "ixor", ast.LShift: "ilshift", ast.RShift: "irshift"}
        op = "vc0_aug"
        nm = ast.Constant(value=ops[type(node.op)])
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            r = ast.Assign(targets=[t], value=self.call(op, nm, ast.Name(id=t.id, ctx=ast.Load()), v))
            return ast.copy_location(r, node)
        if isinstance(t, ast.Attribute):
            o = self.nm("o")
            a = ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(t.value))
            b = ast.Expr(self.call("vc0_setattr", self.call(op, nm, ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=t.attr, ctx=ast.Load()), v),
                         ast.Name(id=o, ctx=ast.Load()), ast.Constant(value=t.attr)))
            return [ast.copy_location(a, node), ast.copy_location(b, node)]
        o, i = self.nm("o"), self.nm("i")
        sl = self.visit(t.slice)
        a = ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(t.value))
        b = ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=self.slice_expr(sl))
        ld = lambda n: ast.Name(id=n, ctx=ast.Load())
        c = ast.Assign(targets=[ast.Subscript(value=ld(o), slice=ld(i), ctx=ast.Store())],
                       value=self.call(op, nm, ast.Subscript(value=ld(o), slice=ld(i), ctx=ast.Load()), v))
        return [ast.copy_location(x, node) for x in (a, b, c)]
    def slice_expr(self, s):
        if isinstance(s, ast.Slice):
            return self.call("vc0_slice", *[x if x is not None else ast.Constant(value=None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.slice_expr(e) for e in s.elts], ctx=ast.Load())
        return s
    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(type=ast.Name(id="vc0_ctl", ctx=ast.Load()), name=None, body=[ast.Raise()])
            node.handlers = [h] + node.handlers
        return node

    def assigned(self, stmts):
        names, decl = [], set()
        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names: names.append(n.id)
            def visit_FunctionDef(s, n):
                if n.name not in names: names.append(n.name)
            visit_ClassDef = visit_FunctionDef
            def visit_Lambda(s, n): pass
            def visit_ListComp(s, n): pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
            def visit_ExceptHandler(s, n):
                if n.name and n.name not in names: names.append(n.name)
                s.generic_visit(n)
            def visit_Import(s, n):
                for a in n.names: names.append((a.asname or a.name).split(".")[0])
            visit_ImportFrom = visit_Import
            def visit_Global(s, n): decl.update(n.names)
            visit_Nonlocal = visit_Global
        for st in stmts: V().visit(st)
        return names, decl | (self.globs[-1] & set(names))

    def has(self, stmts, kinds, loops=True):
        class V(ast.NodeVisitor):
            f = False
            def generic_visit(s, n):
                if isinstance(n, kinds): s.f = True
                super().generic_visit(n)
            def visit_FunctionDef(s, n): pass
            visit_Lambda = visit_ClassDef = visit_FunctionDef
            def visit_For(s, n):
                if loops: s.generic_visit(n)
            visit_While = visit_For
        v = V()
        for st in stmts: v.visit(st)
        return v.f

    def body_function(self, stmts, pre, fid, symname, temps=()):
        """nested function executing one iteration on the enclosing variables"""
        names, decl = self.assigned(pre + stmts)
        names = [n for n in names if n not in temps]
        scope_kw = ast.Nonlocal if self.scope[-1] == "function" else ast.Global
        names = [n for n in names if not n.startswith("vc0_")]
        stmts = self.rewrite_ctl(stmts)
        kw = [scope_kw(names=[n for n in names if n not in decl])] if [n for n in names if n not in decl] else []
        kw2 = [ast.Global(names=sorted(decl))] if decl else []
        return names, decl, kw, kw2, stmts

    def rewrite_ctl(self, stmts):
        class V(ast.NodeTransformer):
            def visit_For(s, n): return s.inner(n)
            def inner(s, n):
                # break/continue inside belong to the inner loop; returns still escape
                class W(ast.NodeTransformer):
                    def visit_Return(w, r): return ctl("return", r)
                    def visit_FunctionDef(w, r): return r
                    def visit_Lambda(w, r): return r
                return W().visit(n)
            visit_While = visit_For
            def visit_FunctionDef(s, n): return n
            def visit_Lambda(s, n): return n
            def visit_Continue(s, n): return ast.copy_location(ast.Return(value=ast.Constant(value=None)), n)
            def visit_Break(s, n): return ctl("break", n)
            def visit_Return(s, n): return ctl("return", n)
        def ctl(k, n):
            e = ast.Raise(exc=ast.Call(func=ast.Name(id="vc0_escape", ctx=ast.Load()),
                          args=[ast.Constant(value=k)] + ([n.value or ast.Constant(value=None)] if k == "return" else []), keywords=[]))
            return ast.copy_location(e, n)
        import copy
        return [V().visit(copy.deepcopy(s)) for s in stmts]

    def loop(self, node, is_while):
        import copy
        ok = self.scope[-1] in ("function", "module") and not self.has(node.body, (ast.Yield, ast.YieldFrom, ast.Await))
        raw_body = node.body
        fid = self.nm("loop")
        itn = fid + "_it"
        tgt = None if is_while else node.target
        if not ok or self.scope[-1] == "class":
            if is_while: node.test = self.visit(node.test)
            else: node.iter = self.visit(node.iter); node.target = self.visit(node.target)
            node.body = self.stmts(node.body); node.orelse = self.stmts(node.orelse) if node.orelse else []
            return node
        test = self.visit(node.test) if is_while else None
        it = None if is_while else self.visit(node.iter)
        hdr = []
        body_nat = self.stmts(copy.deepcopy(raw_body))
        body_sym = self.stmts(copy.deepcopy(raw_body))
        orelse = self.stmts(node.orelse) if node.orelse else []
        pre = []
        if not is_while:
            a = ast.Assign(targets=[copy.deepcopy(tgt)], value=ast.Name(id=fid + "_x", ctx=ast.Load()))
            if self.has_attr(tgt):
                node.iter, node.body, node.orelse = it, body_nat, orelse
                return node
            pre = [a]
        names, decl, kw, kw2, stmts = self.body_function(body_sym, pre, fid, None, self.temporaries(raw_body))
        ld = lambda n: ast.Name(id=n, ctx=ast.Load())
        st = lambda n: ast.Name(id=n, ctx=ast.Store())
        args = lambda *ns: ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in ns], kwonlyargs=[], kw_defaults=[], defaults=[])
        fdef = lambda name, a, b: ast.FunctionDef(name=name, args=a, body=b, decorator_list=[], returns=None, lineno=node.lineno, col_offset=0)
        import copy as cp
        out = []
        bodyf = fdef(fid + "_b", args(fid + "_x") if not is_while else args(), cp.deepcopy(kw) + cp.deepcopy(kw2) + pre + stmts)
        getb = [ast.Assign(targets=[st("vc0_d")], value=ast.Dict(keys=[], values=[]))]
        for n in names:
            if n in decl: continue
            getb.append(ast.Try(body=[ast.Assign(targets=[ast.Subscript(value=ld("vc0_d"), slice=ast.Constant(value=n), ctx=ast.Store())], value=ld(n))],
                        handlers=[ast.ExceptHandler(type=ld("NameError"), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
        getb.append(ast.Return(value=ld("vc0_d")))
        getf = fdef(fid + "_g", args(), getb)
        setb = cp.deepcopy(kw)
        for n in names:
            if n in decl: continue
            setb.append(ast.If(test=ast.Compare(left=ast.Constant(value=n), ops=[ast.In()], comparators=[ld("vc0_d")]),
                               body=[ast.Assign(targets=[st(n)], value=ast.Subscript(value=ld("vc0_d"), slice=ast.Constant(value=n), ctx=ast.Load()))],
                               orelse=[]))
        setf = fdef(fid + "_s", args("vc0_d"), setb or [ast.Pass()])
        res = fid + "_r"
        where = ".".join([self.mod] + self.fname) + f":{node.lineno}"
        if not is_while:
            out.append(ast.Assign(targets=[st(itn)], value=self.call("vc0_iter", it)))
            nat = ast.For(target=self.visit(cp.deepcopy(tgt)), iter=ld(itn), body=body_nat, orelse=orelse)
            sym = [bodyf, getf, setf,
                   ast.Assign(targets=[st(res)], value=self.call("vc0_loop", ld(itn), ld(fid + "_b"), ld(fid + "_g"), ld(fid + "_s"), ast.Constant(value=where)))]
            if orelse: sym.append(ast.If(test=ast.Compare(left=ld(res), ops=[ast.NotEq()], comparators=[ast.Constant(value="break")]), body=orelse, orelse=[]))
            out.append(ast.If(test=self.call("vc0_concrete", ld(itn)), body=[nat], orelse=sym))
        else:
            testf = fdef(fid + "_t", args(), [ast.Return(value=cp.deepcopy(test))])
            nat = ast.While(test=self.call("vc0_wtest", ast.Constant(value=where), test), body=body_nat, orelse=orelse)
            sym = [bodyf, testf, getf, setf,
                   ast.Assign(targets=[st(res)], value=self.call("vc0_while", ld(fid + "_t"), ld(fid + "_b"), ld(fid + "_g"), ld(fid + "_s"), ast.Constant(value=where)))]
            if orelse: sym.append(ast.If(test=ast.Compare(left=ld(res), ops=[ast.NotEq()], comparators=[ast.Constant(value="break")]), body=orelse, orelse=[]))
            out.append(ast.If(test=self.call("vc0_while_contract", ast.Constant(value=where)), body=sym, orelse=[nat]))
        for o in out: ast.copy_location(o, node)
        return out
    def visit_For(self, node): return self.loop(node, False)
    def visit_While(self, node):
        c = self.counting(node)
        return self.loop(node, True) if c is None else self.counted(node, *c)
    def counting(self, node):
        """while v < hi: ...; v += 1  with v assigned nowhere else in the body and hi built from names the body does not assign
        -> (v, hi, inclusive, body without the increment)"""
        t, b = node.test, node.body
        if node.orelse or self.scope[-1] not in ("function", "module") or not isinstance(t, ast.Compare) or len(t.ops) != 1: return None
        l, o, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(o, (ast.Gt, ast.GtE)): l, r, o = r, l, (ast.Lt() if isinstance(o, ast.Gt) else ast.LtE())
        if not isinstance(o, (ast.Lt, ast.LtE)) or not isinstance(l, ast.Name) or len(b) < 2: return None
        v, e = l.id, b[-1]
        one = lambda n: isinstance(n, ast.Constant) and type(n.value) is int and n.value == 1
        isv = lambda n: isinstance(n, ast.Name) and n.id == v
        if isinstance(e, ast.AugAssign): ok = isv(e.target) and isinstance(e.op, ast.Add) and one(e.value)
        elif isinstance(e, ast.Assign):
            x = e.value
            ok = len(e.targets) == 1 and isv(e.targets[0]) and isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and (isv(x.left) and one(x.right) or isv(x.right) and one(x.left))
        else: ok = False
        body = b[:-1]
        if not ok or v in {n for g in self.globs for n in g}: return None
        for n in [x for s in body for x in ast.walk(s)]:
            if isinstance(n, (ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete, ast.FunctionDef, ast.Lambda)): return None
        names, _ = self.assigned(body)
        if v in names: return None
        for n in ast.walk(r):
            if not isinstance(n, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp, ast.operator, ast.Load, ast.Call, ast.UnaryOp, ast.unaryop)): return None
            if isinstance(n, ast.Name) and n.id in set(names) | {v}: return None
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") not in ("len", "min", "max", "int"): return None
        return v, r, isinstance(o, ast.LtE), body
    def counted(self, node, v, hi, incl, body):
        """the same passes as a for loop over range(v, hi) when both are integers; checked on every pass: hi keeps its value"""
        import copy as cp
        ld, st = (lambda n: ast.Name(id=n, ctx=ast.Load())), (lambda n: ast.Name(id=n, ctx=ast.Store()))
        fid = self.nm("cnt"); h0 = fid + "_hi"; v0 = fid + "_lo"
        where = ".".join([self.mod] + self.fname) + f":{node.lineno}"
        fix = ast.Expr(value=self.call("vc0_wsame", cp.deepcopy(hi), ld(h0)))
        end = ast.Assign(targets=[st(v)], value=self.call("vc0_wend", ld(v0), ld(h0), ast.Constant(value=incl)))
        f = ast.For(target=st(v), iter=self.call("vc0_wrange", ld(v0), ld(h0), ast.Constant(value=incl)), body=cp.deepcopy(body) + [fix], orelse=[end], type_comment=None)
        ast.copy_location(f, node); ast.fix_missing_locations(f)
        plain = self.loop(cp.deepcopy(node), True)
        hx = self.visit(cp.deepcopy(hi))
        out = ast.If(test=self.call("vc0_wcounts", ast.Constant(value=where), ld(v), hx),
                     body=[ast.Assign(targets=[st(v0)], value=ld(v)), ast.Assign(targets=[st(h0)], value=self.visit(cp.deepcopy(hi)))] + self.loop(f, False),
                     orelse=plain if isinstance(plain, list) else [plain])
        ast.copy_location(out, node)
        return out

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root=None): self.root = root or REPO
    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"): return p + ".py", False
        return None, False
    def find_spec(self, name, path=None, target=None):
        if name != "yuca" and not name.startswith("yuca."): return None
        p, pkg = self.path(name)
        if p is None: return None
        return importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
    def create_module(self, spec): return None
    def exec_module(self, mod):
        name = mod.__spec__.name
        p, pkg = self.path(name)
        with open(p, encoding="utf-8") as f: src = f.read()
        mod.__file__ = p
        if pkg: mod.__path__ = [os.path.dirname(p)]
        tree = ast.parse(src, p)
        tree = Tx(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, p, "exec")
        mod.__dict__.update(rt.names())
        b = dict(vars(builtins)); b["__import__"] = v_import
        mod.__dict__["__builtins__"] = b
        LOADED[name] = p
        exec(code, mod.__dict__)

LOADED = {}
STUBS = {}
PASS = {"copy", "functools", "argparse", "sys", "math", "itertools", "collections", "typing", "json", "re", "string", "operator", "warnings", "__future__", "abc", "dataclasses", "enum", "glob_"}
_imp = builtins.__import__
def v_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in STUBS:
        if fromlist or "." not in name: return STUBS[name]
        return STUBS[name.split(".")[0]]
    if level == 0 and name.split(".")[0] in STUBS:
        root = name.split(".")[0]
        raise R.Unsupported(f"import {name}")
    if level or name == "yuca" or name.startswith("yuca."): return _imp(name, globals, locals, fromlist, level)
    if name.split(".")[0] in PASS: return _imp(name, globals, locals, fromlist, level)
    raise R.Unsupported(f"import {name}")
_installed = False
def install(extra_stubs=None):
    global _installed
    if _installed: return
    _installed = True
    from . import torch_impl, numpy_impl, stubs
    STUBS.update(torch_impl.build())
    STUBS.update(numpy_impl.build())
    STUBS.update(stubs.build())
    if extra_stubs: STUBS.update(extra_stubs)
    sys.meta_path.insert(0, Finder())
