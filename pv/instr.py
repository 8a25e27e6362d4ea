"""Mechanical instrumentation of the real javatools sources.

Every run parses /repo/javatools/*.py afresh and rewrites the AST so that each
operation that could meet a symbolic value goes through the runtime `_pv`
(pv/rt.py).  The rewriting is purely syntactic and uniform; what it changes:

  * calls, comparisons, `in`, `is`, subscripts, `%`, f-strings, attribute stores, unpacking
    assignments and list/dict/set displays become calls of `_pv`;
  * comprehensions and generator expressions become local functions containing
    the same loop;
  * generator functions collect what they yield, evaluated at first consumption;
  * `for`/`while` loops are emitted twice: natively for concrete iterables and as
    an invariant cut for symbolic ones;
  * `__del__` is dropped (finalisers run at unspecified times), a bare `except:`
    becomes `except Exception:`, docstrings are dropped.

Nothing else is changed, added or dropped.
"""
import ast, copy

NATIVE_CALLS = {"super", "locals", "globals", "vars", "dir"}


def _n(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def _pv(attr):
    return ast.Attribute(value=_n("_pv"), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_pv(attr), args=list(args), keywords=[])


def _const(v):
    return ast.Constant(value=v)


class AssignedNames(ast.NodeVisitor):
    """names bound in a statement list of one function scope"""
    def __init__(self):
        self.names = []
        self.skip = set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)


def assigned(stmts):
    v = AssignedNames()
    for s in stmts:
        v.visit(s)
    return v.names


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, node):
        self.found = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, node):
        pass

    def visit_Lambda(self, node):
        pass

    def visit_ClassDef(self, node):
        pass


def has_yield(stmts):
    v = HasYield()
    for s in stmts:
        v.visit(s)
    return v.found


def loads_in(nodes):
    out = []
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.append((x.id, getattr(x, "lineno", 0), getattr(x, "col_offset", 0)))
    return out


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.uid = 0
        self.fstack = []      # function names (qualified)
        self.gen = [False]
        self.infunc = 0
        self.fnode = []
        self.cells = []
        self.loopdepth = [0]
        self.lambody = []
        self.globs = []
        self.incomp = 0

    def tmp(self, h="t"):
        self.uid += 1
        return "_pv_%s%d" % (h, self.uid)

    # ---- module / scopes

    def visit_Module(self, node):
        node.body = [self.visit(s) for s in node.body]
        flat = []
        for s in node.body:
            flat.extend(s) if isinstance(s, list) else flat.append(s)
        node.body = flat
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [_call("base", b) for b in node.bases]
        self.fstack.append(node.name)
        save, self.infunc = self.infunc, 0
        body = [s for s in node.body
                if not (isinstance(s, ast.FunctionDef) and s.name == "__del__")]
        node.body = self._body(body)
        self.infunc = save
        self.fstack.pop()
        return node

    def visit_FunctionDef(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        qual = ".".join(self.fstack + [node.name])
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        isgen = has_yield(body)
        self.fstack.append(node.name)
        self.gen.append(isgen)
        self.infunc += 1
        self.fnode.append(node)
        self.cells.append([])
        self.loopdepth.append(0)
        self.lambody.append(False)
        gl = {n for x in ast.walk(ast.Module(body=body, type_ignores=[])) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.globs.append(gl)
        save, self.incomp = self.incomp, 0
        node.body = self._body(body)
        self.incomp = save
        self.globs.pop()
        self.lambody.pop()
        self.loopdepth.pop()
        cells = self.cells.pop()
        if cells:
            node.body.insert(0, ast.If(test=_const(0), body=[
                ast.Assign(targets=[_n(c, ast.Store()) for c in cells], value=_const(None))], orelse=[]))
        if a.vararg and node.body:
            node.body.insert(0, ast.Assign(targets=[_n(a.vararg.arg, ast.Store())], value=_call("varargs", _n(a.vararg.arg))))
        if isgen:
            node.body.insert(0, ast.Assign(targets=[_n("_pv_out", ast.Store())],
                                           value=_call("newout")))
            node.body.append(ast.Return(value=_n("_pv_out")))
        self.fnode.pop()
        self.infunc -= 1
        self.gen.pop()
        self.fstack.pop()
        node.decorator_list.append(ast.Call(func=_pv("fn"), args=[_const(self.modname + ":" + qual)], keywords=[]))
        if isgen:
            node.decorator_list.append(_pv("generator"))
        return node

    def visit_Lambda(self, node):
        # a lambda becomes a local function, placed just before the statement that contains it
        name = self.tmp("lam")
        fd = ast.FunctionDef(name=name, args=node.args, body=[ast.Return(value=node.body)],
                             decorator_list=[], returns=None, type_params=[])
        ast.copy_location(fd, node)
        ast.fix_missing_locations(fd)
        if self.incomp_scope():
            raise NotImplementedError("lambda in comprehension head")
        self.pending[-1].append(self.visit_FunctionDef(fd))
        return _n(name)

    def incomp_scope(self):
        return False

    def visit_Return(self, node):
        if self.gen[-1]:
            val = _n("_pv_out")
        elif node.value is not None:
            val = self.visit(node.value)
        else:
            val = _const(None)
        return self._ret(val)

    def _ret(self, val):
        if self.loopdepth[-1]:
            val = ast.Tuple(elts=[_pv("RET"), val], ctx=ast.Load())
        return ast.Return(value=val)

    def visit_Break(self, node):
        if self.loopdepth[-1]:
            return ast.Return(value=_pv("BRK"))
        return node

    def visit_Continue(self, node):
        if self.loopdepth[-1]:
            return ast.Return(value=_const(None))
        return node

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Yield):
            val = self.visit(v.value) if v.value else _const(None)
            return ast.Expr(value=_call("yield_", _n("_pv_out"), val))
        if isinstance(v, ast.YieldFrom):
            t = self.tmp("yf")
            loop = ast.For(target=_n(t, ast.Store()), iter=v.value,
                           body=[ast.Expr(value=ast.Yield(value=_n(t)))], orelse=[])
            ast.copy_location(loop, node)
            ast.fix_missing_locations(loop)
            return self.visit(loop)
        if isinstance(v, ast.Constant):
            return None
        node.value = self.visit(v)
        return node

    def visit_Yield(self, node):
        raise NotImplementedError("yield used as an expression")

    # ---- expressions

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NATIVE_CALLS and (f.id != "super" or not node.args) \
                and not node.args:
            return node
        if isinstance(f, ast.Name) and f.id == "super":
            node.args = [self.visit(a) for a in node.args]
            return node
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.append(ast.Starred(value=_call("starargs", self.visit(a.value)), ctx=ast.Load()))
            else:
                args.append(self.visit(a))
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            return ast.copy_location(
                ast.Call(func=_pv("callm"), args=[obj, _const(f.attr)] + args, keywords=kws), node)
        return ast.copy_location(
            ast.Call(func=_pv("call"), args=[self.visit(f)] + args, keywords=kws), node)

    _ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
            ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rest = [self.visit(c) for c in node.comparators]
        if len(rest) == 1:
            return ast.copy_location(_call("cmp", _const(self._ops[type(node.ops[0])]), left, rest[0]), node)
        # chained: _pv.chain(ops, left, lambda: b, lambda: c ...) keeps short circuit and single evaluation
        thunks = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=r)
                  for r in rest]
        return ast.copy_location(
            _call("chain", ast.Tuple(elts=[_const(self._ops[type(o)]) for o in node.ops], ctx=ast.Load()),
                  left, *thunks), node)

    def visit_BinOp(self, node):
        node.left = self.visit(node.left)
        node.right = self.visit(node.right)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        return ast.copy_location(_call("binop", _const(type(node.op).__name__), node.left, node.right), node)

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", self.visit(node.value), self._slice(node.slice)), node)
        node.value = self.visit(node.value)
        node.slice = self._slice(node.slice)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else _const(None)
            return ast.Call(func=_n("slice"), args=[f(s.lower), f(s.upper), f(s.step)], keywords=[])
        return self.visit(s)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else _const(None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), _const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_List(self, node):
        if not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            node.elts = [ast.Starred(value=_call("star", self.visit(e.value)), ctx=ast.Load())
                         if isinstance(e, ast.Starred) else self.visit(e) for e in node.elts]
            return _call("mklist", node)
        node.elts = [self.visit(e) for e in node.elts]
        return ast.copy_location(_call("mklist", node), node)

    def visit_Dict(self, node):
        if any(k is None for k in node.keys):
            raise NotImplementedError("dict unpacking display")
        pairs = [ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call("mkdict", ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_Set(self, node):
        elts = [self.visit(e) for e in node.elts]
        return ast.copy_location(_call("mkset", ast.List(elts=elts, ctx=ast.Load())), node)

    # ---- comprehensions -> local functions called once per element

    def _level(self, gens, gi, final):
        """function def for one `for` level; returns its name"""
        g = gens[gi]
        name = self.tmp("comp")
        el = self.tmp("el")
        body = []
        self.pending.append([])
        self.incomp += 1
        body += self._store(g.target, el)
        conds = []
        for c in g.ifs:
            self.pending.append([])
            e = self.visit(c)
            pre = self.pending.pop()
            conds.append((pre, e))
        self.pending.append([])
        if gi + 1 < len(gens):
            it = self.visit(gens[gi + 1].iter)
            nm = self._level(gens, gi + 1, final)
            last = ast.Expr(value=_call("compinto", _n("_pv_o"), it, _n(nm)))
        else:
            last = ast.Expr(value=_call("yield_", _n("_pv_o"), self.visit(final)))
        pre = self.pending.pop()
        inner = self._flat(pre) + [last]
        for p, e in reversed(conds):
            inner = self._flat(p) + [ast.If(test=e, body=inner, orelse=[])]
        self.incomp -= 1
        extra = self._flat(self.pending.pop())
        fd = ast.FunctionDef(
            name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=el), ast.arg(arg="_pv_o")], kwonlyargs=[],
                                          kw_defaults=[], defaults=[]),
            body=extra + body + inner, decorator_list=[], returns=None, type_params=[])
        self.pending[-1].append(fd)
        return name

    @staticmethod
    def _flat(l):
        return [x for p in l for x in (p if isinstance(p, list) else [p])]

    def _vcomp(self, node, kind):
        if not self.pending or not self.infunc:
            return self.generic_visit(node)
        final = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()) if kind == "dict" else node.elt
        it = self.visit(node.generators[0].iter)
        save = self.loopdepth[-1]
        self.loopdepth[-1] = 0
        nm = self._level(node.generators, 0, final)
        self.loopdepth[-1] = save
        return ast.copy_location(_call("comp", _const(kind), it, _n(nm)), node)

    def visit_ListComp(self, node):
        return self._vcomp(node, "list")

    def visit_SetComp(self, node):
        return self._vcomp(node, "set")

    def visit_DictComp(self, node):
        return self._vcomp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self._vcomp(node, "gen")

    # every statement collects the comprehension functions it needs, placed just before it
    pending = None

    def visit(self, node):
        if self.pending is None:
            self.pending = []
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.ClassDef,)):
            self.pending.append([])
            r = super().visit(node)
            pre = self.pending.pop()
            if r is None:
                r = []
            if not isinstance(r, list):
                r = [r]
            return [x for p in pre for x in (p if isinstance(p, list) else [p])] + r
        return super().visit(node)

    # ---- statements

    def _store(self, target, valname):
        """statements storing the value named valname into target"""
        if isinstance(target, ast.Name):
            return [ast.Assign(targets=[target], value=_n(valname))]
        if isinstance(target, ast.Attribute):
            return [ast.Expr(value=_call("setattr_", self.visit(target.value), _const(target.attr), _n(valname)))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(value=_call("setitem", self.visit(target.value), self._slice(target.slice), _n(valname)))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return [ast.Assign(targets=[target], value=_call("star", _n(valname)))]
            t = self.tmp("u")
            out = [ast.Assign(targets=[_n(t, ast.Store())], value=_call("unpack", _n(valname), _const(len(target.elts))))]
            for i, e in enumerate(target.elts):
                v = self.tmp("v")
                out.append(ast.Assign(targets=[_n(v, ast.Store())],
                                      value=ast.Subscript(value=_n(t), slice=_const(i), ctx=ast.Load())))
                out += self._store(e, v)
            return out
        raise NotImplementedError(ast.dump(target))

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            return node
        t = self.tmp("a")
        out = [ast.Assign(targets=[_n(t, ast.Store())], value=node.value)]
        for tg in node.targets:
            out += self._store(tg, t)
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None
        return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        val = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[_n(t.id, ast.Store())], value=_call("augop", _const(op), _n(t.id), val))]
        o = self.tmp("o")
        if isinstance(t, ast.Attribute):
            return [ast.Assign(targets=[_n(o, ast.Store())], value=self.visit(t.value)),
                    ast.Expr(value=_call("setattr_", _n(o), _const(t.attr),
                                         _call("augop", _const(op), ast.Attribute(value=_n(o), attr=t.attr, ctx=ast.Load()), val)))]
        k = self.tmp("k")
        return [ast.Assign(targets=[_n(o, ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[_n(k, ast.Store())], value=self._slice(t.slice)),
                ast.Expr(value=_call("setitem", _n(o), _n(k), _call("augop", _const(op), _call("getitem", _n(o), _n(k)), val)))]

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=_call("delitem", self.visit(t.value), self._slice(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(value=_call("delattr_", self.visit(t.value), _const(t.attr))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        return node

    def visit_With(self, node):
        out = []
        body = node.body
        # one item per with, names only
        items = node.items
        if len(items) > 1:
            inner = ast.With(items=items[1:], body=body)
            ast.copy_location(inner, node)
            body = [inner]
            items = items[:1]
        it = items[0]
        ctx = self.visit(it.context_expr)
        var = it.optional_vars
        pre = []
        if var is not None and not isinstance(var, ast.Name):
            t = self.tmp("w")
            nb = self._store(var, t)
            var = _n(t, ast.Store())
            pre = nb
        nw = ast.With(items=[ast.withitem(context_expr=_call("ctx", ctx), optional_vars=var)],
                      body=pre + self._body(body))
        return ast.copy_location(nw, node)

    def visit_Try(self, node):
        node.body = self._body(node.body)
        for h in node.handlers:
            if h.type is None:
                h.type = _n("Exception")
            h.body = self._body(h.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        node.finalbody = self._body(node.finalbody) if node.finalbody else []
        return node

    def visit_Raise(self, node):
        if node.exc:
            node.exc = self.visit(node.exc)
        if node.cause:
            node.cause = self.visit(node.cause)
        return node

    # ---- loops: the body becomes a local function run under the control of the runtime

    def _fun(self, name, args, body):
        return ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=body, decorator_list=[], returns=None, type_params=[])

    def _loop(self, node, kind):
        lp = self.tmp("r")
        el = self.tmp("el")
        bname, gname, sname, tname = (self.tmp(x) for x in ("body", "get", "set", "test"))
        site = "%s:%s:%d" % (self.modname, ".".join(self.fstack), self.uid)
        src = list(node.body)
        if kind == "for":
            src = [ast.Assign(targets=[node.target], value=_const(None))] + src
        else:
            src = [ast.Expr(value=node.test)] + src
        names = [n for n in assigned(src) if not n.startswith("_pv_") and n not in self.globs[-1]]
        for n in names:
            if n not in self.cells[-1]:
                self.cells[-1].append(n)
        out = []
        itexpr = self.visit(node.iter) if kind == "for" else None
        nl = [ast.Nonlocal(names=list(names))] if names else []
        self.loopdepth[-1] += 1
        body = (self._store(node.target, el) if kind == "for" else []) + self._body(node.body)
        if kind == "while":
            self.pending.append([])
            e = self.visit(node.test)
            pre = self._flat(self.pending.pop())
            test = self._fun(tname, [], [copy.copy(x) for x in nl] + pre + [ast.Return(value=e)])
        self.loopdepth[-1] -= 1
        out.append(self._fun(bname, [el] if kind == "for" else [], nl + body))
        if kind == "while":
            out.append(test)
        lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        out.append(self._fun(gname, [], [ast.Return(value=ast.Dict(
            keys=[_const(n) for n in names], values=[_call("grab", lam(_n(n))) for n in names]))]))
        setb = [copy.copy(x) for x in nl]
        for n in names:
            setb.append(ast.If(test=ast.Compare(left=_const(n), ops=[ast.In()], comparators=[_n("_pv_d")]),
                               body=[ast.Assign(targets=[_n(n, ast.Store())],
                                                value=ast.Subscript(value=_n("_pv_d"), slice=_const(n), ctx=ast.Load()))], orelse=[]))
        out.append(self._fun(sname, ["_pv_d"], setb + [ast.Pass()]))
        tn = [n for n in assigned([ast.Assign(targets=[node.target], value=_const(None))])] if kind == "for" else []
        args = [_const(site)] + ([itexpr] if kind == "for" else [_n(tname)]) + [_n(bname), _n(gname), _n(sname), _const(tuple(tn))]
        out.append(ast.Assign(targets=[_n(lp, ast.Store())], value=_call(kind + "loop", *args)))
        isret = ast.Compare(left=ast.Attribute(value=_n(lp), attr="__class__", ctx=ast.Load()), ops=[ast.Is()],
                            comparators=[_n("tuple")])
        rv = _n(lp) if self.loopdepth[-1] else ast.Subscript(value=_n(lp), slice=_const(1), ctx=ast.Load())
        out.append(ast.If(test=isret, body=[ast.Return(value=rv)], orelse=[]))
        if node.orelse:
            out.append(ast.If(test=ast.Compare(left=_n(lp), ops=[ast.Is()], comparators=[_const(None)]),
                              body=self._body(node.orelse), orelse=[]))
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_For(self, node):
        if not self.infunc:
            node.iter = self.visit(node.iter)
            node.body = self._body(node.body)
            node.orelse = self._body(node.orelse) if node.orelse else []
            return node
        return self._loop(node, "for")

    def visit_While(self, node):
        if not self.infunc:
            raise NotImplementedError("module level while")
        return self._loop(node, "while")


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tr = Transform(modname)
    tree = tr.visit(tree)
    # `from __future__` imports must stay first; _pv is injected into the module globals
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
