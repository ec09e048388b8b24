"""Mechanical instrumentation of real Python functions.

The AST of the function is taken from the file its code object came from, on every run.  Every
operation whose meaning may depend on a symbolic value is routed through hooks of the engine
(available as the builtin name __pyvc__).  Only annotations are dropped; control flow stays CPython's.
"""
from __future__ import annotations

import ast
import builtins
import copy
import sys
import types

MARK = "<pyvc>"

_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
        ast.MatMult: "@"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

_files: dict = {}


def file_ast(filename):
    if filename not in _files:
        with open(filename, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, filename)
        index = {}

        def walk(node, cls, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    q = qual + [ch.name]
                    index.setdefault((ch.name, line), []).append((ch, cls, ".".join(q)))
                    walk(ch, cls, q + ["<locals>"])
                elif isinstance(ch, ast.Lambda):
                    index.setdefault(("<lambda>", ch.lineno), []).append((ch, cls, ".".join(qual + ["<lambda>"])))
                    walk(ch, cls, qual + ["<lambda>", "<locals>"])
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, ch.name, qual + [ch.name])
                else:
                    walk(ch, cls, qual)

        walk(tree, None, [])
        _files[filename] = (tree, index)
    return _files[filename]


class NoSource(Exception):
    pass


def _assigned(nodes):
    """Names stored in a block (not inside nested functions/classes; comprehension targets excluded)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.append(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

    v = V()
    for n in nodes:
        v.visit(n)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


MUTATORS = {"append", "add", "extend", "update", "insert", "appendleft", "setdefault", "pop", "popitem", "popleft", "remove", "discard", "clear", "__setitem__"}


def _mutated(nodes):
    """Names whose object is changed in place in a block (by a mutating method or an item assignment)."""
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                v = x.func.value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                v = x.value
            else:
                continue
            while not isinstance(v, ast.Name):  # what it contains is changed in place: d[a][b].append(x)
                if isinstance(v, ast.Subscript):
                    v = v.value
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "setdefault":
                    v = v.func.value
                else:
                    break
            else:
                out.append(v.id)
    return list(dict.fromkeys(out))


def _declared(node):
    """Names a function declares global or nonlocal."""
    return {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}


class Rewriter(ast.NodeTransformer):
    own = frozenset()

    def __init__(self, key, cls, first_arg):
        self.key = key
        self.cls = cls
        self.first_arg = first_arg
        self.n = 0
        self.loop_n = 0
        self.loops = []  # enclosing instrumented loops of the current function (None: native loop)

    # helpers
    def tmp(self):
        self.n += 1
        return f"__pv{self.n}"

    def h(self, name, *args, keywords=()):
        return ast.Call(func=ast.Attribute(value=ast.Name("__pyvc__", ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=list(keywords))

    def c(self, v):
        return ast.Constant(v)

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            return "_" + self.cls.lstrip("_") + name
        return name

    def test(self, node):
        """A test position: node is already rewritten."""
        return self.h("t", node)

    # names / attributes
    def visit_Name(self, node):
        node.id = self.mangle(node.id)
        return node

    def visit_Attribute(self, node):
        v = self.visit(node.value)
        name = self.mangle(node.attr)
        if isinstance(node.ctx, ast.Load):
            return self.h("ga", v, self.c(name))
        return ast.Attribute(value=v, attr=name, ctx=node.ctx)  # handled by statement visitors

    def visit_Subscript(self, node):
        v = self.visit(node.value)
        s = self._index(node.slice)
        if isinstance(node.ctx, ast.Load):
            return self.h("gi", v, s)
        return ast.Subscript(value=v, slice=s, ctx=node.ctx)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else self.c(None)
            return ast.Call(func=ast.Name("slice", ast.Load()), args=[f(s.lower), f(s.upper), f(s.step)], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    # calls
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args and not node.keywords:
            return self.h("super_", ast.Name("__class__", ast.Load()), ast.Name(self.first_arg, ast.Load()))
        if isinstance(node.func, ast.Name) and node.func.id == "locals":
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            return self.h("cm", self.visit(node.func.value), self.c(self.mangle(node.func.attr)), *args, keywords=kws)
        return self.h("call", self.visit(node.func), *args, keywords=kws)

    def visit_Starred(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.Starred(value=self.h("it", self.visit(node.value)), ctx=node.ctx)
        return self.generic_visit(node)

    # operators
    def visit_BinOp(self, node):
        return self.h("bin", self.c(_BIN[type(node.op)]), self.visit(node.left), self.visit(node.right))

    def visit_UnaryOp(self, node):
        op = {ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]
        if op == "-" and isinstance(node.operand, ast.Constant):
            return node
        return self.h("un", self.c(op), self.visit(node.operand))

    def visit_BoolOp(self, node):
        vals = [self.visit(v) for v in node.values]
        res = vals[-1]
        for v in reversed(vals[:-1]):
            t = self.tmp()
            cond = self.test(ast.NamedExpr(target=ast.Name(t, ast.Store()), value=v))
            if isinstance(node.op, ast.And):
                res = ast.IfExp(test=cond, body=res, orelse=ast.Name(t, ast.Load()))
            else:
                res = ast.IfExp(test=cond, body=ast.Name(t, ast.Load()), orelse=res)
        return res

    def visit_Compare(self, node):
        left = self.visit(node.left)
        parts = []
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            right = self.visit(right)
            if i + 1 < len(node.ops):
                t = self.tmp()
                r = ast.NamedExpr(target=ast.Name(t, ast.Store()), value=right)
                nxt = ast.Name(t, ast.Load())
            else:
                r, nxt = right, None
            parts.append(self.h("cmp", self.c(_CMP[type(op)]), left, r))
            left = nxt
        res = parts[-1]
        for v in reversed(parts[:-1]):
            t = self.tmp()
            res = ast.IfExp(test=self.test(ast.NamedExpr(target=ast.Name(t, ast.Store()), value=v)), body=res,
                            orelse=ast.Name(t, ast.Load()))
        return res

    def visit_IfExp(self, node):
        return ast.IfExp(test=self.test(self.visit(node.test)), body=self.visit(node.body), orelse=self.visit(node.orelse))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else self.c("")
                parts.append(self.h("fmt", self.visit(v.value), self.c(v.conversion), spec))
        return self.h("fstr", *parts)

    # displays
    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts):
            args = []
            for e in node.elts:
                star = isinstance(e, ast.Starred)
                args += [self.c(star), self.visit(e.value if star else e)]
            return self.h("listdisp", *args)
        if isinstance(node.ctx, ast.Load):
            return self.h("new", ast.List(elts=[self.visit(e) for e in node.elts], ctx=ast.Load()))
        return self.generic_visit(node)

    def visit_Set(self, node):
        return self.h("mkset", *[self.visit(e) for e in node.elts])

    def visit_Dict(self, node):
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return self.h("new", ast.Dict(keys=node.keys, values=[self.visit(v) for v in node.values]))
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return self.h("mkdict", *items)

    # comprehensions
    def _lam(self, target, expr):
        arg = self.tmp()
        body = ast.Subscript(
            value=ast.ListComp(elt=expr, generators=[ast.comprehension(
                target=target, iter=ast.Tuple(elts=[self._unp(target, ast.Name(arg, ast.Load()))], ctx=ast.Load()), ifs=[], is_async=0)]),
            slice=self.c(0), ctx=ast.Load())
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)

    def _unp(self, target, value):
        if isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            return self.h("unpack", value, self.c(len(target.elts)), self.c(star[0] if star else -1))
        return value

    def _comp(self, node, kind):
        has_yield = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node))
        if has_yield or any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        if len(node.generators) == 1:
            g = node.generators[0]
            tgt = self.visit(copy.deepcopy(g.target))
            it = self.visit(g.iter)
            if kind == "dict":
                elt = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
            else:
                elt = self.visit(node.elt)
            if g.ifs:
                conds = [self.visit(i) for i in g.ifs]
                test = conds[0] if len(conds) == 1 else self._and(conds)
                cond = self._lam(copy.deepcopy(tgt), test)
            else:
                cond = self.c(None)
            return self.h("comp", self.c(kind), it, self._lam(tgt, elt), cond)
        # several generators: nested generator chain kept native, iterables/conditions hooked
        gens = []
        for g in node.generators:
            it = self.h("it", self.visit(g.iter))
            tgt = self.visit(g.target)
            if isinstance(tgt, (ast.Tuple, ast.List)):
                t = self.tmp()
                gens.append(ast.comprehension(target=ast.Name(t, ast.Store()), iter=it, ifs=[], is_async=0))
                gens.append(ast.comprehension(target=tgt, iter=ast.Tuple(elts=[self._unp(tgt, ast.Name(t, ast.Load()))], ctx=ast.Load()),
                                              ifs=[self.test(self.visit(i)) for i in g.ifs], is_async=0))
            else:
                gens.append(ast.comprehension(target=tgt, iter=it, ifs=[self.test(self.visit(i)) for i in g.ifs], is_async=0))
        if kind == "dict":
            inner = ast.ListComp(elt=ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load()), generators=gens)
            return self.h("mkdict", ast.Starred(value=inner, ctx=ast.Load()))
        elt = self.visit(node.elt)
        if kind == "gen":
            return ast.GeneratorExp(elt=elt, generators=gens)
        inner = ast.ListComp(elt=elt, generators=gens)
        return self.h("mkset", ast.Starred(value=inner, ctx=ast.Load())) if kind == "set" else self.h("new", inner)

    def _and(self, vals):
        res = vals[-1]
        for v in reversed(vals[:-1]):
            res = ast.IfExp(test=self.test(v), body=res, orelse=self.c(False))
        return res

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_NamedExpr(self, node):
        return ast.NamedExpr(target=node.target, value=self.visit(node.value))

    def visit_Lambda(self, node):
        self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def _args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]

    # statements
    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def _store(self, target, value):
        """Statements storing `value` (an already rewritten expression) into target."""
        if isinstance(target, ast.Attribute):
            return [ast.Expr(self.h("sa", self.visit(target.value), self.c(self.mangle(target.attr)), value))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(self.h("si", self.visit(target.value), self._index(target.slice), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            names, post, elts = [], [], []
            for e in target.elts:
                star = isinstance(e, ast.Starred)
                inner = e.value if star else e
                if isinstance(inner, ast.Name):
                    nm = ast.Name(self.mangle(inner.id), ast.Store())
                else:
                    t = self.tmp()
                    nm = ast.Name(t, ast.Store())
                    post += self._store(inner, ast.Name(t, ast.Load()))
                elts.append(ast.Starred(value=nm, ctx=ast.Store()) if star else nm)
            st = [ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=self._unp(target, value))]
            return st + post
        return [ast.Assign(targets=[ast.Name(self.mangle(target.id), ast.Store())], value=value)]

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self._store(node.targets[0], value)
        t = self.tmp()
        out = [ast.Assign(targets=[ast.Name(t, ast.Store())], value=value)]
        for tg in node.targets:
            out += self._store(tg, ast.Name(t, ast.Load()))
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return [ast.Pass()]
        return self._store(node.target, self.visit(node.value))

    def visit_AugAssign(self, node):
        op = self.c(_BIN[type(node.op)])
        v = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            n = self.mangle(node.target.id)
            return [ast.Assign(targets=[ast.Name(n, ast.Store())], value=self.h("aug", op, ast.Name(n, ast.Load()), v))]
        t = self.tmp()
        obj = ast.Name(t, ast.Load())
        if isinstance(node.target, ast.Attribute):
            a = self.c(self.mangle(node.target.attr))
            return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=self.visit(node.target.value)),
                    ast.Expr(self.h("sa", obj, a, self.h("aug", op, self.h("ga", obj, a), v)))]
        k = self.tmp()
        key = ast.Name(k, ast.Load())
        return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=self.visit(node.target.value)),
                ast.Assign(targets=[ast.Name(k, ast.Store())], value=self._index(node.target.slice)),
                ast.Expr(self.h("si", obj, key, self.h("aug", op, self.h("gi", obj, key), v)))]

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Attribute):
                out.append(ast.Expr(self.h("da", self.visit(t.value), self.c(self.mangle(t.attr)))))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(self.h("di", self.visit(t.value), self._index(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_If(self, node):
        return ast.If(test=self.test(self.visit(node.test)), body=self.body(node.body), orelse=self.body(node.orelse) if node.orelse else [])

    def visit_Assert(self, node):
        return ast.Assert(test=self.test(self.visit(node.test)), msg=self.visit(node.msg) if node.msg else None)

    def _havoc(self, lv, names):
        out = []
        for n in names:
            out.append(ast.If(
                test=ast.Compare(left=self.c(n), ops=[ast.In()], comparators=[ast.Attribute(ast.Name(lv, ast.Load()), "hv", ast.Load())]),
                body=[ast.Assign(targets=[ast.Name(n, ast.Store())],
                                 value=ast.Subscript(ast.Attribute(ast.Name(lv, ast.Load()), "hv", ast.Load()), self.c(n), ast.Load()))],
                orelse=[]))
        return out

    def visit_For(self, node):
        self.loop_n += 1
        ordinal = self.loop_n
        lv = f"__pl{ordinal}"
        names = [n for n in _assigned(node.body + [node.target]) if not n.startswith("__pv")]
        soft = [n for n in _mutated(node.body) if n in self.own and n not in names]
        it = self.visit(node.iter)
        load = lambda a: ast.Attribute(ast.Name(lv, ast.Load()), a, ast.Load())
        tgt = self._store(node.target, load("item"))
        self.loops.append(lv)
        body = self._havoc(lv, names + soft) + tgt + self.body(node.body)
        self.loops.pop()
        orelse = self._havoc(lv, names + soft) + (self.body(node.orelse) if node.orelse else [])
        return [
            ast.Assign(targets=[ast.Name(lv, ast.Store())],
                       value=self.h("loop", self.c(self.key), self.c(ordinal), it, ast.Tuple([self.c(n) for n in names] + [self.c("~" + n) for n in soft], ast.Load()))),
            self._guarded(lv, ast.While(test=ast.Call(func=load("more"), args=[ast.Call(ast.Name("locals", ast.Load()), [], [])], keywords=[]),
                      body=body, orelse=orelse or [ast.Pass()])),
        ]

    def visit_While(self, node):
        self.loop_n += 1
        ordinal = self.loop_n
        if node.orelse:
            self.loops.append(None)
            body = self.body(node.body)
            self.loops.pop()
            return ast.While(test=self.test(self.visit(node.test)), body=body, orelse=self.body(node.orelse))
        lv = f"__pl{ordinal}"
        names = [n for n in _assigned(node.body) if not n.startswith("__pv")]
        soft = [n for n in _mutated(node.body) if n in self.own and n not in names]
        load = lambda a: ast.Attribute(ast.Name(lv, ast.Load()), a, ast.Load())
        cond = self.visit(node.test)
        self.loops.append(lv)
        inner = self.body(node.body)
        self.loops.pop()
        body = self._havoc(lv, names + soft) + [
            ast.If(test=ast.UnaryOp(ast.Not(), self.test(cond)),
                   body=[ast.Expr(ast.Call(func=load("leave"), args=[], keywords=[])), ast.Break()], orelse=[])] + inner
        return [
            ast.Assign(targets=[ast.Name(lv, ast.Store())],
                       value=self.h("wloop", self.c(self.key), self.c(ordinal), ast.Tuple([self.c(n) for n in names] + [self.c("~" + n) for n in soft], ast.Load()))),
            self._guarded(lv, ast.While(test=ast.Call(func=load("more"), args=[ast.Call(ast.Name("locals", ast.Load()), [], [])], keywords=[]),
                      body=body, orelse=[])),
        ]

    def _guarded(self, lv, loop):
        """An exception leaving the loop closes its frame."""
        return ast.Try(body=[loop], handlers=[ast.ExceptHandler(type=ast.Name("BaseException", ast.Load()), name=None,
                                                               body=[self._leave(lv), ast.Raise(None, None)])], orelse=[], finalbody=[])

    def visit_With(self, node):
        items = []
        post = []
        for i in node.items:
            ce = self.h("cmgr", self.visit(i.context_expr))
            ov = None
            if i.optional_vars is not None:
                if isinstance(i.optional_vars, ast.Name):
                    ov = ast.Name(self.mangle(i.optional_vars.id), ast.Store())
                else:
                    t = self.tmp()
                    ov = ast.Name(t, ast.Store())
                    post += self._store(i.optional_vars, ast.Name(t, ast.Load()))
            items.append(ast.withitem(context_expr=ce, optional_vars=ov))
        return ast.With(items=items, body=post + self.body(node.body))

    def visit_Try(self, node):
        handlers = []
        broad = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException") or
                    isinstance(h.type, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == "BaseException" for e in h.type.elts)
                    for h in node.handlers)
        if broad:
            handlers.append(ast.ExceptHandler(type=ast.Attribute(ast.Name("__pyvc__", ast.Load()), "Control", ast.Load()), name=None,
                                              body=[ast.Raise(None, None)]))
        for h in node.handlers:
            handlers.append(ast.ExceptHandler(type=self.visit(h.type) if h.type is not None else None, name=h.name, body=self.body(h.body)))
        return ast.Try(body=self.body(node.body), handlers=handlers, orelse=self.body(node.orelse) if node.orelse else [],
                       finalbody=self.body(node.finalbody) if node.finalbody else [])

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return ast.Pass()
        return ast.Expr(self.visit(node.value))

    def _leave(self, lv):
        return ast.Expr(ast.Call(func=ast.Attribute(ast.Name(lv, ast.Load()), "leave", ast.Load()), args=[], keywords=[]))

    def visit_Break(self, node):
        if self.loops and self.loops[-1]:
            return [self._leave(self.loops[-1]), node]
        return node

    def visit_Return(self, node):
        v = self.visit(node.value) if node.value is not None else None
        active = [l for l in self.loops if l]
        if not active:
            return ast.Return(v)
        t = self.tmp()
        out = [ast.Assign(targets=[ast.Name(t, ast.Store())], value=v if v is not None else self.c(None))]
        return out + [self._leave(l) for l in reversed(active)] + [ast.Return(ast.Name(t, ast.Load()))]

    def visit_Raise(self, node):
        return ast.Raise(self.visit(node.exc) if node.exc else None, self.visit(node.cause) if node.cause else None)

    def visit_YieldFrom(self, node):
        return ast.YieldFrom(self.h("it", self.visit(node.value)))

    def visit_Global(self, node):
        return [node, ast.Expr(self.h("save_globals", ast.Call(ast.Name("globals", ast.Load()), [], []), ast.Tuple([self.c(n) for n in node.names], ast.Load())))]

    def visit_Nonlocal(self, node):
        return node

    def visit_FunctionDef(self, node):
        outer = (self.first_arg,)
        outer_loops, self.loops = self.loops, []
        outer_own = self.own
        all_args = node.args.posonlyargs + node.args.args
        self.own = frozenset((set(_assigned(node.body)) | {a.arg for a in all_args + node.args.kwonlyargs}) - _declared(node))
        if all_args:
            self.first_arg = all_args[0].arg
        self._args(node.args)
        node.returns = None
        node.decorator_list = [self.h("deco", self.visit(d)) for d in node.decorator_list]
        node.body = self.body(node.body)
        node.type_params = []
        (self.first_arg,) = outer
        self.loops = outer_loops
        self.own = outer_own
        return node

    def visit_AsyncFunctionDef(self, node):
        return self.visit_FunctionDef(node)

    def visit_ClassDef(self, node):
        outer = self.cls
        self.cls = node.name
        node.body = self.body(node.body)
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.h("deco", self.visit(d)) for d in node.decorator_list]
        self.cls = outer
        return node

    def visit_Import(self, node):
        return node

    visit_ImportFrom = visit_Import

    def visit_Match(self, node):
        raise NoSource("match statement")


_cache: dict = {}


def find_node(func):
    code = func.__code__
    fn = code.co_filename
    if fn.startswith("<frozen "):
        fn = getattr(sys.modules.get(fn[8:-1]), "__file__", fn)
    try:
        _, index = file_ast(fn)
    except (OSError, SyntaxError, UnicodeDecodeError) as e:
        raise NoSource(f"no source for {func.__qualname__}: {e}")
    cands = index.get((code.co_name, code.co_firstlineno), [])
    if len(cands) > 1 and code.co_name == "<lambda>":
        cols = [p for p in code.co_positions() if p[2] is not None]
        lo = min((p[0], p[2]) for p in cols) if cols else None
        cands = [c for c in cands if lo and (c[0].body.lineno, c[0].body.col_offset) <= lo <= (c[0].body.end_lineno, c[0].body.end_col_offset)][-1:]
    if not cands:
        raise NoSource(f"cannot locate {func.__qualname__} in {fn}")
    return cands[0]


def key_of(func):
    return f"{func.__module__}:{func.__qualname__}"


def instrument(func):
    """The instrumented twin of a real function: same defaults, globals and closure cells."""
    code = func.__code__
    if code in _cache:
        new = _cache[code]
    else:
        node, cls, qual = find_node(func)
        node = copy.deepcopy(node)
        key = key_of(func)
        free = list(code.co_freevars)
        if isinstance(node, ast.Lambda):
            rw = Rewriter(key, cls, "self")
            node.args.defaults = [ast.Constant(None) for _ in node.args.defaults]
            node.args.kw_defaults = [ast.Constant(None) if d is not None else None for d in node.args.kw_defaults]
            lam = rw.visit(node)
            inner = [ast.Return(lam)]
            fname = "<lambda>"
        else:
            node.decorator_list = []
            node.args.defaults = [ast.Constant(None) for _ in node.args.defaults]
            node.args.kw_defaults = [ast.Constant(None) if d is not None else None for d in node.args.kw_defaults]
            first = (node.args.posonlyargs + node.args.args)
            rw = Rewriter(key, cls, first[0].arg if first else "self")
            fd = rw.visit(node)
            inner = [fd, ast.Return(ast.Name(fd.name, ast.Load()))]
            fname = fd.name
        outer = ast.FunctionDef(
            name="__pyvc_outer__",
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=f) for f in free], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=inner, decorator_list=[], type_params=[])
        mod = ast.Module(body=[outer], type_ignores=[])
        # give every node a position (of the real file where known)
        ast.fix_missing_locations(mod)
        mcode = compile(mod, MARK + code.co_filename, "exec")
        oc = next(c for c in mcode.co_consts if isinstance(c, types.CodeType))
        new = next(c for c in oc.co_consts if isinstance(c, types.CodeType) and c.co_name == fname)
        _cache[code] = new
    cells = dict(zip(code.co_freevars, func.__closure__ or ()))
    try:
        closure = tuple(cells[n] for n in new.co_freevars)
    except KeyError as e:
        raise NoSource(f"free variable {e} of {func.__qualname__}")
    g = types.FunctionType(new, func.__globals__, func.__name__, func.__defaults__, closure)
    g.__kwdefaults__ = func.__kwdefaults__
    g.__qualname__ = func.__qualname__
    g.__module__ = func.__module__
    return g


def is_instrumented(func):
    return func.__code__.co_filename.startswith(MARK)
