"""Independent trace of a program: plain Python plus source instrumentation.

The program is parsed with pyposast (third-party positions), every evaluated
expression is wrapped in a logging call, every function in a logging wrapper,
and the result is run by plain CPython - no noWorkflow code takes part.
"""
import ast
import copy
import functools
import os
import re
import sys
import types

import pyposast

from . import child, refcomp

ADDR = re.compile(r"0x[0-9a-fA-F]+")
GENR = re.compile(r"<generator object .*? at 0x>")


def norm(text):
    text = ADDR.sub("0x", text)
    text = GENR.sub("<generator>", text)
    return text


def span(node):
    return (node.first_line, node.first_col, node.last_line, node.last_col)


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class Instrument(ast.NodeTransformer):
    """Adds logging calls; ``keys[k]`` = (type, mode, span, in generator)."""

    def __init__(self, func=True):
        self.keys = []
        self.defs = []
        self.ingen = 0
        self.skip = set()
        self.noisy = set()
        self.inclass = 0
        self.items = set()

    def key(self, node, type_, mode):
        self.keys.append((type_, mode, span(node), bool(self.ingen)))
        return ast.Constant(len(self.keys) - 1)

    def wrap(self, new, node, type_, mode="r"):
        return ast.copy_location(
            call("_t_v", self.key(node, type_, mode), new), node)

    # -- statements --------------------------------------------------------
    def body(self, stmts, doc=False):
        result = []
        for idx, stmt in enumerate(stmts):
            if doc and idx == 0 and isinstance(stmt, ast.Expr) and (
                    isinstance(stmt.value, ast.Constant)
                    and isinstance(stmt.value.value, str)):
                result.append(stmt)
                continue
            new = self.visit(stmt)
            if isinstance(new, list):
                result.extend(new)
            else:
                result.append(new)
        return result

    def log(self, stmt, target):
        """Statements that log the names bound by a target."""
        return [ast.Expr(call(
            "_t_v", self.key(node, "name", "w"),
            ast.Name(node.id, ast.Load()))) for node in names(target)]

    def target(self, node):
        """Visit the loads inside a target."""
        if isinstance(node, ast.Attribute):
            node.value = self.visit(node.value)
        elif isinstance(node, ast.Subscript):
            node.value = self.visit(node.value)
            node.slice = self.slice(node.slice)
        elif isinstance(node, (ast.Tuple, ast.List)):
            for elt in node.elts:
                self.target(elt)
        elif isinstance(node, ast.Starred):
            self.target(node.value)
        return node

    def slice(self, node):
        if isinstance(node, ast.Slice):
            for field in ("lower", "upper", "step"):
                if getattr(node, field) is not None:
                    setattr(node, field, self.visit(getattr(node, field)))
            return node
        if isinstance(node, ast.Tuple) and any(
                isinstance(e, ast.Slice) for e in node.elts):
            node.elts = [self.slice(e) for e in node.elts]
            return node
        return self.visit(node)

    def visit_Assign(self, node):
        logs = []
        keys = []
        for target in node.targets:
            logs.extend(self.log(node, target))
            if isinstance(target, (ast.Attribute, ast.Subscript)):
                keys.append(self.key(
                    target, type(target).__name__.lower(), "r"))
            self.target(target)
        node.value = self.visit(node.value)
        if keys:
            node.value = call("_t_a", ast.List(keys, ast.Load()), node.value)
        return [node] + logs

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        logs = []
        if isinstance(node.target, ast.Name):
            value = ast.Subscript(ast.Tuple([value, call(
                "_t_v", self.key(node.target, "name", "r"),
                ast.Name(node.target.id, ast.Load()))], ast.Load()),
                ast.Constant(0), ast.Load())
            logs = self.log(node, node.target)
        self.target(node.target)
        node.value = value
        return [node] + logs

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        logs = self.log(node, node.target)
        self.target(node.target)
        node.value = self.visit(node.value)
        return [node] + logs

    def visit_For(self, node):
        logs = self.log(node, node.target)
        self.target(node.target)
        node.iter = self.visit(node.iter)
        node.body = logs + self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse)
        return node

    def visit_If(self, node):
        return self.visit_While(node)

    def visit_With(self, node):
        logs = []
        for item in node.items:
            item.context_expr = self.visit(item.context_expr)
            if item.optional_vars is not None:
                logs.extend(self.log(node, item.optional_vars))
                self.target(item.optional_vars)
        node.body = logs + self.body(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.body(node.body)
        for handler in node.handlers:
            handler.body = self.body(handler.body)
        node.orelse = self.body(node.orelse)
        node.finalbody = self.body(node.finalbody)
        return node

    def keep(self, node):
        return node

    visit_Delete = visit_Raise = visit_Assert = visit_Import = keep
    visit_ImportFrom = visit_Global = visit_Nonlocal = visit_Pass = keep
    visit_Break = visit_Continue = visit_AsyncFor = visit_AsyncWith = keep
    visit_Await = visit_YieldFrom = keep

    def defaults(self, args):
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [d and self.visit(d) for d in args.kw_defaults]

    def params(self, args):
        allp = args.posonlyargs + args.args
        if args.vararg:
            allp = allp + [args.vararg]
        allp = allp + args.kwonlyargs
        if args.kwarg:
            allp = allp + [args.kwarg]
        return allp

    def enter(self, args):
        allp = self.params(args)
        return call("_t_enter", ast.Dict(
            [ast.Constant(a.arg) for a in allp],
            [ast.Name(a.arg, ast.Load()) for a in allp]))

    def define(self, node, name):
        self.defs.append((name, node.first_line))
        return ast.Constant(len(self.defs) - 1)

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        num = self.define(node, node.name)
        self.defaults(node.args)
        gen, self.ingen, cls, self.inclass = self.ingen, 0, self.inclass, 0
        body = self.body(node.body, doc=True)
        self.ingen, self.inclass = gen, cls
        doc = int(isinstance(body[0], ast.Expr)
                  and isinstance(body[0].value, ast.Constant))
        body.insert(doc, ast.Expr(self.enter(node.args)))
        node.body = body
        node.decorator_list.append(call("_t_def", num))
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        num = self.define(node, node.name)
        node.bases = [self.visit(b) for b in node.bases]
        for kw in node.keywords:
            kw.value = self.visit(kw.value)
        first = []
        body = node.body
        if (isinstance(body[0], ast.Expr)
                and isinstance(body[0].value, ast.Constant)
                and isinstance(body[0].value.value, str)):
            first, body = body[:1], body[1:]
        cls, self.inclass = self.inclass, 1
        node.body = first + [ast.Expr(call("_t_class", num))] + (
            self.body(body))
        self.inclass = cls
        return node

    def visit_Module(self, node):
        num = 0
        while num < len(node.body) and (
                (isinstance(node.body[num], ast.ImportFrom)
                 and node.body[num].module == "__future__")
                or (num == 0 and isinstance(node.body[0], ast.Expr)
                    and isinstance(node.body[0].value, ast.Constant)
                    and isinstance(node.body[0].value.value, str))):
            num += 1
        node.body = node.body[:num] + self.body(node.body[num:])
        return node

    # -- expressions -------------------------------------------------------
    def visit_Constant(self, node):
        return self.wrap(node, node, "literal")

    def visit_Name(self, node):
        if not isinstance(node.ctx, ast.Load):
            return node
        return self.wrap(node, node, "name")

    def op(self, node):
        type_ = type(node.op).__name__.lower()
        self.generic(node)
        return self.wrap(node, node, type_)

    def generic(self, node):
        for field, value in ast.iter_fields(node):
            if isinstance(value, ast.expr):
                setattr(node, field, self.visit(value))
            elif isinstance(value, list):
                setattr(node, field, [
                    self.visit(v) if isinstance(v, ast.expr) else v
                    for v in value])

    visit_BoolOp = visit_BinOp = visit_UnaryOp = op

    def visit_Compare(self, node):
        type_ = ".".join(type(op).__name__.lower() for op in node.ops)
        self.generic(node)
        return self.wrap(node, node, type_)

    def simple(type_):      # noqa: N805
        def visit(self, node):
            self.generic(node)
            return self.wrap(node, node, type_)
        return visit

    visit_IfExp = simple("ifexp")
    visit_Attribute = simple("attribute")
    visit_Set = simple("set")

    def visit_Yield(self, node):
        if node.value is not None:
            self.items.add(span(node.value))
        self.generic(node)
        return self.wrap(node, node, "yield")
    def seq(self, node):
        if not isinstance(node.ctx, ast.Load):
            return node
        self.generic(node)
        return self.wrap(node, node, type(node).__name__.lower())

    visit_List = visit_Tuple = seq

    def visit_Dict(self, node):
        node.keys = [k and self.visit(k) for k in node.keys]
        node.values = [self.visit(v) for v in node.values]
        return self.wrap(node, node, "dict")

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.slice(node.slice)
        return self.wrap(node, node, "subscript")

    def visit_Call(self, node):
        node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for kw in node.keywords:
            kw.value = self.visit(kw.value)
        return self.wrap(node, node, "call")

    def visit_JoinedStr(self, node):
        node.values = [
            v if isinstance(v, ast.Constant) else self.visit(v)
            for v in node.values]
        new = self.wrap(node, node, "fstring")
        if any(getattr(v, "format_spec", None) for v in node.values):
            # the format specifier claims the same position
            self.noisy.add(span(node))
        return new

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec:
            node.format_spec.values = [
                v if isinstance(v, ast.Constant) else self.visit(v)
                for v in node.format_spec.values]
        return node

    def visit_NamedExpr(self, node):
        node.value = self.visit(node.value)
        return ast.copy_location(call(
            "_t_v", self.key(node.target, "name", "w"), node), node)

    def visit_Lambda(self, node):
        num = self.define(node, "<lambda>")
        self.defaults(node.args)
        gen, self.ingen, cls, self.inclass = self.ingen, 0, self.inclass, 0
        body = self.visit(node.body)
        self.ingen, self.inclass = gen, cls
        enter = self.enter(node.args)
        node.body = ast.Subscript(ast.Tuple([enter, body], ast.Load()),
                                  ast.Constant(1), ast.Load())
        return ast.copy_location(
            ast.Call(call("_t_def", num), [node], []), node)

    def comp(self, node, type_, gen=False):
        # the first iterable is evaluated outside of the generator
        first = node.generators[0]
        self.ingen += self.inclass
        first.iter = self.visit(first.iter)
        self.ingen += gen
        for num, part in enumerate(node.generators):
            if num:
                part.iter = self.visit(part.iter)
            part.ifs = [self.visit(i) for i in part.ifs]
        if isinstance(node, ast.DictComp):
            node.key = self.visit(node.key)
            node.value = self.visit(node.value)
        else:
            node.elt = self.visit(node.elt)
        self.ingen -= gen + self.inclass
        return self.wrap(node, node, type_)

    def visit_ListComp(self, node):
        return self.comp(node, "listcomp")

    def visit_SetComp(self, node):
        return self.comp(node, "setcomp")

    def visit_DictComp(self, node):
        return self.comp(node, "dictcomp")

    def visit_GeneratorExp(self, node):
        self.items.add(span(node.elt))
        return self.comp(node, "genexpcomp", True)


def names(node):
    if isinstance(node, ast.Name):
        return [node]
    if isinstance(node, (ast.Tuple, ast.List)):
        return [n for e in node.elts for n in names(e)]
    if isinstance(node, ast.Starred):
        return names(node.value)
    return []


class Tracer(object):
    """Runtime side of the instrumentation."""

    def __init__(self, defs, limit=60000):
        self.defs = defs
        self.acts = []      # [def index, parent, args, ret, kind]
        self.values = []    # (key, act, repr)
        self.frames = {}
        self.pending = []
        self.off = False
        self.limit = limit

    def current(self, frame):
        while frame is not None:
            rec = self.frames.get(id(frame))
            if rec is not None and rec[0] is frame:
                return rec[1]
            frame = frame.f_back
        return -1

    def repr(self, value):
        self.off = True
        try:
            try:
                return norm(repr(value))
            except Exception:  # noqa: B902
                return norm(object.__repr__(value))
        finally:
            self.off = False

    def v(self, key, value):
        if not self.off:
            if len(self.values) > self.limit:
                raise MemoryError("trace too long")
            self.values.append((key, self.current(sys._getframe(1)),
                                self.repr(value)))
        return value

    def a(self, keys, value):
        for key in keys:
            if not self.off:
                self.values.append((key, self.current(sys._getframe(1)),
                                    self.repr(value)))
        return value

    def define(self, num):
        def deco(func):
            @functools.wraps(func)
            def wrapper(*args, **kwargs):
                if self.off:
                    return func(*args, **kwargs)
                act = len(self.acts)
                rec = {"def": num, "args": None, "ret": None, "exc": False,
                       "parent": self.current(sys._getframe(1)),
                       "name": wrapper.__name__, "kind": "function"}
                self.acts.append(rec)
                self.pending.append((act, func.__code__))
                try:
                    result = func(*args, **kwargs)
                except BaseException:
                    rec["exc"] = True
                    raise
                finally:
                    if self.pending and self.pending[-1][0] == act:
                        self.pending.pop()
                frame = None
                if isinstance(result, types.GeneratorType) and (
                        func.__code__.co_flags & 0x20):
                    frame = result.gi_frame
                    rec["kind"] = "generator"
                elif isinstance(result, types.CoroutineType) and (
                        func.__code__.co_flags & 0x80):
                    frame = result.cr_frame
                    rec["kind"] = "coroutine"
                elif isinstance(result, types.AsyncGeneratorType) and (
                        func.__code__.co_flags & 0x200):
                    frame = result.ag_frame
                    rec["kind"] = "coroutine"
                if frame is not None:
                    self.frames[id(frame)] = (frame, act)
                rec["ret"] = self.repr(result)
                return result
            return wrapper
        return deco

    def enter(self, args):
        if self.off:
            return
        frame = sys._getframe(1)
        rec = self.frames.get(id(frame))
        if rec is not None and rec[0] is frame:
            act = rec[1]
        elif self.pending and self.pending[-1][1] is frame.f_code:
            act = self.pending.pop()[0]
            self.frames[id(frame)] = (frame, act)
        else:
            raise RuntimeError("unexpected function entry")
        self.acts[act]["args"] = {
            name: self.repr(value) for name, value in args.items()}

    def klass(self, num):
        if self.off:
            return
        frame = sys._getframe(1)
        act = len(self.acts)
        self.acts.append({"def": num, "args": {}, "ret": None, "exc": False,
                          "parent": self.current(frame.f_back),
                          "name": self.defs[num][0], "kind": "class"})
        self.frames[id(frame)] = (frame, act)


def instrument(source, path="script.py"):
    tree = pyposast.parse(source, path)
    ins = Instrument()
    tree = ast.fix_missing_locations(ins.visit(tree))
    return ins, compile(tree, path, "exec")


def trace(script, cwd, source, timeout=60, cls=None):
    """Run the instrumented script in a child.  Returns a child.Result whose
    value is {"acts", "values", "keys", "defs", "end"}."""
    def go():
        path = os.path.realpath(os.path.join(cwd, script))
        main = child.fresh_main(path)
        sys.argv = [script]
        sys.path[0] = os.path.dirname(path)
        ins, code = instrument(source, path)
        tracer = (cls or Tracer)(ins.defs)
        tracer.keys = ins.keys
        tracer.labels = []
        main.__dict__.update(
            _t_v=tracer.v, _t_a=tracer.a, _t_def=tracer.define,
            _t_enter=tracer.enter, _t_class=tracer.klass)
        end = None
        try:
            exec(code, main.__dict__)
        except MemoryError:
            raise
        except BaseException as exc:  # noqa: B902
            end = type(exc).__name__
        return {"acts": tracer.acts, "values": tracer.values,
                "keys": ins.keys, "defs": ins.defs, "end": end,
                "noisy": ins.noisy, "items": ins.items,
                "labels": tracer.labels}
    return child.call(go, cwd, timeout)
