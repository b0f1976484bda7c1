"""Reference listing of the code components of a source.

Walks the pyposast tree (positions are pyposast's, a third-party library) and
lists what definition provenance has to contain, from the documented meaning
of each component type.  Subtrees the documented rewriting leaves alone
(deleted targets, raise, assert, await, async for/with, yield from) are opaque:
they are one component.
"""
import ast

import pyposast


class Item(object):
    __slots__ = ("type", "mode", "name", "span", "parent", "field", "pos",
                 "node", "block", "doc", "code")

    def key(self):
        return (self.type, self.mode, self.name) + self.span


def line_slice(lines, span):
    fl, fc, ll, lc = span
    if fl == ll:
        return lines[fl - 1][fc:lc]
    parts = [lines[fl - 1][fc:]] + lines[fl:ll - 1] + [lines[ll - 1][:lc]]
    return "\n".join(parts)


OPAQUE = {
    "Delete": "delete", "Raise": "raise", "Assert": "assert",
    "Import": "import", "ImportFrom": "import_from", "Global": "global",
    "Nonlocal": "nonlocal", "Pass": "pass", "Break": "break",
    "Continue": "continue", "AsyncFor": "async_for",
    "AsyncWith": "async_with", "Await": "await", "YieldFrom": "yield_from",
}


class Reference(object):
    def __init__(self, source, path="script.py", func=False):
        self.lines = source.split("\n")
        self.items = []
        self.func = func    # capture_func_component
        self.tree = pyposast.parse(source, path)
        self.source = source
        self.path = path

    def text(self, node):
        return line_slice(self.lines, self.span(node))

    def span(self, node):
        return (node.first_line, node.first_col, node.last_line,
                node.last_col)

    def add(self, node, type_, mode, edge, name=None, block=None, span=None):
        item = Item()
        item.type = type_
        item.mode = mode
        item.span = span or self.span(node)
        item.name = line_slice(self.lines, item.span) if name is None else name
        item.parent, item.field, item.pos = edge
        item.node = node
        item.block = self.block
        item.doc = item.code = None
        self.items.append(item)
        return item

    def run(self):
        self.block = None
        root = Item()
        root.type, root.mode, root.name = "script", "w", self.path
        root.span = (1 if self.source else 0, 0, len(self.lines),
                     len(self.lines[-1]))
        root.parent = root.field = root.pos = root.block = None
        root.node = self.tree
        root.doc = ast.get_docstring(self.tree) or ""
        root.code = self.source
        self.items.append(root)
        self.block = root
        future = -1
        for idx, stmt in enumerate(self.tree.body):
            if isinstance(stmt, ast.ImportFrom) and (
                    stmt.module == "__future__"):
                future = idx
        for idx, stmt in enumerate(self.tree.body):
            if idx <= future:
                self.add(stmt, "future_import", "n", (root, "*body", idx))
            else:
                self.stmt(stmt, (root, "*body", idx))
        return self.items

    def body(self, stmts, parent, field="*body", start=0):
        for idx, stmt in enumerate(stmts):
            self.stmt(stmt, (parent, field, idx + start))

    # statements

    def stmt(self, node, edge):
        kind = type(node).__name__
        if kind in OPAQUE:
            self.add(node, OPAQUE[kind], "n", edge)
            return
        getattr(self, "s_" + kind)(node, edge)

    def block_item(self, node, type_, edge, name, doc):
        item = self.add(node, type_, "w", edge, name)
        item.doc = doc
        item.code = self.text(node)
        return item

    def s_FunctionDef(self, node, edge, type_="function_def"):
        item = self.block_item(node, type_, edge, node.name,
                               ast.get_docstring(node) or "")
        outer, self.block = self.block, item
        self.add(node.name_node, "identifier", "n", (item, "name_node", None))
        for idx, dec in enumerate(node.decorator_list):
            self.expr(dec, (item, "*decorator_list", idx))
        self.arguments(node.args, (item, "args", None))
        body = node.body
        start = 0
        self.body(body[start:], item, start=0)
        self.block = outer

    def s_AsyncFunctionDef(self, node, edge):
        self.s_FunctionDef(node, edge, "function_def")

    def s_ClassDef(self, node, edge):
        item = self.block_item(node, "class_def", edge, node.name,
                               ast.get_docstring(node) or "")
        outer, self.block = self.block, item
        self.add(node.name_node, "identifier", "n", (item, "name_node", None))
        for idx, dec in enumerate(node.decorator_list):
            self.expr(dec, (item, "*decorator_list", idx))
        for idx, base in enumerate(node.bases):
            self.arg_value(base, (item, "*bases", idx))
        for idx, kw in enumerate(node.keywords):
            self.keyword(kw, (item, "*keywords", idx))
        body = node.body
        if (body and isinstance(body[0], ast.Expr) and
                isinstance(body[0].value, ast.Constant) and
                isinstance(body[0].value.value, str)):
            body = body[1:]
        self.body(body, item)
        self.block = outer

    def s_Return(self, node, edge):
        item = self.add(node, "return", "n", edge)
        if node.value:
            self.expr(node.value, (item, "value", None))

    def s_Assign(self, node, edge):
        item = self.add(node, "assign", "n", edge)
        for idx, target in enumerate(node.targets):
            self.expr(target, (item, "*targets", idx))
        self.expr(node.value, (item, "value", None))

    def s_AugAssign(self, node, edge):
        item = self.add(node, "aug_assign", "n", edge)
        self.expr(node.target, (item, "target", None))
        if isinstance(node.target, ast.Name):
            self.reload(node.target)
        self.expr(node.value, (item, "value", None))

    def reload(self, node):
        """The target of an augmented assignment is also read."""
        import copy
        new = copy.copy(node)
        new.ctx = ast.Load()
        self.expr(new, (None, None, None))

    def s_AnnAssign(self, node, edge):
        item = self.add(node, "ann_assign", "n", edge)
        self.add(node.annotation, "annotation", "n",
                 (item, "annotation", None))
        if node.value is None:
            self.add(node.target, "ann_target", "n", (item, "target", None))
            return
        self.expr(node.target, (item, "target", None))
        self.expr(node.value, (item, "value", None))

    def s_For(self, node, edge):
        item = self.add(node, "for", "n", edge)
        self.expr(node.target, (item, "target", None))
        self.expr(node.iter, (item, "iter", None))
        self.body(node.body, item)
        self.body(node.orelse, item, "*orelse")

    def s_While(self, node, edge):
        item = self.add(node, "while", "n", edge)
        self.expr(node.test, (item, "test", None))
        self.body(node.body, item)
        self.body(node.orelse, item, "*orelse")

    def s_If(self, node, edge):
        item = self.add(node, "if", "n", edge)
        self.body(node.body, item)
        self.body(node.orelse, item, "*orelse")
        self.expr(node.test, (item, "test", None))

    def s_With(self, node, edge):
        item = self.add(node, "with", "n", edge)
        self.body(node.body, item)
        for idx, wit in enumerate(node.items):
            where = (item, "*items", idx)
            part = self.add(wit, "withitem", "n", where)
            self.expr(wit.context_expr, where)
            if wit.optional_vars is not None:
                self.expr(wit.optional_vars,
                          (part, "optional_vars", None))

    def s_Try(self, node, edge):
        item = self.add(node, "try", "n", edge)
        self.body(node.body, item)
        for idx, handler in enumerate(node.handlers):
            exc = self.add(handler, "exception", "w",
                           (item, "*handlers", idx),
                           handler.name or "__now_exception__")
            self.body(handler.body, exc)
        self.body(node.orelse, item, "*orelse")
        self.body(node.finalbody, item, "*finalbody")

    def s_Expr(self, node, edge):
        item = self.add(node, "expr", "n", edge)
        self.expr(node.value, (item, "value", None))

    # expressions

    def arguments(self, args, edge):
        item = self.add(args, "arguments", "n", edge)
        for idx, arg in enumerate(args.posonlyargs + args.args):
            self.param(arg, (item, "*args", idx))
        if args.vararg:
            self.param(args.vararg, (item, "vararg", None))
        for idx, node in enumerate(args.defaults):
            self.expr(node, (item, "*defaults", idx))
        if args.kwarg:
            self.param(args.kwarg, (item, "kwarg", None))
        for idx, arg in enumerate(args.kwonlyargs):
            self.param(arg, (item, "*kwonlyargs", idx))
        for idx, node in enumerate(args.kw_defaults):
            if node is not None:
                self.expr(node, (item, "*kw_defaults", idx))

    def param(self, arg, edge):
        self.add(arg, "param", "w", edge, arg.arg)

    def expr(self, node, edge):
        kind = type(node).__name__
        if kind in OPAQUE:
            return self.add(node, OPAQUE[kind], "n", edge)
        return getattr(self, "e_" + kind)(node, edge)

    def simple(type_):      # noqa: N805
        def visit(self, node, edge):
            return self.add(node, type_, "r", edge)
        return visit

    e_Constant = simple("literal")

    def e_Name(self, node, edge):
        mode = {"Load": "r", "Store": "w", "Del": "d"}[
            type(node.ctx).__name__]
        return self.add(node, "name", mode, edge, node.id)

    def e_BoolOp(self, node, edge):
        item = self.add(node, type(node.op).__name__.lower(), "r", edge)
        for idx, value in enumerate(node.values):
            self.expr(value, (item, "*values", idx))
        return item

    def e_BinOp(self, node, edge):
        item = self.add(node, type(node.op).__name__.lower(), "r", edge)
        self.expr(node.left, (item, "left", None))
        self.expr(node.right, (item, "right", None))
        return item

    def e_UnaryOp(self, node, edge):
        item = self.add(node, type(node.op).__name__.lower(), "r", edge)
        self.expr(node.operand, (item, "operand", None))
        return item

    def e_Compare(self, node, edge):
        item = self.add(node, ".".join(
            type(op).__name__.lower() for op in node.ops), "r", edge)
        self.expr(node.left, (item, "left", None))
        for idx, value in enumerate(node.comparators):
            self.expr(value, (item, "*comparators", idx))
        return item

    def e_Lambda(self, node, edge):
        item = self.block_item(node, "lambda_def", edge, None, "")
        outer, self.block = self.block, item
        self.arguments(node.args, (item, "args", None))
        self.expr(node.body, (item, "body", None))
        self.block = outer
        return item

    def e_IfExp(self, node, edge):
        item = self.add(node, "ifexp", "r", edge)
        self.expr(node.test, (item, "test", None))
        self.expr(node.body, (item, "body", None))
        self.expr(node.orelse, (item, "orelse", None))
        return item

    def key_value(self, key, value, edge):
        span = (key.first_line, key.first_col, value.last_line,
                value.last_col)
        item = self.add(key, "key_value", "r", edge, span=span)
        self.expr(key, (item, "key", None))
        self.expr(value, (item, "value", None))

    def e_Dict(self, node, edge):
        item = self.add(node, "dict", "r", edge)
        for idx, (key, value) in enumerate(zip(node.keys, node.values)):
            where = (item, "key_value", idx)
            if key is None:
                unpack = self.add(value, "key_value", "n", where)
                self.expr(value, (unpack, "value", None))
            else:
                self.key_value(key, value, where)
        return item

    def seq(self, node, edge, type_):
        item = self.add(node, type_, "r", edge)
        for idx, elt in enumerate(node.elts):
            self.expr(elt, (item, "*elts", idx))
        return item

    def e_List(self, node, edge):
        return self.seq(node, edge, "list")

    def e_Tuple(self, node, edge):
        return self.seq(node, edge, "tuple")

    def e_Set(self, node, edge):
        return self.seq(node, edge, "set")

    def e_Starred(self, node, edge):
        item = self.add(node, "starred", "n", edge)
        self.expr(node.value, (item, "value", None))
        return item

    def comp(self, node, edge, type_):
        item = self.add(node, type_, "r", edge)
        if isinstance(node, ast.DictComp):
            self.key_value(node.key, node.value, (item, "key_value", None))
        else:
            self.expr(node.elt, (item, "elt", None))
        for idx, gen in enumerate(node.generators):
            part = self.add(gen, "comprehension", "n",
                            (item, "*generators", idx))
            self.expr(gen.target, (part, "target", None))
            self.expr(gen.iter, (part, "iter", None))
            for num, test in enumerate(gen.ifs):
                self.expr(test, (part, "*ifs", num))
        return item

    def e_ListComp(self, node, edge):
        return self.comp(node, edge, "listcomp")

    def e_SetComp(self, node, edge):
        return self.comp(node, edge, "setcomp")

    def e_DictComp(self, node, edge):
        return self.comp(node, edge, "dictcomp")

    def e_GeneratorExp(self, node, edge):
        return self.comp(node, edge, "genexpcomp")

    def e_Yield(self, node, edge):
        item = self.add(node, "yield", "r", edge)
        if node.value:
            self.expr(node.value, (item, "value", None))
        return item

    def arg_value(self, node, edge):
        if isinstance(node, ast.Starred):
            node = node.value
        self.expr(node, edge)

    def keyword(self, kw, edge):
        self.expr(kw.value, edge)

    def e_Call(self, node, edge):
        item = self.add(node, "call", "r", edge)
        if self.func:
            self.expr(node.func, (item, "func", None))
        else:
            self.add(node.func, "func", "n", (item, "func", None))
        for idx, arg in enumerate(node.args):
            self.arg_value(arg, (item, "*args", idx))
        for idx, kw in enumerate(node.keywords):
            self.keyword(kw, (item, "*keywords", idx))
        return item

    def e_FormattedValue(self, node, edge):
        item = self.add(node, "fvalue", "r", edge)
        self.expr(node.value, (item, "value", None))
        if node.format_spec:
            self.expr(node.format_spec, (item, "format_spec", None))
        return item

    def e_JoinedStr(self, node, edge):
        item = self.add(node, "fstring", "r", edge)
        for idx, value in enumerate(node.values):
            if isinstance(value, ast.Constant):
                self.add(value, "literal", "n", (item, "*values", idx))
            else:
                self.expr(value, (item, "*values", idx))
        return item

    def e_Attribute(self, node, edge):
        item = self.add(node, "attribute", "r", edge)
        self.expr(node.value, (item, "value", None))
        return item

    def e_Subscript(self, node, edge):
        item = self.add(node, "subscript", "r", edge)
        self.expr(node.value, (item, "value", None))
        self.expr(node.slice, (item, "slice", None))
        return item

    def e_NamedExpr(self, node, edge):
        item = self.add(node.target, "name", "w", edge, node.target.id)
        self.expr(node.value, (item, "value", None))
        return item

    def e_Slice(self, node, edge):
        item = self.add(node, "slice", "r", edge)
        for field in ("lower", "upper", "step"):
            if getattr(node, field) is not None:
                self.expr(getattr(node, field), (item, field, None))
        return item
