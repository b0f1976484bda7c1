"""Generator of Python programs (source text) for the capture checks.

Programs are type directed (every variable name has one type), terminate by
construction (bounded loops, decreasing recursion) and print their results.
Features can be switched off (``without``) by checks whose oracle does not
cover them.
"""
from hypothesis import strategies as st

NAMES = {
    "int": ["a", "b", "c", "d", "n1", "n2"],
    "str": ["s", "t", "u"],
    "list": ["xs", "ys", "zs"],
    "dict": ["dd", "ee"],
    "tup": ["tp", "tq"],
    "bool": ["p", "q"],
}
KEYS = ["'k'", "'m'", "'w'", "'é'"]


class Scope(object):
    def __init__(self, parent=None, prefix="", infunc=False):
        self.vars = {k: set() for k in NAMES}
        self.funcs = []     # (name, signature info)
        self.objs = []      # (var, class info)
        self.classes = []
        self.gens = []
        self.prefix = prefix
        self.infunc = infunc
        self.inloop = False
        self.inclass = False
        self.parent = parent
        self.hidden = set()
        self.handled = False

    def block(self):
        new = Scope(self.parent, self.prefix, self.infunc)
        new.vars = {k: set(v) for k, v in self.vars.items()}
        new.funcs = list(self.funcs)
        new.objs = list(self.objs)
        new.classes = list(self.classes)
        new.gens = list(self.gens)
        new.inloop = self.inloop
        new.inclass = self.inclass
        new.handled = self.handled
        return new

    def function(self, prefix):
        new = self.block()
        new.prefix = prefix
        new.infunc = True
        new.inloop = False
        new.inclass = False
        return new


class Gen(object):
    def __init__(self, draw, without=(), fuel=40):
        self.draw = draw
        self.without = set(without)
        self.fuel = fuel
        self.counter = 0
        self.used = set()
        self.imports = set()

    # -- choices -----------------------------------------------------------
    def int(self, low, high):
        return self.draw(st.integers(low, high))

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, num, den=10):
        """Simplest choice is False."""
        return self.int(0, den - 1) >= den - num

    def choose(self, options):
        """options: list of (feature, thunk); the first must be simplest."""
        options = [o for o in options if o and o[0] not in self.without]
        feature, thunk = options[self.int(0, len(options) - 1)]
        self.used.add(feature)
        return thunk()

    def fresh(self, stem):
        self.counter += 1
        return "{}{}".format(stem, self.counter)

    # -- expressions -------------------------------------------------------
    def var(self, scope, typ):
        names = sorted(scope.vars[typ] - scope.hidden)
        return self.pick(names) if names else None

    def expr(self, typ, scope, depth=2):
        return getattr(self, "e_" + typ)(scope, depth)

    def lit_int(self):
        return str(self.int(0, 9))

    def e_int(self, scope, depth):
        name = self.var(scope, "int")

        def atom():
            if name and self.chance(6):
                return self.var(scope, "int")
            return self.lit_int()
        if depth <= 0:
            return atom()
        sub = lambda: self.e_int(scope, depth - 1)  # noqa: E731
        opts = [
            ("atom", atom),
            ("atom", atom),
            ("binop", lambda: "({} {} {})".format(
                sub(), self.pick(["+", "-", "&", "|", "^"]), sub())),
            ("binop", lambda: "{} {} {}".format(
                self.paren(sub()), self.pick(["+", "-"]),
                self.paren(sub()))),
            ("binop", lambda: "(({} * {}) % 97)".format(sub(), sub())),
            ("binop", lambda: "({} {} {})".format(
                sub(), self.pick(["//", "%"]), self.int(1, 7))),
            ("pow", lambda: "({} ** {})".format(
                self.lit_int(), self.int(0, 3))),
            ("unary", lambda: "({}{})".format(
                self.pick(["-", "+", "~"]), sub())),
            ("ifexp", lambda: "({} if {} else {})".format(
                sub(), self.e_bool(scope, depth - 1), sub())),
            ("boolop", lambda: "({} {} {})".format(
                sub(), self.pick(["and", "or"]), sub())),
            ("boolop", lambda: "({} {} {} {} {})".format(
                sub(), self.pick(["and", "or"]), sub(),
                self.pick(["and", "or"]), sub())),
            ("call-builtin", lambda: "len({})".format(
                self.expr(self.pick(["list", "str", "dict"]), scope,
                          depth - 1))),
            ("call-builtin", lambda: "{}({}, {})".format(
                self.pick(["max", "min"]), sub(), sub())),
            ("call-builtin", lambda: "{}({}, {}, key={})".format(
                self.pick(["max", "min"]), sub(), sub(),
                self.lambda_int(scope, depth - 1, 1)))
            if not {"lambda", "key-lambda"} & set(self.without) else None,
            ("call-builtin", lambda: "abs({})".format(sub())),
            ("call-builtin", lambda: "int({})".format(
                self.e_bool(scope, depth - 1))),
            ("sum-gen", lambda: "sum({})".format(
                self.genexp(scope, depth - 1))),
            ("call-builtin", lambda: "sum({})".format(
                self.e_list(scope, depth - 1))),
            ("subscript", lambda: "({} + [{}])[{}]".format(
                self.e_list(scope, depth - 1), sub(),
                self.pick(["0", "-1"]))),
            ("subscript", lambda: "({}, {})[{}]".format(
                sub(), sub(), self.pick(["0", "1", "-1"]))),
            ("method-call", lambda: "{}.get({}, {})".format(
                self.e_dict(scope, depth - 1), self.pick(KEYS), sub())),
            ("method-call", lambda: "{}.count({})".format(
                self.e_list(scope, depth - 1), sub())),
            ("lambda", lambda: "({})({})".format(
                self.lambda_int(scope, depth - 1, 1), sub())),
            ("lambda", lambda: "({})({}, {})".format(
                self.lambda_int(scope, depth - 1, 2), sub(), sub())),
            ("walrus", lambda: "({} := {})".format(
                self.walrus_name(scope), sub()))
            if not scope.inclass else None,
            ("int-list-index", lambda: self.index_var(scope, depth)),
            ("multiline", lambda: "({}\n        + {})".format(sub(), sub())),
        ]
        if scope.funcs:
            opts.append(("user-call", lambda: self.user_call(scope, depth)))
            opts.append(("user-call", lambda: self.user_call(scope, depth)))
            opts.append(("user-call", lambda: self.user_call(scope, depth)))
        if scope.objs:
            opts.append(("attribute", lambda: self.obj_expr(scope, depth)))
            opts.append(("attribute", lambda: self.obj_expr(scope, depth)))
        if scope.gens:
            opts.append(("generator", lambda: "sum({}({}))".format(
                self.pick(scope.gens), self.e_int(scope, 0))))
        return self.choose(opts)

    def paren(self, text):
        return text

    def walrus_name(self, scope):
        name = scope.prefix + "wal"
        scope.vars["int"].add(name)
        scope.hidden.add(name)
        return name

    def index_var(self, scope, depth):
        name = self.var(scope, "list")
        if not name:
            return self.lit_int()
        return "({0}[{1} % len({0})] if {0} else {2})".format(
            name, self.e_int(scope, depth - 1), self.lit_int()) \
            if "ifexp" not in self.without else "len({})".format(name)

    def lambda_int(self, scope, depth, num):
        inner = scope.function(scope.prefix)
        names = ["x", "y"][:num]
        inner.vars["int"].update(names)
        inner.inloop = False
        params = ", ".join(names)
        if num == 2 and self.chance(3):
            params = "x, y=" + self.lit_int()
        hold = self.without
        self.without = hold | {"walrus"}
        body = self.e_int(inner, min(depth, 1))
        self.without = hold
        return "lambda {}: {}".format(params, body)

    def genexp(self, scope, depth):
        return self.comp_body(scope, depth, "int")

    def comp_body(self, scope, depth, typ):
        inner = scope.block()
        inner.inloop = False
        name = self.pick(["e", "v"])
        src = self.e_list(scope, min(depth, 1)) if self.chance(5) else (
            "range({})".format(self.int(0, 4)))
        inner.vars["int"].add(name)
        hold = self.without
        self.without = hold | {"walrus", "lambda-in-comp"}
        # class scopes are not visible inside comprehensions
        elt = self.expr(typ, inner, min(depth, 1))
        text = "{} for {} in {}".format(elt, name, src)
        if self.chance(3):
            text += " if {}".format(self.e_bool(inner, 1))
        if self.chance(2):
            self.used.add("nested-comp")
            inner2 = inner.block()
            inner2.vars["int"].add("g")
            text = "{} for {} in {} for g in range({})".format(
                self.expr(typ, inner2, 1), name, src, self.int(0, 3))
        self.without = hold
        return text

    def user_call(self, scope, depth):
        func = self.pick(scope.funcs)
        return func["call"](self, scope, depth)

    def obj_expr(self, scope, depth):
        name, info = self.pick(scope.objs)
        what = self.pick(info["reads"])
        return what.format(o=name, e=self.e_int(scope, min(depth - 1, 1)))

    def e_bool(self, scope, depth):
        name = self.var(scope, "bool")

        def atom():
            if name and self.chance(6):
                return name
            return self.pick(["True", "False"])
        if depth <= 0:
            return atom()
        sub = lambda: self.e_bool(scope, depth - 1)  # noqa: E731
        cmp_ = ["<", ">", "==", "!=", "<=", ">="]
        return self.choose([
            ("atom", atom),
            ("compare", lambda: "{} {} {}".format(
                self.e_int(scope, depth - 1), self.pick(cmp_),
                self.e_int(scope, depth - 1))),
            ("compare", lambda: "({} {} {})".format(
                self.e_int(scope, depth - 1), self.pick(cmp_),
                self.e_int(scope, depth - 1))),
            ("compare-chain", lambda: "({} {} {} {} {})".format(
                self.e_int(scope, depth - 1), self.pick(cmp_),
                self.e_int(scope, depth - 1), self.pick(cmp_),
                self.e_int(scope, depth - 1))),
            ("boolop", lambda: "({} {} {})".format(
                sub(), self.pick(["and", "or"]), sub())),
            ("unary", lambda: "(not {})".format(sub())),
            ("in", lambda: "({} {} {})".format(
                self.e_int(scope, depth - 1),
                self.pick(["in", "not in"]),
                self.e_list(scope, depth - 1))),
            ("in", lambda: "({} in {})".format(
                self.pick(KEYS), self.e_dict(scope, depth - 1))),
            ("is", lambda: "({} is {}None)".format(
                self.e_int(scope, depth - 1), self.pick(["", "not "]))),
            ("str-compare", lambda: "({} {} {})".format(
                self.e_str(scope, depth - 1), self.pick(cmp_),
                self.e_str(scope, depth - 1))),
            ("call-builtin", lambda: "{}({})".format(
                self.pick(["any", "all"]), self.e_list(scope, depth - 1))),
            ("call-builtin", lambda: "isinstance({}, int)".format(
                self.e_int(scope, depth - 1))),
        ])

    def lit_str(self):
        return self.pick(["''", "'x'", "'a b'", '"q"', "'é→'", "'{}'",
                          "'%d'", "'\\n'", "\"it's\"", "r'\\d'",
                          "'''t\nq'''" if "triple" not in self.without
                          else "'tq'"])

    def e_str(self, scope, depth):
        name = self.var(scope, "str")

        def atom():
            if name and self.chance(6):
                return name
            return self.lit_str()
        if depth <= 0:
            return atom()
        sub = lambda: self.e_str(scope, depth - 1)  # noqa: E731
        return self.choose([
            ("atom", atom),
            ("call-builtin", lambda: "str({})".format(
                self.e_int(scope, depth - 1))),
            ("call-builtin", lambda: "repr({})".format(
                self.expr(self.pick(["int", "str", "list"]), scope,
                          depth - 1))),
            ("binop", lambda: "({} + {})".format(sub(), sub())),
            ("binop", lambda: "({} * {})".format(sub(), self.int(0, 3))),
            ("str-format", lambda: "'%s-%s' % ({}, {})".format(
                sub(), self.e_int(scope, depth - 1))),
            ("method-call", lambda: "'<{{}}|{{k}}>'.format({}, k={})".format(
                sub(), self.e_int(scope, depth - 1))),
            ("method-call", lambda: "{}.{}()".format(
                self.wrap_str(sub()),
                self.pick(["upper", "strip", "title"]))),
            ("method-call", lambda: "'-'.join(str(e) for e in {})".format(
                self.e_list(scope, depth - 1))),
            ("fstring", lambda: "f'<{{{}}}>'".format(
                self.e_int_simple(scope))),
            ("fstring", lambda: "f'{{{}!r:>{}}}|{{{}}}'".format(
                self.e_int_simple(scope), self.int(1, 4),
                self.e_int_simple(scope))),
            ("slice", lambda: "{}[{}:{}]".format(
                self.wrap_str(sub()), self.pick(["", "1", "-2"]),
                self.pick(["", "2", "-1"]))),
            ("slice", lambda: "{}[{}]".format(
                self.wrap_str(sub()), self.any_slice())),
            ("str-concat-implicit", lambda: "('p' 'q{}')".format(
                self.int(0, 9))),
        ])

    def wrap_str(self, text):
        return "({})".format(text)

    def e_int_simple(self, scope):
        name = self.var(scope, "int")
        base = name or self.lit_int()
        return self.pick([base, base + " + 1", "-" + base])

    def e_list(self, scope, depth):
        name = self.var(scope, "list")

        def atom():
            if name and self.chance(6):
                return name
            return "[{}]".format(", ".join(
                self.e_int(scope, 0) for _ in range(self.int(0, 3))))
        if depth <= 0:
            return atom()
        sub = lambda: self.e_list(scope, depth - 1)  # noqa: E731
        return self.choose([
            ("atom", atom),
            ("list-literal", lambda: "[{}]".format(", ".join(
                self.e_int(scope, depth - 1)
                for _ in range(self.int(0, 3))))),
            ("listcomp", lambda: "[{}]".format(
                self.comp_body(scope, depth - 1, "int"))),
            ("call-builtin", lambda: "list(range({}))".format(
                self.int(0, 4))),
            ("call-builtin", lambda: "sorted({})".format(sub())),
            ("call-builtin", lambda: "sorted({}, reverse=True)".format(
                sub())),
            ("call-builtin", lambda: "list(map({}, {}))".format(
                self.lambda_int(scope, depth - 1, 1), sub()))
            if "lambda" not in self.without else None,
            ("binop", lambda: "({} + {})".format(sub(), sub())),
            ("starred-literal", lambda: "[*{}, {}]".format(
                sub(), self.e_int(scope, depth - 1))),
            ("slice", lambda: "({})[{}:{}]".format(
                sub(), self.pick(["", "1", "-2"]),
                self.pick(["", "2", "-1"]))),
            ("slice", lambda: "({})[::{}]".format(
                sub(), self.pick(["-1", "2"]))),
            ("slice", lambda: "({})[{}]".format(sub(), self.any_slice())),
            ("method-call", lambda: "list({}.values())".format(
                self.e_dict(scope, depth - 1))),
            ("call-builtin", lambda: "list({})".format(
                self.e_tup(scope, depth - 1))),
            ("generator", lambda: "list({}({}))".format(
                self.pick(scope.gens), self.e_int(scope, 0)))
            if scope.gens else None,
        ])

    def e_tup(self, scope, depth):
        name = self.var(scope, "tup")
        if name and self.chance(5):
            return name
        return "({}, {})".format(self.e_int(scope, depth - 1),
                                 self.e_int(scope, depth - 1))

    def e_dict(self, scope, depth):
        name = self.var(scope, "dict")

        def atom():
            if name and self.chance(6):
                return name
            return "{{{}}}".format(", ".join(
                "{}: {}".format(self.pick(KEYS), self.e_int(scope, 0))
                for _ in range(self.int(0, 2))))
        if depth <= 0:
            return atom()
        return self.choose([
            ("atom", atom),
            ("dict-literal", lambda: "{{{}}}".format(", ".join(
                "{}: {}".format(self.pick(KEYS),
                                self.e_int(scope, depth - 1))
                for _ in range(self.int(0, 3))))),
            ("dictcomp", lambda: "{{str(e): {} for e in {}}}".format(
                self.e_int(scope, depth - 1), self.e_list(scope, 0))),
            ("call-builtin", lambda: "dict(k={}, m={})".format(
                self.e_int(scope, depth - 1), self.e_int(scope, 0))),
            ("dict-unpack", lambda: "{{**{}, {}: {}}}".format(
                self.e_dict(scope, depth - 1), self.pick(KEYS),
                self.e_int(scope, depth - 1))),
        ])

    # -- statements --------------------------------------------------------
    def indent(self, lines):
        return ["    " + ln if ln and not ln.startswith("\x00") else ln
                for ln in lines]

    def target(self, scope, typ):
        """Name to assign."""
        names = [scope.prefix + n for n in NAMES[typ]]
        name = self.pick(names)
        return name

    def define(self, scope, typ, name):
        scope.vars[typ].add(name)

    def body(self, scope, depth, low=1, high=3):
        lines = []
        for _ in range(self.int(low, high)):
            lines.extend(self.stmt(scope, depth))
        if all(ln.lstrip().startswith("#") for ln in lines):
            lines.append("pass")
        return lines

    def stmt(self, scope, depth):
        if self.fuel <= 0:
            return self.s_assign(scope, depth)
        self.fuel -= 1
        opts = [
            ("assign", lambda: self.s_assign(scope, depth)),
            ("assign", lambda: self.s_assign(scope, depth)),
            ("assign", lambda: self.s_assign(scope, depth)),
            ("augassign", lambda: self.s_augassign(scope, depth)),
            ("print", lambda: ["print({})".format(
                self.expr(self.pick(["int", "str", "list", "bool", "tup"]),
                          scope, 2))]),
            ("chain-assign", lambda: self.s_chain(scope)),
            ("tuple-assign", lambda: self.s_tuple(scope)),
            ("starred-assign", lambda: self.s_starred(scope)),
            ("annassign", lambda: self.s_ann(scope)),
            ("item-assign", lambda: self.s_item(scope)),
            ("method-stmt", lambda: self.s_method(scope)),
            ("pass", lambda: ["pass"]),
            ("assert", lambda: ["assert {} or True, 'msg'".format(
                self.e_bool(scope, 1))]),
            ("expr-stmt", lambda: [self.expr(
                self.pick(["int", "str", "list"]), scope, 1)]),
            ("comment", lambda: ["# é comment " + self.fresh("c")]),
            ("import", lambda: self.s_import(scope)),
            ("semicolon", lambda: ["; ".join(
                self.s_assign(scope, depth, simple=True)
                + self.s_assign(scope, depth, simple=True))]),
        ]
        if depth > 0:
            opts += [
                ("if", lambda: self.s_if(scope, depth)),
                ("if", lambda: self.s_if(scope, depth)),
                ("for", lambda: self.s_for(scope, depth)),
                ("for", lambda: self.s_for(scope, depth)),
                ("while", lambda: self.s_while(scope, depth)),
                ("try", lambda: self.s_try(scope, depth)),
                ("with", lambda: self.s_with(scope, depth)),
            ]
            if not scope.inclass:
                opts += [
                    ("funcdef", lambda: self.s_func(scope, depth)),
                    ("funcdef", lambda: self.s_func(scope, depth)),
                    ("funcdef", lambda: self.s_func(scope, depth)),
                    ("recursion", lambda: self.s_recursive(scope)),
                    ("generator", lambda: self.s_generator(scope, depth)),
                    ("closure", lambda: self.s_closure(scope)),
                    ("class", lambda: self.s_class(scope, depth)),
                    ("decorator", lambda: self.s_decorated(scope)),
                    ("lambda-assign", lambda: self.s_lambda(scope)),
                ]
        if scope.inloop:
            opts += [
                ("break", lambda: ["if {}:".format(self.e_bool(scope, 1)),
                                   "    break"]),
                ("continue", lambda: ["if {}:".format(self.e_bool(scope, 1)),
                                      "    continue"]),
            ]
        if scope.infunc and not scope.inclass:
            opts += [("early-return", lambda: [
                "if {}:".format(self.e_bool(scope, 1)),
                "    return {}".format(self.e_int(scope, 1))])]
        if scope.objs:
            opts += [("attr-assign", lambda: self.s_attr(scope))]
        return self.choose(opts)

    def s_assign(self, scope, depth, simple=False):
        typ = self.pick(["int", "int", "int", "list", "str", "dict", "tup",
                         "bool"])
        text = self.expr(typ, scope, 1 if simple else 3)
        name = self.target(scope, typ)
        self.define(scope, typ, name)
        return ["{} = {}".format(name, text)]

    def any_slice(self):
        bound = lambda: self.pick(  # noqa: E731
            ["0", "", "1", "3", "-1", "-2", "None"])
        return "{}:{}:{}".format(
            bound(), bound(), self.pick(["-1", "1", "-2", "2", ""]))

    def s_augassign(self, scope, depth):
        name = self.pick(sorted(
            n for n in scope.vars["int"] - scope.hidden
            if n.startswith(scope.prefix) and n[len(scope.prefix):]
            in NAMES["int"]) or [None])
        kind = self.int(0, 2)
        if kind == 0 and name:
            return ["{} {}= {}".format(
                name, self.pick(["+", "-", "|", "^", "&"]),
                self.e_int(scope, 2))]
        if kind == 1:
            lname = self.local(scope, "list")
            if lname:
                return ["{} += {}".format(lname, self.e_list(scope, 2))]
        if kind == 2:
            dname = self.local(scope, "dict")
            if dname:
                key = self.pick(KEYS)
                return ["{}[{}] = {}".format(dname, key,
                                             self.e_int(scope, 1)),
                        "{}[{}] += {}".format(dname, key,
                                              self.e_int(scope, 1))]
        return self.s_assign(scope, depth)

    def local(self, scope, typ):
        names = sorted(
            n for n in scope.vars[typ] - scope.hidden
            if n.startswith(scope.prefix)
            and n[len(scope.prefix):] in NAMES[typ])
        return self.pick(names) if names else None

    def s_chain(self, scope):
        text = self.e_int(scope, 2)
        one, two = self.target(scope, "int"), self.target(scope, "int")
        self.define(scope, "int", one)
        self.define(scope, "int", two)
        form = self.int(0, 3)
        if form == 2:
            lname = self.target(scope, "list")
            self.define(scope, "list", lname)
            return ["{} = [4, 5, 6]".format(lname), "{} = 0".format(one),
                    "{0} = {1}[{0}] = {2} = ({3}) % 3".format(
                        one, lname, two, text)]
        if form == 3:
            lname = self.target(scope, "list")
            self.define(scope, "list", lname)
            return ["{0}, {1} = {2} = [{3}, ({4}) % 7]".format(
                        one, two, lname, text, self.e_int(scope, 1)),
                    "{0}[0], {1} = {1}, {0}[1]".format(lname, one)]
        return ["{} = {} = {}".format(one, two, text)]

    def s_tuple(self, scope):
        texts = [self.e_int(scope, 2), self.e_int(scope, 2)]
        one, two = self.target(scope, "int"), self.target(scope, "int")
        form = self.int(0, 4)
        self.define(scope, "int", one)
        self.define(scope, "int", two)
        if form == 0:
            return ["{}, {} = {}, {}".format(one, two, *texts)]
        if form == 1:
            return ["({}, {}) = [{}, {}]".format(one, two, *texts)]
        if form == 2:
            tup = self.e_tup(scope, 2)
            return ["[{}, {}] = {}".format(one, two, tup)]
        third = self.target(scope, "int")
        self.define(scope, "int", third)
        if form == 3:
            return ["{}, ({}, {}) = {}, ({}, {})".format(
                one, two, third, texts[0], texts[1], self.lit_int())]
        return ["({0}, {1}), {2} = ({3}, {4}), {3}".format(
            one, two, third, *texts)]

    def s_starred(self, scope):
        one = self.target(scope, "int")
        rest = self.target(scope, "list")
        src = "[{}, {}, *{}]".format(
            self.e_int(scope, 1), self.e_int(scope, 1),
            self.e_list(scope, 1)) if "starred-literal" not in self.without \
            else "[{}] + {}".format(self.e_int(scope, 1),
                                    self.e_list(scope, 1))
        self.define(scope, "int", one)
        self.define(scope, "list", rest)
        if self.chance(3):
            return ["*{}, {} = {}".format(rest, one, src)]
        return ["{}, *{} = {}".format(one, rest, src)]

    def s_ann(self, scope):
        if self.chance(2):
            return ["{}: int".format(self.fresh(scope.prefix + "an"))]
        text = self.e_int(scope, 2)
        name = self.target(scope, "int")
        self.define(scope, "int", name)
        return ["{}: int = {}".format(name, text)]

    def s_item(self, scope):
        kind = self.int(0, 3)
        dname = self.var(scope, "dict")
        lname = self.var(scope, "list")
        if kind == 0 and dname:
            return ["{}[{}] = {}".format(dname, self.pick(KEYS),
                                         self.e_int(scope, 2))]
        if kind == 1 and lname:
            return ["{}.append({})".format(lname, self.e_int(scope, 1)),
                    "{}[{}] = {}".format(lname, self.pick(["0", "-1"]),
                                         self.e_int(scope, 2))]
        if kind == 2 and lname:
            return ["{}[1:2] = {}".format(lname, self.e_list(scope, 1))]
        if kind == 3 and lname:
            return ["{}[:0] = {}".format(lname, self.e_list(scope, 1)),
                    "del {}[1:]".format(lname)]
        return self.s_assign(scope, 1)

    def s_method(self, scope):
        lname = self.var(scope, "list")
        dname = self.var(scope, "dict")
        kind = self.int(0, 4)
        if lname:
            if kind == 0:
                return ["{}.append({})".format(lname, self.e_int(scope, 2))]
            if kind == 1:
                return ["{}.extend({})".format(lname, self.e_list(scope, 1)),
                        "del {}[4:]".format(lname)]
            if kind == 2:
                return ["{}.sort()".format(lname)]
            if kind == 3:
                return ["{}.insert(0, {})".format(
                    lname, self.e_int(scope, 1)),
                    "{}.pop()".format(lname)]
        if dname:
            return ["{}.update({})".format(dname, self.e_dict(scope, 1))]
        return self.s_assign(scope, 1)

    def s_import(self, scope):
        return self.pick([
            ["import math", "print(math.floor({} / 2))".format(
                self.e_int(scope, 1))],
            ["from math import gcd", "print(gcd(abs({}), 6))".format(
                self.e_int(scope, 1))],
            ["import os.path as osp", "print(osp.join('a', {}))".format(
                self.e_str(scope, 0))],
            ["import collections",
             "print(collections.Counter({}).most_common(1))".format(
                 self.e_list(scope, 1))],
        ])

    def s_if(self, scope, depth):
        lines = ["if {}:".format(self.e_bool(scope, 2))]
        lines += self.indent(self.body(scope.block(), depth - 1))
        for _ in range(self.int(0, 2) if self.chance(4) else 0):
            lines.append("elif {}:".format(self.e_bool(scope, 2)))
            lines += self.indent(self.body(scope.block(), depth - 1))
        if self.chance(5):
            lines.append("else:")
            lines += self.indent(self.body(scope.block(), depth - 1))
        return lines

    def s_for(self, scope, depth):
        inner = scope.block()
        inner.inloop = True
        kind = self.int(0, 5)
        name = scope.prefix + self.pick(["i", "j"])
        if kind <= 1:
            head = "for {} in range({}):".format(name, self.int(0, 4))
            inner.vars["int"].add(name)
        elif kind == 2:
            src = self.e_list(scope, 1)
            head = "for {} in ({})[:4]:".format(name, src)
            inner.vars["int"].add(name)
        elif kind == 3:
            head = "for {0}k, {0}v in sorted({1}.items()):".format(
                scope.prefix, self.e_dict(scope, 1))
            inner.vars["str"].add(scope.prefix + "k")
            inner.vars["int"].add(scope.prefix + "v")
        elif kind == 4:
            head = "for {0}ix, {1} in enumerate(({2})[:3]):".format(
                scope.prefix, name, self.e_list(scope, 1))
            inner.vars["int"].update([name, scope.prefix + "ix"])
        else:
            head = "for {}, {} in zip({}, range(3)):".format(
                name, scope.prefix + "z", self.e_list(scope, 1))
            inner.vars["int"].update([name, scope.prefix + "z"])
        lines = [head] + self.indent(self.body(inner, depth - 1))
        if self.chance(2) and "loop-else" not in self.without:
            self.used.add("loop-else")
            lines.append("else:")
            lines += self.indent(self.body(scope.block(), depth - 1, 1, 2))
        return lines

    def s_while(self, scope, depth):
        cnt = self.fresh(scope.prefix + "cnt")
        inner = scope.block()
        inner.inloop = True
        cond = "{} > 0".format(cnt)
        if self.chance(4):
            cond = "{} > 0 and {}".format(cnt, self.e_bool(scope, 1))
        lines = ["{} = {}".format(cnt, self.int(0, 4)),
                 "while {}:".format(cond)]
        lines += self.indent(["{} -= 1".format(cnt)]
                             + self.body(inner, depth - 1))
        if self.chance(2) and "loop-else" not in self.without:
            self.used.add("loop-else")
            lines.append("else:")
            lines += self.indent(self.body(scope.block(), depth - 1, 1, 2))
        return lines

    def raising(self, scope):
        """A statement that raises (or may raise) a known exception."""
        text, exc = self.simple_raising(scope)
        if not text.startswith(("raise", "assert")) and self.chance(5):
            self.used.add("raise:argument")
            other = self.e_int(scope, 1)
            text = self.pick([
                "print({0}, {1})", "max({1}, {0})", "repr([{1}, {0}])",
                "len(str({0}))", "print({1}, max(1, {0}))",
                "sorted([{0}], key=lambda q: q)"]).format(text, other)
        return text, exc

    def simple_raising(self, scope):
        return self.pick([
            ("raise ValueError({})".format(self.e_int(scope, 1)),
             "ValueError"),
            ("[][{}]".format(self.int(0, 3)), "IndexError"),
            ("{{}}[{}]".format(self.pick(KEYS)), "KeyError"),
            ("{} // ({} % 2)".format(self.e_int(scope, 1),
                                     self.e_int(scope, 1)),
             "ZeroDivisionError"),
            ("int('x' * {})".format(self.int(0, 2)), "ValueError"),
            ("None.foo", "AttributeError"),
            ("raise KeyError('k') from ValueError('v')", "KeyError"),
            ("assert {}, {}".format(self.e_bool(scope, 1),
                                    self.e_int(scope, 1)), "AssertionError"),
        ])

    def s_try(self, scope, depth):
        inner = scope.block()
        inner.handled = True
        text, exc = self.raising(scope)
        lines = ["try:"]
        block = self.body(inner, depth - 1, 0, 2)
        if self.chance(7):
            block.append(text)
        lines += self.indent(block)
        kind = self.int(0, 6)
        handler = scope.block()
        body = self.body(handler, depth - 1, 1, 2)
        if kind == 0:
            lines += ["except Exception:"] + self.indent(body)
        elif kind == 1:
            lines += ["except Exception as exc:"] + self.indent(
                ["print(type(exc).__name__, exc)"] + body)
        elif kind == 2:
            lines += ["except {} as err:".format(exc)] + self.indent(
                ["print(repr(err))"] + body) + [
                    "except (TypeError, ArithmeticError, LookupError, "
                    "ValueError, AttributeError, AssertionError):",
                    "    print('other')"]
        elif kind == 3:
            lines += ["except {}:".format(exc), "    print('first')",
                      "except Exception as exc:",
                      "    print('second', exc)"]
        elif kind == 4:
            lines += ["except:"] + self.indent(body)
        elif kind == 5 and "reraise" not in self.without:
            self.used.add("reraise")
            lines = ["try:"] + self.indent(lines + [
                "except {}:".format(exc)] + self.indent(body + ["raise"])
                ) + ["except Exception as outer:",
                     "    print('outer', type(outer).__name__, outer)"]
        else:
            lines += ["except Exception:", "    print('handled')"]
        if kind in (0, 1, 3, 4):
            if self.chance(3):
                lines += ["else:"] + self.indent(
                    self.body(scope.block(), depth - 1, 1, 2))
            if self.chance(3):
                lines += ["finally:"] + self.indent(
                    ["print('fin')"] if scope.inloop or scope.infunc
                    else self.body(scope.block(), depth - 1, 1, 2))
        return lines

    def s_with(self, scope, depth):
        if "with" in self.without:
            return self.s_assign(scope, depth)
        name = self.fresh("CM")
        swallow = self.pick(["False", "True"])
        lines = [
            "class {}:".format(name),
            "    def __enter__(self):",
            "        print('enter')",
            "        return {}".format(self.lit_int()),
            "    def __exit__(self, *args):",
            "        print('exit', args[0].__name__ if args[0] else None)",
            "        return {}".format(swallow),
        ] if "class" not in self.without else [
            "import contextlib",
        ]
        expr = name + "()" if "class" not in self.without else \
            "contextlib.nullcontext({})".format(self.lit_int())
        inner = scope.block()
        var = scope.prefix + "w"
        if self.chance(7):
            inner.vars["int"].add(var)
            head = "with {} as {}:".format(expr, var)
        elif self.chance(3):
            inner.vars["int"].update([var, var + "2"])
            head = "with {0} as {1}, {0} as {1}2:".format(expr, var)
        else:
            head = "with {}:".format(expr)
        body = self.body(inner, depth - 1, 1, 2)
        if swallow == "True" and "class" not in self.without and (
                self.chance(4)):
            body.append(self.raising(inner)[0])
        return lines + [head] + self.indent(body)

    def params(self, scope):
        """Return (signature text, int names, caller)"""
        kind = self.int(0, 7)
        deflt = self.e_int(scope, 1)
        if kind == 0:
            return "x", ["x"], lambda g, s, d: g.e_int(s, d - 1)
        if kind == 1:
            return "x, y", ["x", "y"], lambda g, s, d: "{}, {}".format(
                g.e_int(s, d - 1), g.e_int(s, d - 1))
        if kind == 2:
            return ("x, y={}".format(deflt), ["x", "y"],
                    lambda g, s, d: g.pick([
                        lambda: g.e_int(s, d - 1),
                        lambda: "{}, {}".format(g.e_int(s, d - 1),
                                                g.e_int(s, d - 1)),
                        lambda: "y={}, x={}".format(g.e_int(s, d - 1),
                                                    g.e_int(s, d - 1)),
                    ])())
        if kind == 3:
            return "", [], lambda g, s, d: ""
        if kind == 4 and "varargs" not in self.without:
            self.used.add("varargs")
            return ("x, *rest", ["x", "len(rest)", "sum(rest)"],
                    lambda g, s, d: g.pick([
                        lambda: g.e_int(s, d - 1),
                        lambda: "{}, {}, {}".format(
                            g.e_int(s, d - 1), g.e_int(s, 0), g.e_int(s, 0)),
                        lambda: "{}, *{}".format(g.e_int(s, d - 1),
                                                 g.e_list(s, d - 1)),
                    ])())
        if kind == 5 and "kwargs" not in self.without:
            self.used.add("kwargs")
            return ("x=1, **kw", ["x", "len(kw)", "kw.get('k', 0)"],
                    lambda g, s, d: g.pick([
                        lambda: "k={}".format(g.e_int(s, d - 1)),
                        lambda: "{}, k={}, m={}".format(
                            g.e_int(s, d - 1), g.e_int(s, 0), g.e_int(s, 0)),
                        lambda: "**{{'x': {}, 'm': {}}}".format(
                            g.e_int(s, d - 1), g.e_int(s, 0)),
                    ])())
        if kind == 6 and "kwonly" not in self.without:
            self.used.add("kwonly")
            return ("x, *, y={}".format(deflt), ["x", "y"],
                    lambda g, s, d: g.pick([
                        lambda: g.e_int(s, d - 1),
                        lambda: "{}, y={}".format(g.e_int(s, d - 1),
                                                  g.e_int(s, d - 1)),
                    ])())
        if kind == 7 and "posonly" not in self.without:
            self.used.add("posonly")
            return ("x, /, y={}".format(self.lit_int()), ["x", "y"],
                    lambda g, s, d: "{}, y={}".format(
                        g.e_int(s, d - 1), g.e_int(s, d - 1)))
        return "x", ["x"], lambda g, s, d: g.e_int(s, d - 1)

    def s_func(self, scope, depth):
        name = self.fresh("f")
        sig, names, caller = self.params(scope)
        inner = scope.function("l" + str(self.counter) + "_")
        # reads of outer locals are fine, writes use the prefix
        inner.vars["int"].update(n for n in names)
        inner.hidden = set(scope.hidden)
        lines = ["def {}({}):".format(name, sig)]
        body = []
        if self.chance(3):
            body.append(self.pick(['"""Doc é"""', '"""Doc\n    more\n    """',
                                   "'single'"]))
        if self.chance(2) and not scope.infunc and "global" not in (
                self.without):
            glob = self.local(scope, "int")
            if glob:
                self.used.add("global")
                body.append("global " + glob)
                body.append("{} = {}".format(glob, self.e_int(inner, 1)))
        body += self.body(inner, depth - 1, 1, 3)
        body.append("return {}".format(self.e_int(inner, 2)))
        lines += self.indent(body)
        scope.funcs.append({
            "name": name,
            "call": lambda g, s, d: "{}({})".format(name, caller(g, s, d))})
        return lines

    def s_recursive(self, scope):
        name = self.fresh("rec")
        inner = scope.function("r_")
        inner.vars["int"].add("n")
        inner.funcs = list(scope.funcs)
        lines = [
            "def {}(n, acc=0):".format(name),
            "    if n <= 0:",
            "        return acc + {}".format(self.e_int(inner, 1)),
            "    return {}(n - 1, {}) + {}".format(
                name, self.pick(["acc + n", "acc", self.lit_int()]),
                self.pick(["n", "1", "acc"])),
        ]
        scope.funcs.append({
            "name": name,
            "call": lambda g, s, d: "{}({})".format(name, g.int(0, 3))})
        return lines

    def s_generator(self, scope, depth):
        name = self.fresh("gen")
        inner = scope.function("g_")
        inner.vars["int"].add("n")
        lines = ["def {}(n):".format(name),
                 "    for gi in range(3):",
                 "        yield n + gi * {}".format(self.lit_int())]
        if self.chance(5):
            inner.vars["int"].add("gi")
            lines = ["def {}(n):".format(name),
                     "    for gi in range({}):".format(self.int(0, 3)),
                     "        if {}:".format(self.e_bool(inner, 1)),
                     "            yield {}".format(self.e_int(inner, 1)),
                     "        else:",
                     "            yield -gi"]
        if self.chance(2) and "yield-from" not in self.without:
            self.used.add("yield-from")
            lines.append("    yield from [n, {}]".format(self.lit_int()))
        scope.gens.append(name)
        return lines

    def s_closure(self, scope):
        name = self.fresh("mk")
        cvar = self.fresh("cl")
        lines = ["def {}(start):".format(name),
                 "    total = start",
                 "    def add(x):"]
        if "nonlocal" not in self.without:
            self.used.add("nonlocal")
            lines += ["        nonlocal total",
                      "        total += x"]
        lines += ["        return total + x",
                  "    return add",
                  "{} = {}({})".format(cvar, name, self.e_int(scope, 1))]
        scope.funcs.append({
            "name": cvar,
            "call": lambda g, s, d: "{}({})".format(cvar,
                                                    g.e_int(s, d - 1))})
        return lines

    def s_lambda(self, scope):
        name = self.fresh("lam")
        text = self.lambda_int(scope, 2, 1)
        scope.funcs.append({
            "name": name,
            "call": lambda g, s, d: "{}({})".format(name,
                                                    g.e_int(s, d - 1))})
        return ["{} = {}".format(name, text)]

    def s_decorated(self, scope):
        dec = self.fresh("dec")
        name = self.fresh("f")
        form = self.int(0, 2)
        if form == 0:
            lines = ["def {}(fn):".format(dec),
                     "    def wrapper(*args, **kwargs):",
                     "        return fn(*args, **kwargs) + 1",
                     "    return wrapper",
                     "@" + dec]
        elif form == 1:
            lines = ["def {}(num):".format(dec),
                     "    def deco(fn):",
                     "        def wrapper(x):",
                     "            return fn(x) * num % 50",
                     "        return wrapper",
                     "    return deco",
                     "@{}({})".format(dec, self.e_int(scope, 1))]
        else:
            lines = ["import functools",
                     "@functools.lru_cache(None)"]
        inner = scope.function("d_")
        inner.vars["int"].add("x")
        lines += ["def {}(x):".format(name),
                  "    return {}".format(self.e_int(inner, 2))]
        scope.funcs.append({
            "name": name,
            "call": lambda g, s, d: "{}({})".format(name,
                                                    g.e_int(s, d - 1))})
        return lines

    def s_class(self, scope, depth):
        name = self.fresh("K")
        obj = self.fresh(scope.prefix + "ob")
        inner = scope.function("m_")
        inner.vars["int"].add("x")
        lines = []
        reads = ["{o}.val", "{o}.method({e})"]
        base = ""
        if scope.classes and self.chance(4):
            base = "({})".format(self.pick(scope.classes))
        lines.append("class {}{}:".format(name, base))
        body = []
        if self.chance(3):
            body.append('"""Class doc"""')
        if self.chance(4):
            body.append("level = {}".format(self.e_int(scope, 1)))
            reads.append("{o}.level")
        body += ["def __init__(self, x=0):",
                 "    self.val = x + {}".format(self.lit_int())]
        if self.chance(3):
            body.append("    self.items = [x, {}]".format(self.lit_int()))
            reads.append("{o}.items[0]")
            reads.append("len({o}.items)")
        body += ["def method(self, x):"]
        body += self.indent(self.body(inner, 0, 0, 2)
                            if self.chance(4) else [])
        if base and self.chance(5):
            body.append("    return super().method(x) + self.val")
        else:
            body.append("    return self.val + {}".format(
                self.e_int(inner, 1)))
        if self.chance(3):
            self.used.add("property")
            body += ["@property", "def prop(self):",
                     "    return self.val * 2"]
            reads.append("{o}.prop")
        if self.chance(3):
            self.used.add("staticmethod")
            body += ["@staticmethod", "def stat(x):",
                     "    return x - 1"]
            reads.append("{o}.stat({e})")
        if self.chance(3):
            self.used.add("classmethod")
            body += ["@classmethod", "def clsm(cls, x):",
                     "    return len(cls.__name__) + x"]
            reads.append("{o}.clsm({e})")
        if self.chance(2):
            self.used.add("dunder")
            body += ["def __add__(self, other):",
                     "    return self.val + other",
                     "def __len__(self):", "    return 3",
                     "def __getitem__(self, key):",
                     "    return key * 2"]
            reads += ["({o} + {e})", "len({o})", "{o}[{e}]"]
        lines += self.indent(body)
        lines.append("{} = {}({})".format(obj, name, self.e_int(scope, 1)))
        scope.classes.append(name)
        scope.objs.append((obj, {"reads": reads}))
        return lines

    def s_attr(self, scope):
        name, _ = self.pick(scope.objs)
        if self.chance(5):
            return ["{}.val = {}".format(name, self.e_int(scope, 2))]
        return ["{}.val += {}".format(name, self.e_int(scope, 2))]

    # -- program -----------------------------------------------------------
    def program(self, depth=3, low=2, high=8, ending=True):
        scope = Scope()
        lines = []
        if self.chance(2):
            lines.append('"""Module doc é"""')
        for _ in range(self.int(low, high)):
            lines.extend(self.stmt(scope, depth))
        for typ in sorted(NAMES):
            for name in sorted(scope.vars[typ] - scope.hidden):
                lines.append("print({!r}, {})".format(name, name))
        for name, info in scope.objs:
            lines.append("print({}.val)".format(name))
        if ending and "ending" not in self.without:
            lines += self.ending(scope)
        self.scope = scope
        return "\n".join(lines) + "\n"

    def ending(self, scope):
        kind = self.int(0, 9)
        if kind < 7:
            return []
        if kind == 7:
            self.used.add("uncaught")
            text, _ = self.raising(scope)
            return ["print('end')", text, "print('after')"]
        if kind == 8:
            self.used.add("sys-exit")
            return ["import sys", "print('end')", "sys.exit({})".format(
                self.pick(["0", "3", "", "None", "'msg'"])),
                "print('after')"]
        self.used.add("uncaught-in-func")
        text, _ = self.raising(scope)
        return ["def boom(x):", "    {}".format(text), "    return x",
                "print('end')", "print(boom({}))".format(
                    self.e_int(scope, 1)), "print('after')"]


@st.composite
def programs(draw, without=(), depth=3, low=2, high=8, fuel=40):
    gen = Gen(draw, without, fuel)
    src = gen.program(depth, low, high)
    return {"src": src, "used": sorted(gen.used)}


def position_ok(src):
    """Whether pyposast (third party, used to find the position of every
    element) can process the source. noWorkflow cannot run the others."""
    import pyposast
    try:
        pyposast.parse(src, "script.py")
        return True
    except Exception:  # pylint: disable=broad-except
        return False
