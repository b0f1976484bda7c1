"""C13: the Prolog export is a valid program with exactly the stored facts."""
import datetime
import io
import re
import tokenize

from hypothesis import strategies as st

from vh import child, progs, store
from vh.core import Part, Violation

PROPERTY = "C13"
RULE = (
    "export: trials of generated programs with texts of any characters in "
    "names, docstrings, arguments, file names and values are exported (with "
    "and without rules and timestamps); a reader of the standard Prolog syntax "
    "parses the output, and the facts are compared to the stored rows. "
    "Non-trivial: some exported text has quotes, backslashes or line breaks, "
    "and the trial has activations, members and file accesses.")
ASSUMPTIONS = [
    "quotes of string literals may be removed from exported values",
    "the meaning of the inference rules is not verified, but the predicates "
    "and arities that they use are"]

# (kind, column). t: text, n: number or nil, b: boolean, s: timestamp
FACTS = {
    "trial": ("trial", "t:id t:script s:start s:finish t:command t:status "
              "t:modules_inherited_from_trial_id t:parent_id n:main_id"),
    "tag": ("tag", "t:trial_id t:name t:type s:timestamp"),
    "argument": ("argument", "t:trial_id t:name t:value"),
    "module": ("module", "t:trial_id n:id t:name t:version t:path "
               "n:code_block_id b:transformed t:fullpath"),
    "environment": ("environment_attr", "t:trial_id t:name t:value"),
    "code_component": (
        "code_component", "t:trial_id n:id t:name t:type t:mode "
        "n:first_char_line n:first_char_column n:last_char_line "
        "n:last_char_column n:container_id"),
    "code_block": ("code_block", "t:trial_id n:id t:code_hash t:docstring"),
    "activation": ("activation", "t:trial_id n:id t:name n:start_checkpoint "
                   "n:code_block_id"),
    "evaluation": ("evaluation", "t:trial_id n:id n:checkpoint "
                   "n:code_component_id n:activation_id t:repr "
                   "n:member_container_id"),
    "dependency": (
        "dependency", "t:trial_id n:dependent_activation_id n:dependent_id "
        "n:dependency_activation_id n:dependency_id t:type b:reference "
        "n:collection_activation_id n:collection_id t:key"),
    "access": ("file_access", "t:trial_id f:id t:name t:mode "
               "t:content_hash_before t:content_hash_after n:checkpoint "
               "n:activation_id"),
    "member": ("member", "t:trial_id n:collection_activation_id "
               "n:collection_id n:member_activation_id n:member_id t:key "
               "n:checkpoint t:type"),
}
BUILTINS = {
    "maplist/3", "name/2", "sub_atom/5", "between/3", "bagof/3", "append/3",
    "sort/2", "include/3", "once/1", "member/2", "union/3", "setof/3",
    "findall/3", "memberchk/2", "length/2", "not/1", "forall/2", "nth0/3",
    "nth1/3", "last/2", "subtract/3", "list_to_set/2", "atom_concat/3",
    "append/2", "member/3", "is_list/1", "var/1", "nonvar/1", "atom/1",
    "call/1", "exclude/3", "foldl/4", "reverse/2", "sum_list/2",
    "dynamic/1", "sort/4", "msort/2", "number/1"}

texts = st.one_of(
    st.text("ab'\"\\\n .,()", max_size=6),
    st.text("ab'\"\\\n\t\r\0é✓😀%n{}[]|", max_size=8),
    st.sampled_from(["it's", 'say "x"', "a\\nb", "", "''", "\\", "b'x'",
                     "True", "nil", "X", "'", '"', "x' + 'y", "%", "').",
                     "line\n% not a comment", "\\'"]))


def cases():
    return st.fixed_dictionaries({
        "texts": st.lists(texts, min_size=1, max_size=5),
        "args": st.lists(texts.filter(lambda x: "\0" not in x), max_size=2),
        "prog": st.one_of(st.just(""), progs.programs(
            low=1, high=2, depth=1).map(lambda p: p["src"])),
        "fail": st.booleans(), "older": st.booleans(), "rules": st.booleans(), "hide": st.booleans(),
        "file": st.sampled_from(["f.txt", "it's", "a b", "d\\e", "é✓", '"',
                                 "'q'", "l\nm"])})


def source(case):
    lines = [repr(case["texts"][0]), "import os.path", "class R(object):",
             "    def __init__(self, v):",
             "        {!r}".format(case["texts"][-1]), "        self.v = v",
             "    def __repr__(self):", "        return self.v"]
    for num, text in enumerate(case["texts"]):
        lines += ["v{} = {!r}".format(num, text),
                  "w{} = R(v{})".format(num, num),
                  "x{0} = {{v{0}: [w{0}, v{0}.encode()]}}".format(num),
                  "y{0} = x{0}[v{0}]".format(num),
                  "z{} = ({!r} +\n     {!r})".format(num, text, text[::-1])]
        if text.isprintable():
            lines.append("q{} = b'a' + bytes({!r}, 'utf8') + b'c'".format(
                num, text))
    lines += ["with open({!r}, 'w') as f:".format(case["file"]),
              "    f.write('x')"]
    lines.append(case["prog"])
    if case["fail"]:
        lines.append("raise ValueError({!r})".format(case["texts"][0]))
    return "\n".join(lines) + "\n"


class Reader(object):
    """Reader of clauses in the standard syntax of Prolog"""

    TOKEN = re.compile(r"""
        (?P<space>\s+|%[^\n]*(?:\n|$)|/\*.*?\*/)
        |(?P<number>0'.|-?\d+\.\d+(?:[eE][+-]?\d+)?
            |-?\d+[eE][+-]?\d+|-?\d+)
        |(?P<var>[A-Z_][A-Za-z0-9_]*)
        |(?P<atom>[a-z][A-Za-z0-9_]*)
        |(?P<quote>')
        |(?P<end>\.(?=\s|%|$))
        |(?P<punct>[(),\[\]|{}!;])
        |(?P<symbol>[-+*/\\^<>=~:.?@\#&$]+)
    """, re.X | re.S)

    def __init__(self, text):
        self.text = text

    def error(self, what, pos):
        raise Violation("the export is not valid Prolog: {} at {!r}".format(
            what, self.text[max(pos - 60, 0):pos + 30]))

    def tokens(self):
        pos = 0
        while pos < len(self.text):
            match = self.TOKEN.match(self.text, pos)
            if not match:
                self.error("unexpected character", pos)
            pos = match.end()
            kind = match.lastgroup
            if kind == "space":
                continue
            value = match.group()
            if kind == "quote":
                value, pos = self.quoted(pos)
            yield kind, value, pos

    def quoted(self, pos):
        result = []
        text = self.text
        while True:
            if pos >= len(text):
                self.error("unfinished quoted atom", pos)
            char = text[pos]
            if char == "'":
                if text[pos + 1:pos + 2] != "'":
                    return "".join(result), pos + 1
                result.append("'")
                pos += 2
            elif char == "\n":
                self.error("line break in a quoted atom", pos)
            elif char == "\\":
                match = re.compile(r"\\(?:x([0-9a-fA-F]+)\\|([0-7]+)\\|"
                                   r"([abfnrtv0-9\\'\"`])|(\n))").match(
                                       text, pos)
                if not match:
                    self.error("invalid escape", pos)
                if match.group(1):
                    result.append(chr(int(match.group(1), 16)))
                elif match.group(2):
                    result.append(chr(int(match.group(2), 8)))
                elif match.group(3):
                    simple = dict(zip("abfnrtv", "\a\b\f\n\r\t\v"))
                    result.append(simple.get(match.group(3), match.group(3)))
                pos = match.end()
            else:
                result.append(char)
                pos += 1

    def clauses(self):
        clause = []
        for token in self.tokens():
            if token[0] == "end":
                yield clause
                clause = []
            else:
                clause.append(token)
        if clause:
            self.error("unfinished clause", len(self.text))

    def fact(self, clause):
        """Arguments of name(constant, ...)"""
        args = []
        for num, (kind, value, pos) in enumerate(clause[1:]):
            if num % 2 == 0:
                want = "(" if not num else ","
                if num == len(clause) - 2:
                    want = ")"
                if kind != "punct" or value != want:
                    self.error("unexpected {!r}".format(value), pos)
            elif kind in ("number", "atom", "quote"):
                args.append((kind, value))
            else:
                self.error("{} {!r} in a fact".format(kind, value), pos)
        return tuple(args)


def inner(value):
    """Content of a value that is a single string literal"""
    try:
        tokens = [t for t in tokenize.generate_tokens(
            io.StringIO(value.replace("\0", "0")).readline) if t.type not in (
                tokenize.NEWLINE, tokenize.NL, tokenize.ENDMARKER)]
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return None
    if len(tokens) == 1 and tokens[0].type == tokenize.STRING:
        return re.sub("^[a-zA-Z]*", "", value)[1:-1]
    if tokens and tokens[0].type == getattr(tokenize, "FSTRING_START", -1) \
            and tokens[-1].type == tokenize.FSTRING_END \
            and sum(t.type == tokenize.FSTRING_START for t in tokens) == 1:
        return re.sub("^[a-zA-Z]*", "", value)[1:-1]
    return None


def seconds(value):
    for form in ("%Y-%m-%d %H:%M:%S.%f", "%Y-%m-%d %H:%M:%S"):
        try:
            date = datetime.datetime.strptime(value, form)
            return (date - datetime.datetime(1970, 1, 1)).total_seconds()
        except ValueError:
            pass
    raise AssertionError(value)


NONE = [("atom", "nil"), ("quote", "None"), ("number", "-1")]


def matches(kind, value, arg, hide):
    if value is None and not (kind == "s" and hide):
        return arg in NONE
    if kind == "s":
        if hide:
            return arg == ("atom", "nil")
        return arg[0] == "number" and abs(
            float(arg[1]) - seconds(value)) < 1e-5
    if kind == "n":
        return arg[0] in ("number", "quote") and re.match(
            r"^-?[\d.]+(e[+-]?\d+)?$", arg[1]) and float(
                arg[1]) == float(value)
    if kind == "b":
        return arg in ([("number", "1"), ("atom", "true")] if value else
                       [("number", "0"), ("atom", "false")])
    if kind == "f":
        return arg == ("atom", "f{}".format(value))
    return arg[0] == "quote" and (arg[1] == value or arg[1] == inner(value))


def check_facts(reader, facts, dynamic, path, tid, hide):
    sto = store.Store(path)
    for name, (table, spec) in FACTS.items():
        spec = [x.split(":") for x in spec.split()]
        if dynamic.get(name) != len(spec):
            raise Violation("{} is declared with arity {}".format(
                name, dynamic.get(name)))
        rows = ([r for r in sto.trials() if r.id == tid] if table == "trial"
                else sto.rows(table, tid, order="id"))
        found = list(facts.get(name, []))
        if len(found) != len(rows):
            raise Violation("there are {} facts of {} and {} rows".format(
                len(found), name, len(rows)))
        for row in rows:
            values = [(k, getattr(row, c)) for k, c in spec]
            for args in found:
                if len(args) == len(values) and all(
                        matches(k, v, a, hide)
                        for (k, v), a in zip(values, args)):
                    found.remove(args)
                    break
            else:
                near = min(found, key=lambda args: sum(
                    not matches(k, v, a, hide)
                    for (k, v), a in zip(values, args)))
                bad = [(c, v, a) for (k, v), (_, c), a in zip(
                    values, spec, near) if not matches(k, v, a, hide)]
                raise Violation("no fact of {} represents a row. Column, "
                                "value and the closest fact: {}".format(
                                    name, bad[:2]))
    extra = set(facts) - set(FACTS)
    if extra:
        raise Violation("there are unknown facts: {}".format(sorted(extra)))


def goals(clause):
    """Predicates and arities used by a clause. First one is the head"""
    for num, (kind, value, _) in enumerate(clause):
        if kind == "atom" and num + 1 < len(clause) and clause[
                num + 1][1] == "(" and clause[num + 1][0] == "punct":
            depth, count = 1, 1
            pos = num + 2
            while depth:
                if clause[pos][0] == "punct":
                    if clause[pos][1] in "([{":
                        depth += 1
                    elif clause[pos][1] in ")]}":
                        depth -= 1
                    elif clause[pos][1] == "," and depth == 1:
                        count += 1
                pos += 1
            yield "{}/{}".format(value, count)


def check_rules(rules):
    defined = {"{}/{}".format(n, len(s.split()))
               for n, (_, s) in FACTS.items()}
    used = set()
    for clause in rules:
        names = list(goals(clause))
        defined.add(names[0])
        used.update(names[1:])
    # Partial applications
    names = {x.split("/")[0] for x in defined}
    for goal in sorted(used - defined - BUILTINS):
        name, arity = goal.split("/")
        higher = any("{}/{}".format(name, int(arity) + n) in defined
                     for n in (1, 2)) and any(
                         x[1] in ("maplist", "include", "once", "exclude")
                         for c in rules for x in c if goal in goals(c))
        if not higher:
            raise Violation("the rules use {}, but {}".format(
                goal, "it has other arities" if name in names
                else "it does not exist"))


def run_export(case, rec):
    with child.Dir() as path:
        with open(path + "/s.py", "w", encoding="utf-8", newline="") as fil:
            fil.write(source(case))
        child.now_ok(["run", "s.py"] + case["args"], path)
        tid = store.Store(path).last().id
        argv = ["export"] + ["-r"] * case["rules"] + ["-t"] * case["hide"]
        if case["older"]:
            child.now_ok(["run", "s.py", "other"], path)
            argv.append(tid)
        out = child.now_ok(argv, path).out
        reader = Reader(out)
        facts, dynamic, rules = {}, {}, []
        for clause in reader.clauses():
            values = [t[1] for t in clause]
            if values[:3] == [":-", "dynamic", "("] and len(values) == 7:
                dynamic[values[3]] = int(values[5])
            elif ":-" not in values and values[0] in FACTS:
                facts.setdefault(values[0], []).append(reader.fact(clause))
            else:
                rules.append(clause)
        check_facts(reader, facts, dynamic, path, tid, case["hide"])
        if bool(rules) != case["rules"]:
            raise Violation("there are {} rules with the options {}".format(
                len(rules), argv))
        if rules:
            check_rules(rules)
        rec.label("rules" if rules else "facts", "status:{}".format(
            case["fail"]))
        rec.nt(any(set(t) & set("'\"\\\n") for t in case["texts"]) and all(
            facts.get(n) for n in ("activation", "member", "access")))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("export", cases, run_export, 240, 4000)]
