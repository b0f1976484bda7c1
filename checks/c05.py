"""C05: recorded membership replays the contents of collections."""
import collections
import os

from hypothesis import strategies as st

from vh import child, store
from vh.core import Inconclusive, Part, Violation

PROPERTY = "C05"
RULE = (
    "replay: a generated history of collection literals (nested, with "
    "aliases and unpackings), slices, item assignments (by names, aliases, "
    "paths, functions, loops, augmented, swaps) and reads is run by 'now "
    "run'; after every operation, the members recorded so far have to give "
    "the keys and elements of every reachable collection, and every read has "
    "to be related to the current member. Non-trivial: at least 5 item "
    "assignments, 3 reads, and 1 assignment or read through an alias, path, "
    "function or attribute.")
ASSUMPTIONS = [
    "elements are compared by their recorded representation, nested "
    "collections by their own recorded membership",
    "deletions, slice assignments and builtin methods that change "
    "collections are not collected (noted in the source) and not generated"]

HEAD = """\
class O(object):
    pass
def put(c, k, v):
    c[k] = v
def get(c, k):
    return c[k]
def mk(v, w):
    return [v, w]
def same(c):
    return c
def swap(c, i, j):
    c[i], c[j] = c[j], c[i]
"""


class History(object):
    """Generate a script together with the model of its collections."""

    def __init__(self, data):
        self.data = data
        self.lines = HEAD.split("\n")[:-1]
        self.vars = {}
        self.attrs = {}
        self.ops = []       # (line of the mark, kind, info)
        self.puts = self.reads = self.indirect = 0
        self.count = 0
        self.scalar = 100

    def int(self, low, high):
        return self.data.draw(st.integers(low, high))

    def pick(self, options):
        return options[self.int(0, len(options) - 1)]

    def name(self):
        self.count += 1
        return "c{}".format(self.count)

    # Elements: return text, value
    def element(self, depth=1, simple=False):
        kind = 0 if simple else self.int(0, 6)
        if kind == 1 and self.vars:
            name = self.pick(sorted(self.vars))
            return name, self.vars[name]
        if kind == 2 and depth > 0:
            return self.literal(depth - 1)
        if kind == 3:
            text = self.pick(["'a'", "'[0]'", "'b c'", "None", "True", "2.5",
                              "'\\''", "b'x'", "'x' + 'y'", "'é'"])
            return text, eval(text)
        self.scalar += 1
        if kind == 4:
            return "{} + 1".format(self.scalar), self.scalar + 1
        return str(self.scalar), self.scalar

    def key(self):
        text = self.pick(["'a'", "'b'", "1", "0", "(1, 2)", "None", "'[1]'",
                          "2.0", "-1", "'.x'"])
        return text, eval(text)

    def iterable(self):
        names = [n for n in sorted(self.vars)
                 if isinstance(self.vars[n], (list, tuple))]
        if names and self.int(0, 1):
            name = self.pick(names)
            return name, list(self.vars[name])
        one, two = self.element(0, True), self.element(0, True)
        return "[{}, {}]".format(one[0], two[0]), [one[1], two[1]]

    def literal(self, depth=1):
        kind = self.int(0, 4)
        if kind in (0, 1):
            texts, values = [], []
            for _ in range(self.int(0, 3)):
                if self.int(0, 4) == 0:
                    text, vals = self.iterable()
                    texts.append("*" + text)
                    values.extend(vals)
                else:
                    text, val = self.element(depth)
                    texts.append(text)
                    values.append(val)
            if kind == 0:
                return "[{}]".format(", ".join(texts)), values
            return "({})".format(
                ", ".join(texts) + ("," if texts else "")), tuple(values)
        if kind == 2:
            elems = [self.element(0, True) for _ in range(self.int(1, 3))]
            return ("{{{}}}".format(", ".join(e[0] for e in elems)),
                    {e[1] for e in elems})
        texts, value = [], {}
        for _ in range(self.int(0, 3)):
            names = [n for n in sorted(self.vars)
                     if isinstance(self.vars[n], dict)]
            if names and self.int(0, 4) == 0:
                name = self.pick(names)
                texts.append("**" + name)
                value.update(self.vars[name])
            else:
                ktext, key = self.key()
                text, val = self.element(depth)
                texts.append("{}: {}".format(ktext, text))
                value[key] = val
        return "{{{}}}".format(", ".join(texts)), value

    def access(self, kinds=(list, dict)):
        """Pick an expression for an existing collection"""
        opts = []
        for name, value in sorted(self.vars.items()):
            if isinstance(value, kinds):
                opts.append((name, value, 0))
                opts.append(("same({})".format(name), value, 1))
            if isinstance(value, (list, tuple, dict)):
                items = (sorted(value.items(), key=repr)
                         if isinstance(value, dict) else
                         enumerate(value))
                for key, sub in items:
                    if isinstance(sub, kinds):
                        opts.append(("{}[{!r}]".format(name, key), sub, 1))
        for name, value in sorted(self.attrs.items()):
            if isinstance(value, kinds):
                opts.append((name, value, 1))
        if not opts:
            return None
        text, value, ind = self.pick(opts)
        self.indirect += ind
        return text, value

    def existing(self, value):
        """Pick an existing key. Return text, key"""
        if isinstance(value, dict):
            if not value:
                return None
            key = self.pick(sorted(value, key=repr))
            return repr(key), key
        if not value:
            return None
        index = self.int(-len(value), len(value) - 1)
        return str(index), index

    def cyclic(self, target, value):
        """Whether storing value in target creates a cycle"""
        stack, seen = [value], set()
        while stack:
            one = stack.pop()
            if one is target:
                return True
            if id(one) in seen:
                continue
            seen.add(id(one))
            if isinstance(one, dict):
                stack.extend(one.values())
            elif isinstance(one, (list, tuple)):
                stack.extend(one)
        return False

    # Operations. Return lines or None
    def op_new(self):
        name = self.name() if self.int(0, 4) or not self.vars else (
            self.pick(sorted(self.vars)))
        text, value = self.literal(2)
        self.vars[name] = value
        return ["{} = {}".format(name, text)]

    def op_alias(self):
        if not self.vars:
            return None
        name = self.name()
        one = self.access((list, dict, tuple))
        if one is None:
            return None
        self.vars[name] = one[1]
        return ["{} = {}".format(name, one[0])]

    def op_attr(self):
        one = self.access((list, dict))
        if one is None:
            return None
        obj = "o{}".format(len(self.attrs))
        self.attrs[obj + ".a"] = one[1]
        return [obj + " = O()", "{}.a = {}".format(obj, one[0])]

    def op_call(self):
        name = self.name()
        one, two = self.element(), self.element()
        self.vars[name] = [one[1], two[1]]
        return ["{} = mk({}, {})".format(name, one[0], two[0])]

    def op_slice(self):
        names = [n for n in sorted(self.vars)
                 if isinstance(self.vars[n], (list, tuple))]
        if not names:
            return None
        src = self.pick(names)
        low, high, step = (self.pick(["", 0, 1, -2]),
                           self.pick(["", 1, 2, -1]),
                           self.pick(["", "", -1, 2]))
        text = "{}:{}{}".format(low, high, ":{}".format(step)
                                if step != "" else "")
        name = self.name()
        self.vars[name] = eval("v[{}]".format(text), {"v": self.vars[src]})
        return ["{} = {}[{}]".format(name, src, text)]

    def op_comp(self):
        text, values = self.iterable()
        name = self.name()
        kind = self.int(0, 2)
        if kind == 0:
            self.vars[name] = list(values)
            return ["{} = [x for x in {}]".format(name, text)]
        if kind == 1:
            self.vars[name] = [[x] for x in values]
            return ["{} = [[x] for x in {}]".format(name, text)]
        self.vars[name] = dict(enumerate(values))
        return ["{} = {{k: x for k, x in enumerate({})}}".format(name, text)]

    def op_put(self):
        one = self.access()
        if one is None:
            return None
        text, value = one
        if isinstance(value, dict):
            if self.int(0, 1):
                ktext, key = self.key()
            else:
                got = self.existing(value)
                if got is None:
                    return None
                ktext, key = got
        else:
            got = self.existing(value)
            if got is None:
                return None
            ktext, key = got
        etext, elem = self.element(1)
        if self.cyclic(value, elem):
            return None
        kind = self.int(0, 3)
        self.puts += 1
        value[key] = elem
        if kind == 0:
            self.indirect += 1
            return ["put({}, {}, {})".format(text, ktext, etext)]
        if kind == 1:
            self.indirect += 1
            return ["k = {}".format(ktext), "v = {}".format(etext),
                    "{}[k] = v".format(text)]
        return ["{}[{}] = {}".format(text, ktext, etext)]

    def op_aug(self):
        one = self.access()
        if one is None:
            return None
        text, value = one
        keys = [k for k in (value if isinstance(value, dict)
                            else range(len(value)))
                if isinstance(value[k], int)]
        if not keys:
            return None
        key = self.pick(sorted(keys, key=repr))
        value[key] += 7
        self.puts += 1
        return ["{}[{!r}] += 7".format(text, key)]

    def op_swap(self):
        one = self.access((list,))
        if one is None or not one[1]:
            return None
        text, value = one
        i, j = (self.int(0, len(value) - 1) for _ in range(2))
        value[i], value[j] = value[j], value[i]
        self.puts += 2
        if self.int(0, 1):
            self.indirect += 1
            return ["swap({}, {}, {})".format(text, i, j)]
        return ["{0}[{1}], {0}[{2}] = {0}[{2}], {0}[{1}]".format(text, i, j)]

    def op_loop(self):
        one = self.access((list,))
        if one is None or not one[1]:
            return None
        text, value = one
        if not text.isidentifier():
            return None
        size = len(value)
        base = self.scalar = self.scalar + size
        for index in range(size):
            value[index] = index + base
        self.puts += size
        return ["for i in range({}):".format(size),
                "    {}[i] = i + {}".format(text, base)]

    def op_read(self):
        one = self.access((list, dict, tuple))
        if one is None:
            return None
        text, value = one
        got = self.existing(value)
        if got is None:
            return None
        self.reads += 1
        self.read = (value, got[1])
        kind = self.int(0, 2)
        if kind == 0:
            self.indirect += 1
            return ["r = get({}, {})".format(text, got[0])]
        return ["r = {}[{}]".format(text, got[0])]

    def run(self):
        table = [self.op_new, self.op_new, self.op_alias, self.op_attr,
                 self.op_call, self.op_slice, self.op_comp, self.op_put,
                 self.op_put, self.op_put, self.op_aug, self.op_swap,
                 self.op_loop, self.op_read, self.op_read]
        for _ in range(self.int(4, 14)):
            self.read = None
            lines = None
            for _ in range(4):
                lines = self.pick(table)()
                if lines is not None:
                    break
            if lines is None:
                continue
            self.lines.extend(lines)
            read = None
            if self.read is not None:
                value, key = self.read
                if isinstance(value, (list, tuple)) and key < 0:
                    key += len(value)
                read = (len(self.lines), value, key)
            self.lines.append("mark = {}".format(len(self.ops)))
            self.ops.append({
                "line": len(self.lines), "read": read,
                "state": self.snapshot()})
        return {"src": "\n".join(self.lines) + "\n",
                "ops": self.ops, "puts": self.puts, "reads": self.reads,
                "indirect": self.indirect}

    def snapshot(self):
        """Flatten the collections: names to nodes, nodes to contents"""
        nodes = {}

        def visit(value):
            if not isinstance(value, (list, tuple, dict, set)):
                return repr(value)
            num = "#{}".format(id(value))
            if num not in nodes:
                nodes[num] = None
                if isinstance(value, dict):
                    items = value.items()
                elif isinstance(value, set):
                    items = ((x, x) for x in value)
                else:
                    items = enumerate(value)
                nodes[num] = {
                    "[{}]".format(repr(k)): visit(v) for k, v in items}
            return num
        roots = {name: visit(val) for name, val in sorted(self.vars.items())}
        if self.read is not None:
            visit(self.read[0])
        return {"roots": roots, "nodes": nodes, "read": self.read and [
            "#{}".format(id(self.read[0])),
            "[{}]".format(repr(
                self.read[1] + len(self.read[0])
                if isinstance(self.read[0], (list, tuple))
                and self.read[1] < 0 else self.read[1]))]}


@st.composite
def histories(draw):
    class Data(object):
        """Draw interface"""
        def draw(self, strategy):
            return draw(strategy)
    keep = History(Data())
    case = keep.run()
    # Identifiers are only stable while the model is alive
    names = {}
    for operation in case["ops"]:
        state = operation["state"]
        operation.pop("read")

        def rename(text):
            if text.startswith("#"):
                return names.setdefault(text, "#n{}".format(len(names)))
            return text
        state["roots"] = {k: rename(v) for k, v in state["roots"].items()}
        state["nodes"] = {
            rename(k): {a: rename(v) for a, v in node.items()}
            for k, node in state["nodes"].items()}
        if state["read"]:
            state["read"][0] = rename(state["read"][0])
    return case


class Recorded(object):
    """Recorded membership."""

    def __init__(self, path):
        sto = store.Store(path)
        tid = sto.last().id
        self.comps = {r.id: r for r in sto.rows("code_component", tid)}
        self.evals = {r.id: r for r in sto.rows("evaluation", tid)}
        self.members = collections.defaultdict(list)
        for row in sto.rows("member", tid):
            self.members[row.collection_id].append(row)
        self.deps = collections.defaultdict(list)
        for row in sto.rows("dependency", tid):
            self.deps[row.dependent_id].append(row)

    def container(self, num):
        return self.evals[num].member_container_id

    def contents(self, container, moment):
        result = {}
        for row in self.members[container]:
            if row.key.startswith("[") and row.checkpoint <= moment:
                result[row.key] = row.member_id
        return result

    def at(self, line, type_, name=None, mode=None):
        return [e for _, e in sorted(self.evals.items())
                for c in [self.comps.get(e.code_component_id)]
                if c is not None and c.type == type_
                and c.first_char_line == line
                and (name is None or c.name == name)
                and (mode is None or c.mode == mode)]


def run_replay(case, rec):
    src = case["src"]
    with child.Dir() as path:
        with open(os.path.join(path, "script.py"), "w") as fil:
            fil.write(src)
        child.now_ok(["run", "script.py"], path)
        got = Recorded(path)
    lines = src.split("\n")
    last = {}       # name -> evaluation
    start = len(HEAD.split("\n"))
    for num, operation in enumerate(case["ops"]):
        marks = got.at(operation["line"], "literal")
        if len(marks) != 1:
            raise Violation("line {} was not recorded once".format(
                operation["line"]))
        moment = marks[0].checkpoint
        state = operation["state"]
        span = range(start, operation["line"])
        start = operation["line"] + 1
        for line in span:
            for name in state["roots"]:
                for eva in got.at(line, "name", name, "w"):
                    last[name] = eva.id
        bound = {}

        def compare(node, container, where):
            """Compare contents of a collection"""
            if node in bound:
                return
            bound[node] = container
            want = state["nodes"][node]
            have = got.contents(container, moment)
            if set(want) != set(have):
                raise Violation(
                    "after '{}' the collection {} has the keys {}, but the "
                    "recorded members have the keys {}".format(
                        lines[operation["line"] - 2], where, sorted(want),
                        sorted(have)))
            for key, value in want.items():
                member = got.evals[have[key]]
                if value.startswith("#"):
                    compare(value, got.container(member.id), where + key)
                elif member.repr != value:
                    raise Violation(
                        "after '{}' the element {}{} is {}, but its recorded "
                        "member is {}".format(
                            lines[operation["line"] - 2], where, key, value,
                            member.repr))
        for name, node in sorted(state["roots"].items()):
            if name not in last:
                raise Violation("assignment of {} was not recorded".format(
                    name))
            if node.startswith("#"):
                compare(node, got.container(last[name]), name)
        if state["read"]:
            node, key = state["read"]
            if node in bound:
                check_read(got, lines, operation["line"] - 1, got.contents(
                    bound[node], moment)[key], key)
    rec.label("ops:{}".format(len(case["ops"])))
    rec.nt(case["puts"] >= 5 and case["reads"] >= 3 and case["indirect"])


def check_read(got, lines, line, member, key):
    """The read at a line has to be related to the member"""
    text = lines[line - 1]
    if "get(" in text:
        sub = [n for n, t in enumerate(lines, 1) if t == "    return c[k]"][0]
        starts = got.at(line, "call")
        found = [
            e for e in got.at(sub, "subscript")
            if starts and e.activation_id in {s.id for s in starts}]
    else:
        found = got.at(line, "subscript")
    if not found:
        raise Violation("read of line {} was not recorded: {}".format(
            line, text))
    for eva in found:
        for dep in got.deps[eva.id]:
            if (dep.type == "access" and dep.key == key
                    and got.container(dep.dependency_id)
                    == got.container(member)):
                return
    raise Violation(
        "the read '{}' was not related to the member {} most recently stored "
        "under {}".format(text, got.evals[member].repr, key))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("replay", histories, run_replay, 500, 8000)]
