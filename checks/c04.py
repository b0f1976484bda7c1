"""C04: recorded dependencies are the data flow of the execution."""
import ast
import collections
import io
import os
import tokenize

from hypothesis import strategies as st

from checks import c03
from vh import child, progs, reftrace, taint
from vh.core import Inconclusive, Part, Violation

PROPERTY = "C04"
RULE = (
    "flow: a generated program is run by 'now run' and by plain Python with "
    "every numeric literal replaced by a number that carries its origin "
    "through operators, calls, containers and attributes; every evaluation "
    "that carries an origin must reach the recorded evaluation of that "
    "literal. Non-trivial: at least 40 such pairs, 10 of them across "
    "activations. apart: two generated programs without common variables "
    "are interleaved or nested; no evaluation of one may reach an evaluation "
    "of the other. Non-trivial: at least 25 dependencies in each of them."
)
ASSUMPTIONS = [
    "a collection depends on all of its members and a call on all of its "
    "arguments (the recorded granularity)",
    "flow through builtin methods that change collections, through text and "
    "through integers created by builtin functions is not required"]


class Graph(object):
    """Reachability over recorded dependencies."""

    def __init__(self, trial, members=True):
        sto = trial.store
        tid = sto.last().id
        self.edges = collections.defaultdict(set)
        self.count = 0
        for row in sto.rows("dependency", tid):
            for num in (row.dependent_id, row.dependency_id):
                if num not in trial.evals:
                    raise Violation("dependency {} relates evaluation {} "
                                    "that does not exist".format(
                                        row.id, num))
            self.edges[row.dependent_id].add(row.dependency_id)
            self.count += 1
        if members:
            for row in sto.rows("member", tid):
                if row.key != ".__class__":
                    self.edges[row.collection_id].add(row.member_id)
        self.cache = {}

    def reach(self, num):
        if num not in self.cache:
            seen = {num}
            stack = [num]
            while stack:
                for other in self.edges.get(stack.pop(), ()):
                    if other not in seen:
                        seen.add(other)
                        stack.append(other)
            self.cache[num] = seen
        return self.cache[num]


def align(ref, trial, excluded):
    """Map reference events to recorded evaluations."""
    want = collections.defaultdict(list)
    for num, (key, act, value) in enumerate(ref["values"]):
        type_, mode, span, ingen = ref["keys"][key]
        want[(type_, mode, span, None if ingen else act)].append(
            (num, value))
    genkeys = {k[:3] for k in ref["keys"] if k[3]}
    got = collections.defaultdict(list)
    for num in sorted(trial.evals):
        eva = trial.evals[num]
        comp = trial.comps.get(eva.code_component_id)
        if comp is None or comp.type in c03.SKIP_TYPES:
            continue
        key = (comp.type, comp.mode, (
            comp.first_char_line, comp.first_char_column,
            comp.last_char_line, comp.last_char_column))
        if eva.activation_id not in trial.acts or (
                key[2] in excluded and key[1] == "w"):
            continue
        act = None if key in genkeys else trial.owner(eva.activation_id)
        got[key + (act,)].append((num, reftrace.norm(eva.repr or "")))
    found = {}
    for key, events in want.items():
        recorded = got.get(key, [])
        if len(events) == len(recorded) and (
                [e[1] for e in events] == [r[1] for r in recorded]):
            for (num, _), (eva, _) in zip(events, recorded):
                found[num] = eva
    return found


def describe(trial, num):
    eva = trial.evals[num]
    comp = trial.comps.get(eva.code_component_id)
    return "{} '{}' (line {}, value {}, evaluation {})".format(
        comp.type, comp.name, comp.first_char_line, eva.repr, num)


def clobbers(src):
    """Check for assignments that define a name twice or that use it as the
    index of a following target"""
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Assign):
            used = set()
            for target in node.targets:
                for sub in ast.walk(target):
                    if isinstance(sub, ast.Name):
                        if sub.id in used:
                            return True
                used.update(
                    sub.id for sub in ast.walk(target)
                    if isinstance(sub, ast.Name)
                    and isinstance(sub.ctx, ast.Store))
                stored = [
                    sub.id for sub in ast.walk(target)
                    if isinstance(sub, ast.Name)
                    and isinstance(sub.ctx, ast.Store)]
                if len(set(stored)) != len(stored):
                    return True
    return False


def run_flow(case, rec):
    src = case["src"]
    if not progs.position_ok(src) or clobbers(src):
        rec.excluded += 1
        raise Inconclusive()
    with child.Dir() as path:
        with open(os.path.join(path, "script.py"), "w") as fil:
            fil.write(src)
        res = reftrace.trace("script.py", path, src, cls=taint.Tracer)
        if res.exc and "MemoryError" in res.exc:
            raise Inconclusive()
        ref = res.ok("reference trace")
        child.now_ok(["run", "script.py"], path)
        trial = c03.Trial(path)
        found = align(ref, trial, c03.comp_targets(src))
        graph = Graph(trial)
        pairs = across = 0
        for num, labs in enumerate(ref["labels"]):
            if num not in found:
                continue
            for lab in labs:
                if lab not in found or lab == num:
                    continue
                pairs += 1
                across += ref["values"][num][1] != ref["values"][lab][1]
                if found[lab] not in graph.reach(found[num]):
                    raise Violation(
                        "{} was computed from {}, but no chain of recorded "
                        "dependencies leads to it".format(
                            describe(trial, found[num]),
                            describe(trial, found[lab])))
    rec.label(*case.get("used", []))
    rec.label("events:{}".format(len(ref["labels"]) // 100))
    rec.nt(pairs >= 40 and across >= 10)


def flow():
    return progs.programs(without=(
        "walrus", "method-stmt", "generator", "key-lambda"), fuel=45)


def bound(tree):
    """Names bound at the module level, except by imports"""
    names, imported = set(), set()
    stack = list(tree.body)
    while stack:
        node = stack.pop()
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            imported.update(
                (a.asname or a.name).split(".")[0] for a in node.names)
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            names.add(node.id)
        if isinstance(node, ast.ExceptHandler) and node.name:
            names.add(node.name)
        if isinstance(node, (
                ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(node.name)
        elif not isinstance(node, ast.Lambda):
            stack.extend(ast.iter_child_nodes(node))
    return names, imported


def rename(src, prefix):
    """Add a prefix to the global names of a program"""
    names, imported = bound(ast.parse(src))
    tokens = list(tokenize.generate_tokens(io.StringIO(src).readline))
    attrs = set()
    for last, tok in zip(tokens, tokens[1:]):
        if last.string == "." and tok.type == tokenize.NAME:
            attrs.add(tok.string)
    names -= imported
    if names & attrs or names & {"key", "reverse"}:
        return None
    lines = src.split("\n")
    for tok in reversed(tokens):
        if tok.type == tokenize.NAME and tok.string in names:
            row, col = tok.start
            line = lines[row - 1]
            lines[row - 1] = line[:col] + prefix + line[col:]
    return "\n".join(lines)


def statements(src):
    """Text of the top-level statements"""
    tree = ast.parse(src)
    starts = []
    for node in tree.body:
        first = node.lineno
        for dec in getattr(node, "decorator_list", ()):
            first = min(first, dec.lineno)
        if not starts or first != starts[-1]:
            starts.append(first)
    lines = src.split("\n")
    if starts:
        starts[0] = 1
    result = []
    for num, first in enumerate(starts):
        last = starts[num + 1] - 1 if num + 1 < len(starts) else len(lines)
        result.append("\n".join(lines[first - 1:last]).rstrip("\n"))
    return result


WRAP = [None, "if [A_wrap := 1]:\n", "for A_wrap in [3, 4]:\n",
        "try:\n A_wrap = [][0]\nexcept IndexError:\n",
        "while [A_wrap := 1]:\n break\nelse:\n pass\nif A_wrap:\n"]


def compose(case):
    """Merge two programs. Return the source and the owner of each line"""
    one, two = rename(case["one"], "A_"), rename(case["two"], "B_")
    if one is None or two is None:
        return None, None
    parts = {"A": statements(one), "B": statements(two)}
    if case["nest"]:
        # Control dependencies are only from the second to the first
        parts["B"] = [WRAP[case["nest"]] + "\n".join(
            " " + line if line else line
            for text in parts["B"] for line in text.split("\n"))]
    order = []
    for bit in case["order"]:
        if parts["AB"[bit]]:
            order.append(("AB"[bit], parts["AB"[bit]].pop(0)))
    for owner in "AB":
        order.extend((owner, text) for text in parts[owner])
    lines, owners = [], []
    for owner, text in order:
        for line in text.split("\n"):
            lines.append(line)
            owners.append("A" if "A_wrap" in line else owner)
    return "\n".join(lines) + "\n", owners


def run_apart(case, rec):
    src, owners = compose(case)
    if src is None or not progs.position_ok(src):
        rec.excluded += 1
        raise Inconclusive()
    with child.Dir() as path:
        with open(os.path.join(path, "script.py"), "w") as fil:
            fil.write(src)
        res = child.python("script.py", path)
        if res.exc is not None or res.timeout or res.signal:
            raise Inconclusive()
        child.now_ok(["run", "script.py"], path)
        trial = c03.Trial(path)
        graph = Graph(trial)
        side = {}
        for num, eva in trial.evals.items():
            comp = trial.comps.get(eva.code_component_id)
            if comp is None or comp.type in ("script", "module", "global",
                                             "type"):
                side[num] = "-"
            elif comp.first_char_line > 0:
                side[num] = owners[comp.first_char_line - 1]
        edges = {"A": 0, "B": 0, "-": 0}
        for num, owner in side.items():
            edges[owner] += len(graph.edges.get(num, ()))
        for num, owner in sorted(side.items()):
            if owner == "-" or (owner == "B" and case["nest"]):
                continue
            for other in graph.reach(num):
                if side.get(other, owner) not in (owner, "-"):
                    raise Violation(
                        "{} reaches {} through recorded dependencies, but "
                        "nothing in the computation of the former uses "
                        "the latter".format(
                            describe(trial, num), describe(trial, other)))
    rec.label("nest:{}".format(case["nest"]))
    rec.label("switches:{}".format(min(9, sum(
        a != b for a, b in zip(owners, owners[1:])))))
    rec.nt(min(edges["A"], edges["B"]) >= 25)


def apart():
    part = progs.programs(low=2, high=6, fuel=25)
    return st.fixed_dictionaries({
        "one": part, "two": part, "nest": st.integers(0, 4),
        "order": st.lists(st.integers(0, 1), max_size=20)}).map(
            lambda case: dict(case, one=case["one"]["src"],
                              two=case["two"]["src"]))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("flow", flow, run_flow, 500, 6000),
         Part("apart", apart, run_apart, 300, 4000)]
