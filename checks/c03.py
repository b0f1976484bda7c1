"""C03: recorded activations and evaluations match what really executed."""
import collections
import os

from hypothesis import strategies as st

from vh import child, progs, reftrace, snippets, store
from vh.core import Inconclusive, Part, Violation

PROPERTY = "C03"
RULE = (
    "A case is a generated program run by 'now run'; an independent "
    "instrumentation of the same source, run by plain Python, logs every "
    "function execution (caller, arguments, result) and every evaluated "
    "expression and bound name (value, activation). Non-trivial: at least "
    "four activations of user functions, nested at least two deep, and 40 "
    "evaluations."
)
ASSUMPTIONS = [
    "positions come from pyposast; values are compared through repr with "
    "addresses removed",
    "evaluations inside generator expressions are compared without the "
    "activation that consumed them",
    "targets of comprehensions, exception names and attribute or item "
    "targets of tuple and augmented assignments are not compared"]

BLOCKS = {"function_def", "lambda_def", "class_def"}
SKIP_TYPES = {"script", "type", "global", "function_def", "lambda_def",
              "class_def", "param", "exception", "key_value", "withitem",
              "pass", "break", "continue", "slice", "extslice", "fvalue",
              "yield", "starred", "comprehension", "module"}


class Trial(object):
    """The recorded side."""

    def __init__(self, path):
        self.store = sto = store.Store(path)
        tid = sto.last().id
        self.comps = {r.id: r for r in sto.rows("code_component", tid)}
        self.evals = {r.id: r for r in sto.rows("evaluation", tid)}
        self.acts = {r.id: r for r in sto.rows("activation", tid)}
        self.root = min(self.acts)
        self.user = []
        for act in sorted(self.acts):
            row = self.acts[act]
            if row.code_block_id is None or act == self.root:
                continue
            comp = self.comps.get(row.code_block_id)
            if comp is None or comp.type not in BLOCKS:
                raise Violation("activation {} has block {} which is not a "
                                "function or class".format(
                                    act, row.code_block_id))
            self.user.append(act)
        self.index = {act: i for i, act in enumerate(self.user)}
        self.index[self.root] = -1
        self.by_act = collections.defaultdict(list)
        for num in sorted(self.evals):
            self.by_act[self.evals[num].activation_id].append(self.evals[num])

    def parent(self, act):
        """Index of the nearest user activation around an activation."""
        seen = set()
        while True:
            act = self.evals[act].activation_id
            if act in self.index:
                return self.index[act]
            if act in seen or act not in self.acts:
                raise Violation("activation {} has no parent".format(act))
            seen.add(act)

    def owner(self, act):
        return self.index[act] if act in self.index else self.parent(act)


def targets(keys_span, spans):
    return keys_span in spans


def comp_targets(source):
    """Spans of names that are targets of comprehensions."""
    import ast
    import pyposast
    spans = set()
    for node in ast.walk(pyposast.parse(source, "s.py")):
        if isinstance(node, ast.comprehension):
            for sub in ast.walk(node.target):
                if isinstance(sub, ast.expr):
                    spans.add(reftrace.span(sub))
    return spans


def show_act(ref, num):
    if num < 0:
        return "<script>"
    name, line = ref["defs"][ref["acts"][num]["def"]]
    return "{} (line {}, call #{})".format(name, line, num)


def check_activations(ref, rec):
    want = []
    for num, act in enumerate(ref["acts"]):
        line = ref["defs"][act["def"]][1]
        want.append((act["name"], line, act["parent"]))
    got = []
    for act in rec.user:
        row = rec.acts[act]
        comp = rec.comps[row.code_block_id]
        got.append((row.name, comp.first_char_line, rec.parent(act)))
    for num, (one, two) in enumerate(zip(want, got)):
        if one != two:
            raise Violation(
                "activation #{} should be {} line {} called by {}, recorded "
                "{} line {} called by {}".format(
                    num, one[0], one[1], show_act(ref, one[2]), two[0],
                    two[1], show_act(ref, two[2]) if two[2] < len(want)
                    else two[2]))
    if len(want) != len(got):
        raise Violation("{} executions of user functions, {} recorded: {}"
                        .format(len(want), len(got),
                                (want + [None] * 9)[len(got):][:3]
                                or got[len(want):][:3]))


def check_values(ref, rec):
    for num, act in enumerate(rec.user):
        info = ref["acts"][num]
        row = rec.evals[act]
        if info["kind"] == "function" and not info["exc"]:
            got = reftrace.norm(row.repr)
            if got != info["ret"]:
                raise Violation("{} returned {}, recorded {}".format(
                    show_act(ref, num), info["ret"], got))
        if info["args"] is None or info["kind"] == "class":
            continue
        got = {}
        for eva in rec.by_act[act]:
            comp = rec.comps.get(eva.code_component_id)
            if comp is not None and comp.type == "param":
                if comp.name in got:
                    raise Violation("{}: parameter {} recorded twice".format(
                        show_act(ref, num), comp.name))
                got[comp.name] = reftrace.norm(eva.repr)
        if got != info["args"]:
            raise Violation("{} received {}, recorded {}".format(
                show_act(ref, num), info["args"], got))


def check_times(ref, rec):
    for act in [rec.root] + rec.user:
        kind = "function" if act == rec.root else (
            ref["acts"][rec.index[act]]["kind"])
        start = rec.acts[act].start_checkpoint
        end = rec.evals[act].checkpoint
        if end is None or start is None or end < start:
            raise Violation("activation {} lasts from {} to {}".format(
                rec.acts[act].name, start, end))
        if kind in ("generator", "coroutine"):
            end = float("inf")
        for eva in rec.by_act[act]:
            comp = rec.comps.get(eva.code_component_id)
            # a generator expression may be consumed later
            if eva.checkpoint < start or (
                    eva.checkpoint > end and not rec.late):
                raise Violation(
                    "evaluation {} of {} at {} is outside of its activation "
                    "{} ({} to {})".format(
                        eva.id, comp and comp.name, eva.checkpoint,
                        rec.acts[act].name, start, end))
            if eva.id in rec.acts and (
                    rec.acts[eva.id].start_checkpoint < start):
                raise Violation("activation {} starts before its caller"
                                .format(eva.id))


def group_ref(ref):
    groups = collections.defaultdict(list)
    for key, act, value in ref["values"]:
        type_, mode, span, ingen = ref["keys"][key]
        groups[(type_, mode, span, None if ingen else act)].append(value)
    return groups


def check_evaluations(ref, rec, excluded):
    want = group_ref(ref)
    genkeys = {k[:3] for k in ref["keys"] if k[3]}
    known = {k[:3] for k in ref["keys"]}
    got = collections.defaultdict(list)
    for num in sorted(rec.evals):
        eva = rec.evals[num]
        comp = rec.comps.get(eva.code_component_id)
        if comp is None:
            if eva.code_component_id in (-1, None):
                continue
            raise Violation("evaluation {} belongs to no component".format(
                num))
        if comp.type in SKIP_TYPES:
            continue
        where = (comp.first_char_line, comp.first_char_column,
                 comp.last_char_line, comp.last_char_column)
        if where in excluded and comp.mode == "w":
            continue
        key = (comp.type, comp.mode, where)
        if key not in known:
            continue
        if eva.activation_id not in rec.acts:
            raise Violation("evaluation {} belongs to no activation".format(
                num))
        act = None if key in genkeys else rec.owner(eva.activation_id)
        got[key + (act,)].append(reftrace.norm(eva.repr or ""))
    for key in sorted(set(want) | set(got), key=repr):
        if key[0] in SKIP_TYPES or key[2] in ref["noisy"]:
            continue
        if key[2] in ref["items"] and got.get(key, []) == [
                value for value in want.get(key, []) for _ in range(2)]:
            continue    # the item itself is an evaluation, too
        if key[0] == "call" and without_failed(want.get(key, []),
                                               got.get(key, [])):
            continue
        if want.get(key, []) != got.get(key, []):
            raise Violation(
                "{} {} at {} in {}: evaluated to {}, recorded {}".format(
                    key[0], "target" if key[1] == "w" else "expression",
                    key[2], "generator expression" if key[3] is None
                    else show_act(ref, key[3]),
                    want.get(key, [])[:6], got.get(key, [])[:6]))


def without_failed(want, got):
    """Calls that raise are recorded without a value."""
    pos = 0
    for value in got:
        if pos < len(want) and value == want[pos]:
            pos += 1
        elif value != "None":
            return False
    return pos == len(want)


def run_program(case, rec):
    src = case["src"]
    if not progs.position_ok(src):
        rec.excluded += 1
        raise Inconclusive()
    with child.Dir() as path:
        with open(os.path.join(path, "script.py"), "w") as fil:
            fil.write(src)
        res = reftrace.trace("script.py", path, src)
        if res.exc and "MemoryError" in res.exc:
            raise Inconclusive()
        ref = res.ok("reference trace")
        child.now_ok(["run"] + case.get("opts", []) + ["script.py"], path)
        trial = Trial(path)
        trial.late = any(k[3] for k in ref["keys"])
        check_activations(ref, trial)
        check_values(ref, trial)
        check_times(ref, trial)
        check_evaluations(ref, trial, comp_targets(src))
    rec.label(*case.get("used", []))
    rec.label("end:" + str(ref["end"]))
    depth = 0
    for num in range(len(ref["acts"])):
        level, cur = 0, num
        while cur >= 0:
            level += 1
            cur = ref["acts"][cur]["parent"]
        depth = max(depth, level)
    rec.nt(len(ref["acts"]) >= 4 and depth >= 2 and len(ref["values"]) >= 40)


def programs():
    return progs.programs(without=("walrus",), fuel=45)


def run_snippets(case, rec):
    src = "\n".join(
        snippets.place(kind, number, snippets.SNIPPETS[index])
        for number, (kind, index) in enumerate(case["snips"])) + "\n"
    run_program({"src": src}, rec)


def supported(src):
    """What the reference trace can follow."""
    return not any(text in src for text in (
        "match ", "except*",    # not traced
        "namedtuple", "thread", "open(", "__slots__"))


def snips():
    return st.fixed_dictionaries({
        "snips": st.lists(st.tuples(
            st.sampled_from(snippets.KINDS),
            st.sampled_from([i for i, s in enumerate(snippets.SNIPPETS)
                             if supported(s)])).map(list),
            min_size=1, max_size=3)})


PROBES = []
REGRESSIONS = {}
PARTS = [Part("snippets", snips, run_snippets, 200, 3000),
         Part("programs", programs, run_program, 700, 8000)]
