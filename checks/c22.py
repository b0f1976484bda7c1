"""C22: options of collection do not change what is stored."""
import re

from hypothesis import strategies as st

from vh import callprogs, child, progs, store
from vh.core import Part, Violation

PROPERTY = "C22"
RULE = (
    "partial: a generated program runs with a clock that advances 1 ms on "
    "each read, once without partial saves, and once saving at a generated "
    "frequency; all tables have to be equal. depth: the program runs with and "
    "without a depth limit; what is in the limit has to be equal, and nothing "
    "else is stored. Non-trivial: at least 3 partial saves (partial), or "
    "at least 5 evaluations are below the limit (depth).")
ASSUMPTIONS = [
    "programs are deterministic; addresses of objects are normalised",
    "class definitions are also stored below the limit",
    "with the depth limit, dependencies that come from functions that were "
    "not observed are approximations, and only the ones of names, "
    "assignments, calls and arguments are compared",
]
ADDRESS = re.compile(r"0x[0-9a-f]+")
TABLES = ["code_component", "code_block", "composition", "evaluation",
          "activation", "dependency", "member", "file_access", "module",
          "argument", "environment_attr"]
SKIP = {"trial_id", "checkpoint", "start_checkpoint", "content_hash_before_",
        "timestamp"}

FILES = """\
def save(x):
    with open('o.txt', {!r}) as fil:
        fil.write(str(x))
        y = [x, x]
        fil.write(str(y[0]))
    return y
sv = save(1)
rd = open('o.txt').read()
sv = save(2)
"""


@st.composite
def programs(draw):
    head = ""
    if draw(st.booleans()):
        head = FILES.format(draw(st.sampled_from(["w", "a"])))
    if draw(st.booleans()):
        return head + draw(callprogs.call_programs(
            generators=draw(st.booleans())))
    return head + draw(progs.programs(low=1, high=5, depth=2))["src"]


def partial_cases():
    return st.fixed_dictionaries({
        "src": programs(), "every": st.sampled_from(
            [1, 1, 2, 3, 5, 8, 13, 30, 70]),
        "exc": st.sampled_from([False, False, False, True])})


def clock():
    from noworkflow.now.collection.metadata import Metascript
    state = [0.0]

    def get_time(self):
        state[0] += 0.001
        return state[0]
    Metascript.get_time = get_time


def execute(src, options, rec, name="partial saves"):
    with child.Dir() as path:
        with open(path + "/s.py", "w") as fil:
            fil.write(src)
        res = child.now(["run", "--content-engine", "plain"] + options +
                        ["s.py"], path, patch=clock)
        child.check_crash(res, "now run " + " ".join(options))
        sto = store.Store(path)
        trial = sto.last()
        result = {t: sto.rows(t, trial.id) for t in TABLES}
        norm = lambda text: ADDRESS.sub("0x", text.replace(path, "DIR"))  # noqa
        for table, rows in result.items():
            for row in rows:
                for key, value in row.items():
                    if isinstance(value, str):
                        row[key] = norm(value)
        return result, norm(res.out), trial.status, norm(res.err)


def final(table, rows):
    result = []
    for row in rows:
        if table == "argument" and row["name"] in (
                "save_frequency", "depth"):
            continue
        if table == "environment_attr" and row["name"] in (
                "PID", "PWD", "HOME", "TMPDIR"):
            continue
        if table == "environment_attr" and "AV" in row["name"]:
            continue
        result.append({k: v for k, v in row.items() if k not in SKIP})
    if table in ("code_component", "code_block", "evaluation", "activation"):
        result.sort(key=lambda r: r["id"])
    return result


def order(result):
    """Evaluations and activations in the order of their moments"""
    rows = [(r.checkpoint, r.id) for r in result["evaluation"]]
    starts = [(r.start_checkpoint, r.id) for r in result["activation"]]
    return [r[1] for r in sorted(rows)], [r[1] for r in sorted(starts)]


def run_partial(case, rec):
    src = case["src"]
    if case["exc"]:
        src += "\nraise ValueError(1)\n"
    one = execute(src, ["-s", "0"], rec)
    if len(one[0]["evaluation"]) > 1500:
        rec.excluded += 1
        return
    two = execute(src, ["-s", str(case["every"])], rec)
    if one[1] != two[1]:
        raise Violation("partial saves change the output: {!r} / {!r}".format(
            one[1], two[1]))
    if one[2] != two[2]:
        raise Violation("the status is {} / {}".format(one[2], two[2]))
    for table in TABLES:
        left, right = final(table, one[0][table]), final(table, two[0][table])
        if left != right:
            diff = [(a, b) for a, b in zip(left, right) if a != b][:1]
            raise Violation(
                "partial saves change {}: {} rows instead of {}; first: {}"
                .format(table, len(right), len(left), diff))
    if order(one[0]) != order(two[0]):
        raise Violation("partial saves change the order of the moments")
    total = max(r.checkpoint for r in two[0]["evaluation"])
    rec.nt(total * 1000 > 3 * case["every"])


def depth_cases():
    return st.fixed_dictionaries({
        "src": programs(), "depth": st.sampled_from([0, 1, 1, 2, 2, 3, 4])})


class View(object):
    """Stored rows with the positions of evaluations in their activations"""

    def __init__(self, result, depth):
        self.evals = {r.id: r for r in result["evaluation"]}
        self.comps = {r.id: r for r in result["code_component"]}
        self.acts = {r.id: r for r in result["activation"]}
        self.level = {0: -1}
        self.keys = {}
        count = {}
        for eid in sorted(self.evals):
            row = self.evals[eid]
            key = (self.text(eid), self.key_of(row.activation_id))
            count[key] = num = count.get(key, 0) + 1
            self.keys[eid] = key + (num,)
        self.shown = [
            e for e in sorted(self.evals)
            if self.level_of(self.evals[e].activation_id) <= depth and
            self.evals[e].activation_id]
        self.deps = result["dependency"]
        self.members = result["member"]

    def level_of(self, act):
        if act not in self.level:
            self.level[act] = self.level_of(
                self.evals[act].activation_id) + 1
        return self.level[act]

    def key_of(self, act):
        return self.keys[act] if act else None

    def text(self, eid):
        comp = self.comps[self.evals[eid].code_component_id]
        return (comp.name, comp.type, comp.first_char_line,
                comp.first_char_column, self.evals[eid].repr)


COMPARED = {"assign", "assignment", "func", "argument", "item", "use"}


def run_depth(case, rec):
    src, depth = case["src"], case["depth"]
    one = execute(src, [], rec)
    if len(one[0]["evaluation"]) > 1500:
        rec.excluded += 1
        return
    two = execute(src, ["-d", str(depth)], rec)
    if one[1] != two[1]:
        raise Violation("-d changes the output: {!r} / {!r}".format(
            one[1], two[1]))
    full, limited = View(one[0], depth - 1), View(two[0], depth - 1)
    want = [full.text(e) for e in full.shown]
    got = [limited.text(e) for e in limited.shown]
    if want != got:
        diff = [(a, b) for a, b in zip(want, got) if a != b][:1]
        raise Violation(
            "-d {}: {} evaluations instead of {}; first: {}".format(
                depth, len(got), len(want), diff))
    extra = [limited.text(e) for e in limited.evals
             if limited.evals[e].activation_id and e not in limited.shown and
             limited.text(e)[1] != "class_def"]
    if extra:
        raise Violation("-d {}: {} is below the limit".format(
            depth, extra[0]))
    acts = lambda view: [  # noqa
        (a.name,) + view.text(a.id) for a in view.acts.values()
        if a.id in set(view.shown)]
    if acts(full) != acts(limited):
        raise Violation("-d {}: activations are {} instead of {}".format(
            depth, acts(limited), acts(full)))
    check_references(limited)
    shown = set(full.shown)
    missing = {
        (full.keys[d.dependent_id], full.keys[d.dependency_id], d.type)
        for d in full.deps if d.type in COMPARED and
        d.dependent_id in shown and d.dependency_id in shown
    } - {
        (limited.keys[d.dependent_id], limited.keys[d.dependency_id], d.type)
        for d in limited.deps}
    if missing:
        raise Violation("-d {}: missing dependencies {}".format(
            depth, sorted(missing, key=str)[:2]))
    rec.nt(len(full.evals) - len(limited.evals) >= 5)


def check_references(view):
    """Everything refers to something that is stored"""
    for dep in view.deps:
        for key in ("dependent_id", "dependency_id", "collection_id"):
            if dep[key] is not None and dep[key] not in view.evals:
                raise Violation("a dependency has the {} {}".format(
                    key, dep[key]))
    for row in view.members:
        for key in ("collection_id", "member_id"):
            if row[key] not in view.evals:
                raise Violation("a member has the {} {}: {}".format(
                    key, row[key], row))
    for row in view.evals.values():
        if row.member_container_id is not None and (
                row.member_container_id not in view.evals):
            raise Violation("evaluation {} has the container {}".format(
                row.id, row.member_container_id))


PROBES = []
REGRESSIONS = {}
PARTS = [
    Part("partial", partial_cases, run_partial, 64, 2000),
    Part("depth", depth_cases, run_depth, 64, 2000),
]
