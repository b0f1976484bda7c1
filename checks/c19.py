"""C19: queries by patterns."""
import collections
import datetime

from hypothesis import strategies as st

from vh import child, store
from vh.core import Part, Violation

PROPERTY = "C19"
RULE = (
    "A case is a generated program, executed in two trials, and 6 generated "
    "conjunctions of up to 3 models and rules, with constants, blanks and "
    "shared variables. The solutions of each are compared to a join of the "
    "relations, which are computed from the rows of the store by their "
    "definitions. Non-trivial: at least 2 conjunctions of at least 2 atoms "
    "have solutions.")
ASSUMPTIONS = ["rules of names with lists of identifiers are not explored"]

MODELS = {
    "activation": "trial eval name time block",
    "argument": "trial name text",
    "code_block": "trial comp hash text",
    "code_component": "trial comp name type mode line col line col comp",
    "composition": "trial comp comp type pos text",
    "dependency": "trial eval eval eval eval type bool eval eval text",
    "environment": "trial name text",
    "evaluation": "trial eval time comp eval text eval",
    "access": "trial file name mode hash hash time eval",
    "member": "trial eval eval eval eval text time type",
    "module": "trial mod name text text comp bool text",
}
RULES = {
    "access_id": "trial eval file", "activation_id": "trial eval eval",
    "called_activation_id": "trial eval eval",
    "is_activation_id": "trial eval", "evaluation_code_id": "trial eval comp",
    "code_line_id": "trial comp line", "evaluation_line_id": "trial eval line",
    "code_name": "trial comp name", "evaluation_name": "trial eval name",
    "activation_name": "trial eval name", "access_name": "trial file name",
    "access_mode_id": "trial file mode", "code_mode_id": "trial comp mode",
    "code_scope_id": "trial comp type", "evaluation_scope_id":
    "trial eval type", "code_docstring_id": "trial comp text",
    "activation_docstring_id": "trial eval text",
    "hash_id": "trial any hash moment", "hash": "trial name hash moment",
    "changed_id": "trial file", "changed": "trial name",
    "file_read_id": "trial file", "file_written_id": "trial file",
    "file_read": "trial name", "file_written": "trial name",
    "name": "trial model any name", "mode_id": "trial model any mode",
    "mode": "trial model name mode", "scope_id": "trial model any type",
    "scope": "trial model name type", "docstring_id": "trial model any text",
    "docstring": "trial model name text",
    "timestamp_id": "trial any time moment", "duration_id": "trial any time",
    "successor_id": "trial model any model any",
    "activation_stack_id": "trial eval stack",
    "indirect_activation_id": "trial eval eval",
    "access_stack_id": "trial file stack",
    "indirect_access_id": "trial eval file",
    "temporal_activation_influence_id": "trial eval eval",
}
PLACES = {
    "access_id": "access_rules", "file_read_id": "access_rules",
    "file_written_id": "access_rules", "file_read": "access_rules",
    "file_written": "access_rules", "evaluation_code_id": "id_rules",
    "code_line_id": "code_rules", "duration_id": "timestamp_rules",
    "timestamp_id": "timestamp_rules", "successor_id": "timestamp_rules",
    "activation_stack_id": "temporal_inference_rules",
    "indirect_activation_id": "temporal_inference_rules",
    "access_stack_id": "temporal_inference_rules",
    "indirect_access_id": "temporal_inference_rules",
    "temporal_activation_influence_id": "temporal_inference_rules",
}
for _name in RULES:
    for _end, _place in [("name", "name"), ("mode_id", "mode_access"),
                         ("mode", "mode_access"), ("scope_id", "scope"),
                         ("scope", "scope"), ("docstring_id", "docstring"),
                         ("docstring", "docstring"), ("hash_id", "hash"),
                         ("hash", "hash"), ("changed_id", "hash"),
                         ("changed", "hash")]:
        if _name not in PLACES and _name.endswith(_end):
            PLACES[_name] = _place + "_rules"
    PLACES.setdefault(_name, "activation_rules")


@st.composite
def programs(draw):
    """Functions that call previous ones and access files"""
    lines = []
    num = draw(st.integers(1, 3))
    for i in range(num):
        lines.append("def f{}(x):".format(i))
        if draw(st.booleans()):
            lines.append("    'doc{}'".format(draw(st.integers(0, 1))))
        for _ in range(draw(st.integers(1, 3))):
            kind = draw(st.sampled_from(["set", "call", "file", "list",
                                         "file"]))
            lines.append("    " + {
                "set": "x = x + 1",
                "call": "x = f{}(x)".format(draw(st.integers(0, i - 1)))
                        if i else "y = [x]",
                "file": "open('{}.txt', '{}').close()".format(
                    draw(st.sampled_from("ab")), draw(st.sampled_from(
                        ["r", "w", "a", "r+", "a+", "w+"]))),
                "list": "y = [x, 2]\n    y[0] = x"}[kind])
        lines.append("    return x")
    for _ in range(draw(st.integers(1, 3))):
        lines.append(draw(st.sampled_from([
            "z = f{}(1)".format(draw(st.integers(0, num - 1))),
            "z = f{}(\n    2)".format(num - 1),
            "open('a.txt', '{}').close()".format(
                draw(st.sampled_from(["r", "a", "w", "rb", "r+b", "wt"]))),
            "class A(object):\n    'doc1'\n    w = 1"])))
    return "\n".join(lines) + "\n"


def arg():
    return st.tuples(
        st.sampled_from(["var", "var", "var", "const", "blank", "other"]),
        st.integers(0, 1), st.integers(0, 10 ** 6)).map(list)


def atom():
    return st.fixed_dictionaries({
        "name": st.one_of(st.sampled_from(sorted(MODELS)),
                          st.sampled_from(sorted(RULES))),
        "args": st.lists(arg(), min_size=10, max_size=10),
        "row": st.integers(0, 10 ** 6), "kwargs": st.booleans()})


def cases():
    return st.fixed_dictionaries({
        "src": programs(),
        "queries": st.lists(st.fixed_dictionaries({
            "atoms": st.lists(atom(), min_size=1, max_size=3),
            "right": st.booleans()}), min_size=6, max_size=6)})


COLUMNS = {
    "activation": ("activation", "trial_id id name start_checkpoint "
                   "code_block_id"),
    "argument": ("argument", "trial_id name value"),
    "code_block": ("code_block", "trial_id id code_hash docstring"),
    "code_component": ("code_component", "trial_id id name type mode "
                       "first_char_line first_char_column last_char_line "
                       "last_char_column container_id"),
    "composition": ("composition", "trial_id whole_id part_id type position "
                    "extra"),
    "dependency": ("dependency", "trial_id dependent_activation_id "
                   "dependent_id dependency_activation_id dependency_id type "
                   "reference collection_activation_id collection_id key"),
    "environment": ("environment_attr", "trial_id name value"),
    "evaluation": ("evaluation", "trial_id id checkpoint code_component_id "
                   "activation_id repr member_container_id"),
    "access": ("file_access", "trial_id id name mode content_hash_before "
               "content_hash_after checkpoint activation_id"),
    "member": ("member", "trial_id collection_activation_id collection_id "
               "member_activation_id member_id key checkpoint type"),
    "module": ("module", "trial_id id name version path code_block_id "
               "transformed fullpath"),
}


def relations(path):
    """Compute relations from the rows of the store"""
    sto = store.Store(path)
    rel = collections.defaultdict(list)
    raw = {}
    times = {}
    for trial in sto.trials():
        times[trial.id] = (trial.start, trial.finish)
        for name, (table, cols) in COLUMNS.items():
            rows = sto.rows(table, trial.id)
            raw[trial.id, name] = rows
            for row in rows:
                rel[name].append(tuple(
                    getattr(row, c) for c in cols.split()))
    for trial in sto.trials():
        t = trial.id

        def rows(name):
            return raw[t, name]
        comps = {c.id: c for c in rows("code_component")}
        evals = {e.id: e for e in rows("evaluation")}
        acts = {a.id: a for a in rows("activation")}
        blocks = {b.id: b for b in rows("code_block")}

        def add(name, *values):
            rel[name].append((t,) + values)

        def code_scope(comp):
            if comp.container_id is None:
                return ["project"]
            return [comps[comp.container_id].type] \
                if comp.container_id in comps else []

        def stack(ident):
            if ident not in evals:
                return None
            caller = evals[ident].activation_id
            if not caller:
                return ()
            above = stack(caller)
            return None if above is None else (caller,) + above
        for e in evals.values():
            add("activation_id", e.activation_id, e.id)
            if e.id in acts:
                add("called_activation_id", e.activation_id, e.id)
            add("evaluation_code_id", e.id, e.code_component_id)
            comp = comps[e.code_component_id]
            add("evaluation_name", e.id, comp.name)
            for kind in ("evaluation", "activation"):
                if kind == "evaluation" or e.id in acts:
                    add("mode_id", kind, e.id, comp.mode)
            for line in range(comp.first_char_line, comp.last_char_line + 1):
                add("evaluation_line_id", e.id, line)
            for scope in code_scope(comp):
                add("evaluation_scope_id", e.id, scope)
            above = stack(e.id)
            if above is not None:
                add("activation_stack_id", e.id, above)
                for caller in above:
                    add("indirect_activation_id", caller, e.id)
        for a in acts.values():
            add("is_activation_id", a.id)
            add("activation_name", a.id, a.name)
            if a.code_block_id in blocks:
                add("activation_docstring_id", a.id,
                    blocks[a.code_block_id].docstring)
            add("duration_id", a.id,
                evals[a.id].checkpoint - a.start_checkpoint)
        for c in comps.values():
            add("code_name", c.id, c.name)
            add("code_mode_id", c.id, c.mode)
            for line in range(c.first_char_line, c.last_char_line + 1):
                add("code_line_id", c.id, line)
            for scope in code_scope(c):
                add("code_scope_id", c.id, scope)
        for b in blocks.values():
            add("code_docstring_id", b.id, b.docstring)
            add("hash_id", b.id, b.code_hash, "code_block")
            add("hash", comps[b.id].name, b.code_hash, "code_block")
        for f in rows("access"):
            add("access_id", f.activation_id, f.id)
            add("access_name", f.id, f.name)
            add("access_mode_id", f.id, f.mode)
            add("mode_id", "access", f.id, f.mode)
            add("name", "access", f.id, f.name)
            add("mode", "access", f.name, f.mode)
            for moment in ("before", "after"):
                value = getattr(f, "content_hash_" + moment)
                add("hash_id", f.id, value, moment)
                add("hash", f.name, value, moment)
            if f.content_hash_before != f.content_hash_after:
                add("changed_id", f.id)
                add("changed", f.name)
            if set(f.mode) & set("r+"):
                add("file_read_id", f.id)
                add("file_read", f.name)
            if set(f.mode) & set("wxa+"):
                add("file_written_id", f.id)
                add("file_written", f.name)
            above = stack(f.activation_id)
            if above is not None:
                above = (f.activation_id,) + above
                add("access_stack_id", f.id, above)
                for caller in above:
                    add("indirect_access_id", caller, f.id)
            add("timestamp_id", f.id, f.checkpoint, "access")
        for model, source in [("code_component", "code_name"),
                              ("code_block", "code_name"),
                              ("evaluation", "evaluation_name"),
                              ("activation", "activation_name")]:
            named = collections.defaultdict(list)
            for _, ident, name in [r for r in rel[source] if r[0] == t]:
                add("name", model, ident, name)
                named[ident].append(name)
            code = model.startswith("code")
            modes = [r[1:] for r in rel["code_mode_id"] if r[0] == t] if code \
                else [r[2:] for r in rel["mode_id"] if r[:2] == (t, model)]
            scopes = [r[1:] for r in rel["code_scope_id" if code else
                                         "evaluation_scope_id"] if r[0] == t]
            docs = [r[1:] for r in rel["code_docstring_id" if code else
                                       "activation_docstring_id"]
                    if r[0] == t]
            for kind, values in [("mode", modes), ("scope", scopes),
                                 ("docstring", docs)]:
                for ident, value in values:
                    if kind != "mode" or code:
                        add(kind + "_id", model, ident, value)
                    for name in named[ident]:
                        add(kind, model, name, value)
        for a in acts.values():
            for moment in ("start", "activation"):
                add("timestamp_id", a.id, a.start_checkpoint, moment)
        for e in evals.values():
            for moment in ("finish", "evaluation"):
                add("timestamp_id", e.id, e.checkpoint, moment)
        befores = [r[1:] for r in rel["timestamp_id"] if r[0] == t and
                   r[3] in ("activation", "evaluation", "access")]
        for one, first, before in befores:
            for two, second, after in befores:
                if after != "activation" and first <= second:
                    add("successor_id", before, one, after, two)
                    if after == "evaluation" and two in acts:
                        add("successor_id", before, one, "activation", two)
                        if before == "activation":
                            add("temporal_activation_influence_id", one, two)
        start, finish = times[t]
        for moment, value in [("start", start), ("finish", finish)]:
            add("timestamp_id", 0, value, moment)
        add("duration_id", 0, None)
    return rel


def norm(value):
    if isinstance(value, (list, tuple)):
        return tuple(norm(v) for v in value)
    if isinstance(value, bool):
        return int(value)
    if isinstance(value, (datetime.datetime, datetime.timedelta)):
        return str(value)
    return value


MODEL_KINDS = {
    "name": ["code_component", "code_block", "evaluation", "activation",
             "access"],
    "mode_id": ["access", "code_component", "evaluation", "activation"],
    "mode": ["access", "code_component", "evaluation", "activation"],
    "successor_id": ["activation", "evaluation", "access"]}


def plan(query, rel, rec):
    """Choose arguments of atoms: variables, constants and blanks"""
    atoms, known = [], set()
    for spec in query["atoms"]:
        name = spec["name"]
        domains = (MODELS.get(name) or RULES[name]).split()
        rows = rel[name]
        row = rows[spec["row"] % len(rows)] if rows else [None] * len(domains)
        args = []
        for pos, (domain, (kind, num, pick)) in enumerate(
                zip(domains, spec["args"])):
            if domain == "trial" and kind == "blank":
                kind = "const"
            if domain == "model":
                kinds = MODEL_KINDS.get(name, MODEL_KINDS["name"][:4])
                args.append(("const", kinds[pick % len(kinds)]))
                if rows and kind == "var":
                    args[-1] = ("const", row[pos])
            elif kind == "var" or kind == "other" and not rows:
                args.append(("var", domain + str(num * (domain != "trial"))))
            elif kind == "blank" or domain in ("stack", "any", "time") or \
                    not rows:
                args.append(("blank", None))
            elif kind == "const":
                args.append(("const", row[pos]))
            else:
                args.append(("const", rows[pick % len(rows)][pos]))
        if atoms and not any(k == "var" and v in known for k, v in args[1:]):
            # avoid products: restrict the atom to a row
            for pos, domain in enumerate(domains):
                if domain not in ("stack", "any", "time", "model", "trial"):
                    args[pos] = ("const", row[pos])
        known |= {v for k, v in args[1:] if k == "var"}
        atoms.append((name, args))
    return atoms


def solve(atoms, rel):
    """Join relations; returns list of assignments and rows"""
    found = [({}, ())]
    for name, args in atoms:
        result = []
        for assign, used in found:
            for row in rel[name]:
                new = dict(assign)
                for (kind, arg), value in zip(args, row):
                    value = norm(value)
                    if kind == "const" and norm(arg) != value:
                        break
                    if kind == "var" and new.setdefault(arg, value) != value:
                        break
                else:
                    result.append((new, used + (row,)))
        found = result
        if len(found) > 300:
            return None
    return found


def ask(atoms, right, kwargs):
    """Run query by patterns"""
    import importlib
    from noworkflow.patterns import models, var, BLANK
    from noworkflow.patterns.machinery import Variable
    variables = {}
    parts = []
    for (name, args), by_name in zip(atoms, kwargs):
        if name in MODELS:
            rule = getattr(models, name)
            names = COLUMNS[name][1].split()
        else:
            rule = getattr(importlib.import_module(
                "noworkflow.patterns.rules." + PLACES[name]), name)
            names = list(rule.args)
        values = []
        for kind, value in args:
            if kind == "var":
                value = variables.setdefault(value, Variable(value))
            elif kind == "blank":
                value = BLANK
            values.append(value)
        if by_name:
            parts.append(rule(**{n: v for n, v in zip(names, values)
                                 if v is not BLANK}))
        else:
            parts.append(rule(*values))
    if right and len(parts) == 3:
        query = parts[0] & (parts[1] & parts[2])
    else:
        query = parts[0]
        for part in parts[1:]:
            query = query & part
    answers = []
    for _ in range(2):
        answer = []
        for result, binds in query:
            if not isinstance(result, tuple):
                result = (result,)
            shown = []
            if all(name in MODELS for name, _ in atoms):
                for (name, _), row in zip(atoms, result):
                    shown.append(tuple(norm(getattr(row, c)) for c in
                                       COLUMNS[name][1].split()))
            answer.append(({k.name: norm(v) for k, v in binds.items()},
                           shown))
        answers.append(answer)
        if any(v.bound is not BLANK for v in variables.values()):
            return answers, "variables are still bound: {}".format(
                {v: v.bound for v in variables.values()})
    return answers, None


def run(case, rec):
    with child.Dir() as path:
        with open(path + "/s.py", "w") as fil:
            fil.write(case["src"])
        for name in ("a.txt", "b.txt"):
            with open(path + "/" + name, "w") as fil:
                fil.write(name)
        for _ in range(2):
            child.now_ok(["run", "--content-engine", "plain", "s.py"], path)

        def go():
            from noworkflow.now.persistence import relational
            from noworkflow.now.persistence.models import Trial
            rel = relations(path)
            for name, model in [("timestamp_id", None), ("duration_id", None)]:
                # times of trials as objects
                for k, row in enumerate(rel[name]):
                    if row[1] == 0:
                        trial = Trial(row[0])
                        rel[name][k] = (
                            (row[0], 0, getattr(trial, row[3]), row[3])
                            if name == "timestamp_id" else
                            (row[0], 0, trial.finish - trial.start))
            result = []
            for query in case["queries"]:
                atoms = plan(query, rel, rec)
                expected = solve(atoms, rel)
                if expected is None:
                    continue
                try:
                    got = ask(atoms, query["right"],
                              [a["kwargs"] for a in query["atoms"]])
                except Exception as exc:
                    import traceback
                    got = ([], "error {!r} {}".format(
                        exc, traceback.format_exc()[-300:]))
                result.append((atoms, expected, got))
            return result
        deep = 0
        for atoms, expected, (answers, problem) in store.models(
                path, go, timeout=120).ok("the queries"):
            if problem:
                raise Violation("{} of {}".format(problem, atoms))
            check(atoms, expected, answers)
            deep += bool(len(atoms) > 1 and expected)
            for name, _ in atoms:
                if expected:
                    rec.label("atom", name)
        if deep >= 2:
            rec.nt()


def check(atoms, expected, answers):
    def key(assign):
        return tuple(sorted((k, repr(v)) for k, v in assign.items()))
    models = all(name in MODELS for name, _ in atoms)
    want = {key(a) for a, _ in expected}
    for answer in answers:
        got = {key(a) for a, _ in answer}
        if got != want:
            extra, missing = sorted(got - want)[:2], sorted(want - got)[:2]
            raise Violation("{} has {} solutions instead of {}; extra {}, "
                            "missing {}".format(atoms, len(got), len(want),
                                                extra, missing))
        if models:
            one = collections.Counter(
                repr([norm(r) for r in rows]) for _, rows in expected)
            two = collections.Counter(repr([norm(r) for r in rows])
                                      for _, rows in answer)
            if one != two:
                raise Violation("{} selects {} instead of {}".format(
                    atoms, (two - one).most_common(1),
                    (one - two).most_common(1)))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("queries", cases, run, 96, 4000)]
