"""C25: queries of evaluations, derivations and relationships."""
import collections
import re

from hypothesis import strategies as st

from checks import c15
from vh import child, store
from vh.core import Part, Violation

PROPERTY = "C25"
RULE = (
    "A case is a store with two trials of generated programs, and queries. "
    "'queries': filters of 'now evaluation' and derivations between sampled "
    "evaluations are compared to a filter and to a search over the stored "
    "rows. 'models': relationships of model objects are compared to joins of "
    "the rows. Non-trivial: a query with at least 2 filters finds something, "
    "and sampled evaluations include derived and not derived ones.")
ASSUMPTIONS = []
FILTERS = ["line", "column", "mode", "code", "value", "cid", "eid", "aid"]


def query():
    return st.fixed_dictionaries({
        "filters": st.lists(st.sampled_from(FILTERS), max_size=3,
                            unique=True),
        "same": st.sampled_from([True, True, True, False]),
        "pick": st.integers(0, 10 ** 6), "pick2": st.integers(0, 10 ** 6),
        "index": st.sampled_from([None, None, None, -1, 0, 1, 2, "len",
                                  "len+1", "len+2"]),
        "trial": st.integers(0, 1)})


def cases():
    return st.fixed_dictionaries({
        "srcs": st.tuples(c15.programs(), c15.programs()).map(list),
        "fails": st.lists(st.sampled_from([0, 0, 0, 1]), min_size=2,
                          max_size=2),
        "queries": st.lists(query(), min_size=6, max_size=6),
        "wdf": st.lists(st.tuples(
            st.integers(0, 10 ** 6), st.integers(0, 10 ** 6),
            st.booleans()).map(list), min_size=6, max_size=6)})


class Rows(object):
    def __init__(self, path, trial):
        sto = store.Store(path)
        self.trial = trial
        for name, table in [("evals", "evaluation"), ("acts", "activation"),
                            ("comps", "code_component"),
                            ("blocks", "code_block")]:
            setattr(self, name, {
                r.id: r for r in sto.rows(table, trial, "id")})
        self.deps = sto.rows("dependency", trial, "id")
        self.members = sto.rows("member", trial, "id")
        self.compositions = sto.rows("composition", trial, "id")
        self.accesses = sto.rows("file_access", trial, "id")
        self.out = collections.defaultdict(list)
        for dep in self.deps:
            self.out[dep.dependent_id].append(dep)
        self.parts = collections.defaultdict(list)
        for member in self.members:
            self.parts[member.collection_id].append(member)

    def derived(self, start):
        """Evaluations that the start was derived from"""
        first = (start, None)
        visited, todo, found = {first}, [first], set()
        while todo:
            ident, moment = todo.pop()
            row = self.evals[ident]
            moment = moment or row.checkpoint
            near = [(dep.dependency_id, None) for dep in self.out[ident]]
            if not moment and near:
                moment = self.evals[near[0][0]].checkpoint
            if moment:
                whole = row.member_container_id
                state = {}
                for member in sorted(
                        self.parts[ident if whole is None else whole],
                        key=lambda m: m.checkpoint):
                    if member.checkpoint <= moment:
                        state[member.key] = member.member_id
                near += [(m, moment) for m in state.values()]
            for context in near:
                if context not in visited:
                    visited.add(context)
                    todo.append(context)
                    found.add(context[0])
        return found

    def matches(self, filters):
        result = []
        for row in self.evals.values():
            comp = self.comps[row.code_component_id]
            values = {
                "mode": comp.mode, "code": comp.name, "value": row.repr,
                "cid": comp.id, "eid": row.id, "aid": row.activation_id}
            okay = True
            for name, value in filters.items():
                if name in ("line", "column"):
                    suffix = "_char_" + name
                    okay &= comp["first" + suffix] >= value and \
                        comp["last" + suffix] <= value
                else:
                    okay &= values[name] == value
            if okay:
                result.append(row.id)
        return result


def make_filters(rows, spec):
    evals = sorted(rows.evals)
    filters = {}
    row = rows.evals[evals[spec["pick"] % len(evals)]]
    for name in spec["filters"]:
        comp = rows.comps[row.code_component_id]
        filters[name] = {
            "line": comp.first_char_line, "column": comp.first_char_column,
            "mode": comp.mode, "code": comp.name, "value": row.repr,
            "cid": comp.id, "eid": row.id, "aid": row.activation_id}[name]
        if not spec["same"]:
            row = rows.evals[evals[spec["pick2"] % len(evals)]]
    return filters


def prepare(case, path, rec):
    for i, src in enumerate(case["srcs"]):
        with open(path + "/s{}.py".format(i), "w") as fil:
            fil.write(src)
            if case["fails"][i]:
                fil.write("\ndef fail(v):\n    return [v, v / 0]\n"
                          "fail(1)\n")
        child.check_crash(child.now(
            ["run", "--content-engine", "plain", "s{}.py".format(i)], path),
            "now run")
    trials = [t.id for t in store.Store(path).trials()]
    both = [Rows(path, t) for t in trials]
    if len(both) != 2 or not all(
            r.acts and len(r.evals) < 500 for r in both):
        rec.excluded += 1
        return None
    return both


def run_queries(case, rec):
    with child.Dir() as path:
        both = prepare(case, path, rec)
        if both is None:
            return
        specs = []
        for spec in case["queries"]:
            rows = both[spec["trial"]]
            filters = make_filters(rows, spec)
            want = rows.matches(filters)
            index = spec["index"]
            if isinstance(index, str):
                index = len(want) + int(index[4:] or 0)
            specs.append((rows.trial, filters, index, want,
                          len(spec["filters"])))
        pairs = []
        for first, second, close in case["wdf"]:
            rows = both[first % 2]
            evals = sorted(rows.evals)
            start = evals[first // 2 % len(evals)]
            reach = rows.derived(start)
            pool = sorted(reach) if close and reach else evals
            others = sorted({pool[second % len(pool)],
                             pool[second // 7 % len(pool)],
                             evals[second // 50 % len(evals)]})
            pairs.append((rows.trial, start, others,
                          [o in reach for o in others], sorted(reach)))
        got = store.models(path, lambda: ask(specs, pairs)).ok("the queries")
        useful = False
        for spec, found in zip(specs, got[0]):
            trial, filters, index, want, count = spec
            if index is None:
                okay = sorted(found) == sorted(want)
            elif 1 <= index <= len(want):
                okay = len(found) == 1 and found[0] in want
            else:
                okay = found == []
            if not okay:
                raise Violation("{} index {} found {} instead of {}".format(
                    filters, index, sorted(found), want))
            useful |= count >= 2 and len(want) > 0
        derived = set()
        for (trial, start, others, want, reach), found in zip(pairs, got[1]):
            if found["distinguish"] != want:
                raise Violation("{} was derived from {}: {} instead of "
                                "{}".format(start, others,
                                            found["distinguish"], want))
            if found["all"] != all(want):
                raise Violation("{} was derived from all {}: {}".format(
                    start, others, found["all"]))
            for name in ("default", "preloaded"):
                if found[name] != reach:
                    raise Violation(
                        "{} depends on {} instead of {} ({})".format(
                            start, found[name], reach, name))
            derived.update(want)
        check_command(case, path, both, specs, pairs)
        if useful and len(derived) == 2:
            rec.nt()


def ask(specs, pairs):
    from argparse import Namespace
    from noworkflow.now.cmd.cmd_evaluation import query_evaluations
    from noworkflow.now.models.dependency_querier import (
        DependencyQuerier, PreloadedQuerierOptions)
    from noworkflow.now.persistence.models import Evaluation, Trial
    found = []
    for trial, filters, index, _, _ in specs:
        args = Namespace(trial=trial, index=index, **filters)
        found.append([e.id for e in query_evaluations(args)])
    derived, preloaded = [], {}
    for trial, start, others, _, _ in pairs:
        if trial not in preloaded:
            preloaded[trial] = Trial(trial_ref=trial)
            preloaded[trial, "o"] = PreloadedQuerierOptions(preloaded[trial])
        evaluation = Evaluation((trial, start))
        objects = [Evaluation((trial, o)) for o in others]
        answer = evaluation.was_derived_from(objects, distinguish=True)
        result = {"distinguish": [answer[o] for o in objects],
                  "all": evaluation.was_derived_from(objects)}
        for name, options in [("default", None),
                              ("preloaded", preloaded[trial, "o"])]:
            querier = DependencyQuerier(options)
            visited = querier.navigate_dependencies([evaluation])[1]
            result[name] = sorted({
                c.evaluation.id for c in visited
                if c.evaluation.id != start or c.checkpoint is not None})
        derived.append(result)
    return found, derived


def check_command(case, path, both, specs, pairs):
    """Run 'now evaluation' with display options"""
    trial, start, others, want, _ = pairs[0]
    rows = [r for r in both if r.trial == trial][0]
    res = child.now_ok(
        ["evaluation", "-t", trial, "--eid", str(start), "display", "-c",
         "-v", "-p", "-t", "-a", "wdf", "--eid", str(others[0])], path)
    row = rows.evals[start]
    comp = rows.comps[row.code_component_id]
    lines = res.out.split("\n")
    head = "- {} {} (A{} E{})".format(comp.first_char_line, comp.name,
                                      row.activation_id, row.id)
    text = res.out
    pieces = [
        "Found 1 evaluation(s):\n" + head + "\n",
        "  Code Component: {} Mode: {}\n".format(comp.id, comp.mode),
        "  Position: ({}, {}) - ({}, {})\n".format(
            comp.first_char_line, comp.first_char_column,
            comp.last_char_line, comp.last_char_column),
        "  Value: {}\n".format(row.repr)]
    other = rows.evals[others[0]]
    comp = rows.comps[other.code_component_id]
    arrow = "  WasDerivedFrom: {} {} (A{} E{})\n".format(
        comp.first_char_line, comp.name, other.activation_id, other.id)
    for piece in pieces:
        if piece not in text:
            raise Violation("now evaluation does not show {!r}:\n{}".format(
                piece, text))
    if (arrow in text) != want[0]:
        raise Violation("now evaluation shows a derivation: {}\n{}".format(
            not want[0], text))
    del lines
    res = child.now_ok(["evaluation", "-t", trial, "--eid", "999999"], path)
    if res.out != "No evaluation found\n":
        raise Violation("now evaluation shows {!r}".format(res.out))


def run_models(case, rec):
    with child.Dir() as path:
        both = prepare(case, path, rec)
        if both is None:
            return
        num = case["wdf"][0][0]
        trials = [r.trial for r in both]
        idents = {r.trial: {
            "Evaluation": list(r.evals), "Activation": list(r.acts),
            "CodeComponent": list(r.comps), "CodeBlock": list(r.blocks)}
            for r in both}
        got = store.models(path, lambda: relations(trials, idents, num)).ok(
            "the models")
        for rows in both:
            check_relations(rows, got[rows.trial])
        if all(len(r.deps) > 5 and r.members for r in both):
            rec.nt()


RELATIONS = {
    "Evaluation": ["activation", "this_activation", "code_component",
                   "dependencies", "dependents", "members", "collections",
                   "dependencies_as_dependent", "dependencies_as_dependency",
                   "memberships_as_collection", "memberships_as_member",
                   "member_container"],
    "Activation": ["code_block", "this_evaluation", "evaluations",
                   "file_accesses", "dependent_dependencies",
                   "dependency_dependencies", "collection_membership",
                   "member_membership"],
    "CodeComponent": ["container", "this_block", "evaluations", "parents",
                      "children", "compositions_as_part",
                      "compositions_as_whole"],
    "CodeBlock": ["this_component", "components", "activations"],
}


def relations(trials, idents, num):
    from noworkflow.now.persistence import models
    from noworkflow.now.persistence.models.base import proxy_gen

    def ident(value):
        return None if value is None else (value.trial_id, value.id)
    result = {}
    for trial in trials:
        result[trial] = current = {}
        for name, attrs in RELATIONS.items():
            cls = getattr(models, name)
            ids = sorted(idents[trial][name])
            step = max(1, len(ids) // 12)
            for one in ids[num % step::step]:
                obj = cls((trial, one))
                for attr in attrs:
                    value = getattr(obj, attr)
                    if value is None or hasattr(value, "trial_id"):
                        value = ident(value)
                    else:
                        value = sorted(ident(v) for v in value)
                    current[name, one, attr] = value
    return result


def expected(rows, name, one, attr):
    evals, acts, comps = rows.evals, rows.acts, rows.comps

    def only(table, key):
        return key if key in table else None

    def rev(items, field, target="id"):
        return [r[target] for r in items
                if r[field] == one and r[target] is not None]
    if name == "Evaluation":
        row = evals[one]
        return {
            "activation": lambda: only(acts, row.activation_id),
            "this_activation": lambda: only(acts, one),
            "code_component": lambda: row.code_component_id,
            "dependencies": lambda: sorted(set(rev(
                rows.deps, "dependent_id", "dependency_id"))),
            "dependents": lambda: sorted(set(rev(
                rows.deps, "dependency_id", "dependent_id"))),
            "members": lambda: sorted(set(rev(
                rows.members, "collection_id", "member_id"))),
            "collections": lambda: sorted(set(rev(
                rows.members, "member_id", "collection_id"))),
            "dependencies_as_dependent": lambda: rev(
                rows.deps, "dependent_id"),
            "dependencies_as_dependency": lambda: rev(
                rows.deps, "dependency_id"),
            "memberships_as_collection": lambda: rev(
                rows.members, "collection_id"),
            "memberships_as_member": lambda: rev(rows.members, "member_id"),
            "member_container": lambda: row.member_container_id}[attr]()
    if name == "Activation":
        return {
            "code_block": lambda: acts[one].code_block_id,
            "this_evaluation": lambda: one,
            "evaluations": lambda: rev(evals.values(), "activation_id"),
            "file_accesses": lambda: rev(rows.accesses, "activation_id"),
            "dependent_dependencies": lambda: rev(
                rows.deps, "dependent_activation_id"),
            "dependency_dependencies": lambda: rev(
                rows.deps, "dependency_activation_id"),
            "collection_membership": lambda: rev(
                rows.members, "collection_activation_id"),
            "member_membership": lambda: rev(
                rows.members, "member_activation_id")}[attr]()
    if name == "CodeComponent":
        return {
            "container": lambda: only(rows.blocks, comps[one].container_id),
            "this_block": lambda: only(rows.blocks, one),
            "evaluations": lambda: rev(evals.values(), "code_component_id"),
            "parents": lambda: sorted(set(rev(
                rows.compositions, "part_id", "whole_id"))),
            "children": lambda: sorted(set(rev(
                rows.compositions, "whole_id", "part_id"))),
            "compositions_as_part": lambda: rev(
                rows.compositions, "part_id"),
            "compositions_as_whole": lambda: rev(
                rows.compositions, "whole_id")}[attr]()
    return {
        "this_component": lambda: one,
        "components": lambda: rev(comps.values(), "container_id"),
        "activations": lambda: rev(acts.values(), "code_block_id")}[attr]()


def check_relations(rows, got):
    for (name, one, attr), value in got.items():
        want = expected(rows, name, one, attr)
        if isinstance(want, list):
            want = sorted((rows.trial, w) for w in want)
        elif want is not None:
            want = (rows.trial, want)
        if isinstance(value, list):
            value = sorted(set(tuple(v) for v in value)) \
                if attr in ("dependencies", "dependents", "members",
                            "collections", "parents", "children") \
                else sorted(tuple(v) for v in value)
        elif value is not None:
            value = tuple(value)
        if value != want:
            raise Violation("{} {} {} is {} instead of {}".format(
                name, one, attr, value, want))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("queries", cases, run_queries, 64, 2000),
         Part("models", cases, run_models, 48, 1500)]
