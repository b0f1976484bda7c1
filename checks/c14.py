"""C14: the diff of trials shows exactly what is different."""
import functools
import re

from hypothesis import strategies as st

from vh import callprogs, child, store, synth
from vh.core import Part, Violation

PROPERTY = "C14"
RULE = (
    "rows: pairs of trials with attributes, modules, environment and file "
    "accesses from small pools; the Diff model and 'now diff' are compared to "
    "set operations on the stored rows. runs: pairs of executions of similar "
    "programs; tree edit distances are compared to other implementation, and "
    "the comparison of functions to a longest common subsequence. "
    "Non-trivial: additions, removals and replacements at the same time "
    "(rows); different trees with more than 3 nodes (runs).")
ASSUMPTIONS = [
    "modules are equal by name, version and code; file accesses by name, mode "
    "and hashes; environment attributes by name and value"]

NAMES = ["a", "b", "c", "d.e", "__main__"]
module = st.tuples(st.sampled_from(NAMES), st.sampled_from(
    [None, "1", "2"]), st.sampled_from([None, "h1", "h2"]),
    st.sampled_from(["/p/1", "/p/2"]))
attr = st.tuples(st.sampled_from(NAMES), st.sampled_from(
    ["", "1", "2", "x y", "é"]))
access = st.tuples(st.sampled_from(["f", "g", "dir/f"]), st.sampled_from(
    ["r", "w", "a+"]), st.sampled_from([None, "h1", "h2"]), st.sampled_from(
        [None, "h1", "h2"]))


def side():
    return st.fixed_dictionaries({
        "modules": st.lists(module, max_size=4, unique_by=lambda m: m[0]),
        "environment": st.lists(attr, max_size=4, unique_by=lambda m: m[0]),
        "accesses": st.lists(access, max_size=4),
        "script": st.sampled_from(["s.py", "t.py"]),
        "command": st.sampled_from(["run s.py", "run s.py 1"]),
        "status": st.sampled_from(["finished", "unfinished", "backup"]),
        "code_hash": st.sampled_from(["c1", "c2"]),
        "start": st.integers(0, 2), "finish": st.sampled_from([None, 3, 4]),
        "parent": st.booleans()})


def rows_cases():
    return st.fixed_dictionaries({
        "one": side(), "two": side(), "brief": st.booleans(),
        "hide": st.booleans()})


def write(syn, num, data):
    tid = syn.trial(
        num, script=data["script"], command=data["command"],
        status=data["status"], code_hash=data["code_hash"],
        start=synth.stamp(data["start"]), finish=data["finish"] and
        synth.stamp(data["finish"]),
        parent_id=synth.trial_id(0) if data["parent"] else None)
    block = 2
    syn.insert("evaluation", trial_id=tid, id=1, checkpoint=9.0,
               code_component_id=1, activation_id=0, repr="x")
    syn.insert("activation", trial_id=tid, id=1, name="s.py",
               start_checkpoint=0.0, code_block_id=1)
    for mid, (name, version, code, path) in enumerate(data["modules"], 1):
        if code:
            syn.block(tid, block, name, "script", code)
        syn.insert("module", trial_id=tid, id=mid, name=name, version=version,
                   path=path, code_block_id=block if code else None,
                   transformed=False, fullpath=None)
        block += 1
    for aid, (name, value) in enumerate(data["environment"], 1):
        syn.insert("environment_attr", trial_id=tid, id=aid, name=name,
                   value=value)
    for fid, (name, mode, before, after) in enumerate(data["accesses"], 1):
        syn.insert("file_access", trial_id=tid, id=fid, name=name, mode=mode,
                   buffering="default", content_hash_before=before,
                   content_hash_after=after, checkpoint=float(fid),
                   activation_id=1)
    return tid


def expected(one, two, key, replace=True):
    """Names and values of added, removed and replaced items"""
    one, two = {key(x) for x in one}, {key(x) for x in two}
    added, removed = two - one, one - two
    replaced = set()
    if replace:
        for old in sorted(removed, key=repr):
            for new in sorted(added, key=repr):
                if old[0] == new[0]:
                    replaced.add((old, new))
    added -= {n for _, n in replaced}
    removed -= {o for o, _ in replaced}
    return added, removed, replaced


KEYS = {"modules": lambda m: (m[0], m[1], m[2]),
        "environment": lambda m: (m[0], m[1]),
        "file_accesses": lambda m: tuple(m)}


def load(path, one, two):
    def go():
        from noworkflow.now.models.diff import Diff
        diff = Diff(one, two)
        get = {"modules": lambda m: (m.name, m.version, m.code_hash),
               "environment": lambda m: (m.name, m.value),
               "file_accesses": lambda m: (
                   m.name, m.mode, m.content_hash_before,
                   m.content_hash_after)}
        result = {"trial": {k: [str(x) for x in v]
                            for k, v in diff.trial.items()}}
        for name, key in get.items():
            added, removed, replaced = getattr(diff, name)
            result[name] = ([key(x) for x in added],
                            [key(x) for x in removed],
                            [(key(x), key(y)) for x, y in replaced])
        return result
    return store.models(path, go).ok("the diff")


def run_rows(case, rec):
    with child.Dir() as path:
        syn = synth.Synth(path)
        syn.trial(0, code_hash="p")
        one = write(syn, 1, case["one"])
        two = write(syn, 2, case["two"])
        syn.close()
        sizes = check_sides(path, one, two, case["one"], case["two"])
        check_sides(path, two, one, case["two"], case["one"])
        check_sides(path, one, one, case["one"], case["one"])
        argv = ["diff", one, two, "-m", "-e", "-f"] + [
            "--brief"] * case["brief"] + ["-t"] * case["hide"]
        out = child.now_ok(argv, path).out
        check_output(case, sizes, out)
        rec.label("brief" if case["brief"] else "long")
        rec.nt(all(sum(sizes[n][x] for n in sizes) for x in range(3)))


def check_sides(path, one, two, data1, data2):
    got = load(path, one, two)
    trials = {r.id: r for r in store.Store(path).trials()}
    want = set()
    for name in trials[one]:
        if name != "id" and trials[one][name] != trials[two][name]:
            want.add(name)
    if data1["code_hash"] != data2["code_hash"]:
        want.add("code_hash")

    def duration(data):
        return data["finish"] and data["finish"] - data["start"]
    if duration(data1) != duration(data2):
        want.add("duration_text")
    if set(got["trial"]) != want:
        raise Violation("the attributes {} are different, but the diff shows "
                        "{}".format(sorted(want), sorted(got["trial"])))
    for name, (old, new) in got["trial"].items():
        for value, tid, data in ((old, one, data1), (new, two, data2)):
            if name == "code_hash":
                expect = data[name]
            elif name == "duration_text":
                expect = "0:0{}:00".format(duration(data)) if duration(
                    data) else "None"
            else:
                expect = str(trials[tid][name])
            if not (value == expect or expect.startswith(value + ".0")):
                raise Violation("the diff shows {!r} for {} of a trial that "
                                "has {!r}".format(value, name, expect))
    sizes = {}
    for name, key in KEYS.items():
        field = "accesses" if name == "file_accesses" else name
        result = expected(data1[field], data2[field], key,
                          name != "file_accesses")
        for kind, values, found in zip(
                ("added", "removed", "replaced"), result, got[name]):
            if len(found) != len(values) or set(found) != values:
                raise Violation("{} {} should be {}, but they are {}".format(
                    name, kind, sorted(values, key=repr), found))
        sizes[name] = [len(x) for x in result]
    return sizes


def check_output(case, sizes, out):
    if case["brief"]:
        for title in ("modules", "environment attributes", "file access"):
            if "Brief {} diff".format(title) not in out:
                raise Violation("the diff does not show {}".format(title))
        return
    for name, title in (("modules", "modules"),
                        ("environment", "environment attributes"),
                        ("file_accesses", "file accesses")):
        for kind, size in zip(("added", "removed", "replaced"), sizes[name]):
            if "{} {} {}:".format(size, title, kind) not in out:
                raise Violation("now diff does not show that {} {} were {}:\n"
                                "{}".format(size, title, kind, out))
    match = re.search(r"file accesses added:\n(.*?)\n\S*\s*\d+ file accesses "
                      r"removed:\n(.*?)\d+ file accesses replaced", out, re.S)
    for text, size in zip(match.groups(), sizes["file_accesses"]):
        if text.count("Name: ") != size or text.count("Mode: ") != size:
            raise Violation("now diff shows {!r} for {} accesses".format(
                text, size))
        if ("Timestamp" in text) != bool(size and not case["hide"]):
            raise Violation("timestamps are shown with -t {}: {!r}".format(
                case["hide"], text))


# Executions

def runs_cases():
    return st.fixed_dictionaries({
        "prog": callprogs.call_programs(),
        "default": st.sampled_from([False] * 7 + [True]),
        "drop": st.lists(st.integers(0, 30), max_size=3),
        "kind": st.sampled_from([[], ["op"], ["all"]])})


def edit_distance(one, two):
    """Distance of ordered trees. (name, children)"""
    def size(forest):
        return sum(1 + size(c) for _, c in forest)

    @functools.lru_cache(None)
    def dist(for1, for2, top):
        if not for1 or not for2:
            return size(for1) + size(for2)
        (name1, child1), (name2, child2) = for1[-1], for2[-1]
        rename = 0 if name1 == name2 or top else 3
        return min(
            dist(for1[:-1] + child1, for2, False) + 1,
            dist(for1, for2[:-1] + child2, False) + 1,
            dist(for1[:-1], for2[:-1], False) +
            dist(child1, child2, False) + rename)
    return dist((one,), (two,), True)


def lcs_size(one, two, equals):
    table = [[0] * (len(two) + 1) for _ in range(len(one) + 1)]
    for num1, item1 in enumerate(one):
        for num2, item2 in enumerate(two):
            table[num1 + 1][num2 + 1] = max(
                table[num1][num2 + 1], table[num1 + 1][num2],
                table[num1][num2] + 1 if equals(item1, item2) else 0)
    return table[-1][-1]


def trees(path, ids):
    def go():
        from noworkflow.now.persistence.models import Trial

        def convert(node, level=0):
            return (node.name, tuple(convert(c) for c in node.children))
        result = {}
        for tid in ids:
            trial = Trial(tid)
            graph = trial.graph
            graph.use_cache = False
            result[tid] = {"Definition": convert(
                graph.definition_tree()[1]["root"]), "Activations": convert(
                    graph.no_match()[1]["root"])}
        return result
    return store.models(path, go).ok("trees of the trials")


def count(tree):
    return 1 + sum(map(count, tree[1]))


def function_info(path, ids, acts, kind):
    def go():
        import difflib
        from noworkflow.now.cmd.cmd_diff import Diff
        from noworkflow.now.models.diff import Diff as DiffModel
        cmd = Diff.__new__(Diff)
        info = cmd.get_diff_function_info(
            ids[0], ids[1], acts[0], acts[1], DiffModel(*ids).file_accesses,
            kind)
        one, two = [info["variables_function_trial{}".format(n)]
                    for n in (1, 2)]
        changed, added, removed = cmd.build_variables_lcs(
            one, two, difflib.Differ())
        for key in list(info):
            if key.startswith("file"):
                del info[key]
        return info, len(list(changed)), added, removed
    return store.models(path, go).ok("the diff of functions")


def run_runs(case, rec):
    lines = case["prog"].splitlines(True)
    other = [x for n, x in enumerate(lines) if n not in case["drop"]]
    try:
        compile("".join(other), "s.py", "exec")
    except SyntaxError:
        other = lines + ["print('other')\n"]
    with child.Dir() as path:
        engine = [] if case["default"] else ["--content-engine", "plain"]
        for text in (lines, other):
            with open(path + "/s.py", "w") as fil:
                fil.write("".join(text))
            child.now_ok(["run"] + engine + ["s.py"], path)
        sto = store.Store(path)
        one, two = [t.id for t in sto.trials()]
        shapes = trees(path, [one, two])
        worthy = False
        for ref1, ref2 in ((one, two), (two, one), (one, one)):
            out = child.now_ok(["diff", ref1, ref2, "-a", "-d"], path).out
            for name in ("Definition", "Activations"):
                tree1, tree2 = shapes[ref1][name], shapes[ref2][name]
                match = re.search("{} TED: (.*)".format(name), out)
                value = float(match.group(1))
                if ref1 == ref2 and value:
                    raise Violation("the distance of a trial to itself is {}"
                                    .format(value))
                if count(tree1) * count(tree2) > 400:
                    continue
                want = edit_distance(tree1, tree2)
                if value != want:
                    raise Violation("the {} distance should be {}, but it is "
                                    "{}".format(name, want, value))
                worthy = worthy or want and count(tree1) > 3
        check_functions(path, sto, (one, two), case["kind"])
        rec.label("kind:{}".format(case["kind"]))
        rec.nt(worthy)


def variables(sto, tid, act, kind):
    from noworkflow.now.models.prov.export import OPERATIONS
    types = None
    if kind != "all":
        types = {"name", "attribute", "access"}
        if kind == "op":
            types |= set(OPERATIONS)
    comps = {c.id: c for c in sto.rows("code_component", tid)}
    result = []
    for row in sto.rows("evaluation", tid):
        comp = comps[row.code_component_id]
        if row.activation_id == act and (types is None or comp.type in types):
            result.append({
                "evaluation_id": row.id, "name": comp.name, "value": row.repr,
                "type": comp.type, "code_line": comp.first_char_line,
                "code_column": comp.first_char_column})
    return result


def check_functions(path, sto, ids, kind):
    import difflib
    kind = kind[0] if kind else None
    acts = [[a for a in sto.rows("activation", t, order="id")
             if a.code_block_id] for t in ids]
    pairs = [(x.id, y.id) for x in acts[0][:4] for y in acts[1][:4]
             if x.name == y.name][:4]

    def equals(one, two):
        return one["name"] == two["name"] or (
            one["code_line"] == two["code_line"] and difflib.SequenceMatcher(
                None, one["name"], two["name"]).ratio() > 0.6)
    for pair in pairs:
        if len(variables(sto, ids[0], pair[0], kind)) * len(
                variables(sto, ids[1], pair[1], kind)) > 4000:
            continue
        info, changed, added, removed = function_info(path, ids, pair, kind)
        found = []
        for num, tid, act in zip("12", ids, pair):
            evals = {e.id: e for e in sto.rows("evaluation", tid)}
            if info["output_function_trial" + num] != evals[act].repr:
                raise Violation("the output of a function is {!r} instead of "
                                "{!r}".format(info["output_function_trial" +
                                                   num], evals[act].repr))
            args = [evals[d.dependency_id].repr
                    for d in sto.rows("dependency", tid)
                    if d.dependent_id == act and d.type == "argument"]
            if info["arguments_function_trial" + num] != args:
                raise Violation("the arguments of a function are {} instead of"
                                " {}".format(info["arguments_function_trial" +
                                                  num], args))
            want = variables(sto, tid, act, kind)
            got = info["variables_function_trial" + num]
            if sorted(got, key=repr) != sorted(want, key=repr):
                raise Violation("the variables of a function are {} instead "
                                "of {}".format(got[:5], want[:5]))
            found.append(got)
        one, two = found
        kept1 = [v for v in one if v not in removed]
        kept2 = [v for v in two if v not in added]
        if len(kept1) != len(kept2) or not all(map(equals, kept1, kept2)):
            raise Violation("added and removed variables do not explain the "
                            "differences: {} and {}".format(added, removed))
        if len(kept1) != lcs_size(one, two, equals):
            raise Violation("there is a longer sequence of common variables "
                            "({} instead of {})".format(lcs_size(
                                one, two, equals), len(kept1)))
        if changed != sum(v != w for v, w in zip(kept1, kept2)):
            raise Violation("{} changed variables are shown".format(changed))
        res = child.now(["diff"] + list(ids) + ["-fa"] + list(map(
            str, pair)) + ([kind] if kind else []), path)
        child.check_crash(res, "now diff -fa")
        if res.rc or "Wrong input" in res.out or (
                "The output didn't change" in res.out) != (
                    info["output_function_trial1"] ==
                    info["output_function_trial2"]):
            raise Violation("now diff -fa shows {}".format(res.out[:500]))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("rows", rows_cases, run_rows, 200, 4000),
         Part("runs", runs_cases, run_runs, 50, 1200)]
