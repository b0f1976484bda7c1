"""C16: the graphs of a trial have exactly the activations that occurred."""
from hypothesis import strategies as st

from vh import callprogs, child, store
from vh.core import Part, Violation

PROPERTY = "C16"
RULE = (
    "trial: graphs of all modes of a run of a generated program are compared "
    "to trees built with the stored rows, and to the graphs of the cache. "
    "diff: diff graphs of two runs are compared to the graphs of the trials. "
    "Non-trivial: some nodes combine activations (trial); some nodes are "
    "common and others are not (diff).")
ASSUMPTIONS = [
    "calls of resumed generators may not be in the strings of exact matches",
    "call and return edges are not repeated for combined nodes"]

MODES = ["tree", "no_match", "exact_match", "namespace_match",
         "definition_tree"]


def trial_cases():
    return st.fixed_dictionaries({
        "prog": callprogs.call_programs(max_top=4, generators=True)})


def plain(value):
    """Graph without cyclic references, that can be compared"""
    finished, graph, nodes = value
    return (finished, [(
        n["index"], n["parent_index"], n["name"],
        {k: list(v) for k, v in dict(n["activations"]).items()},
        dict(n["duration"]), [c["index"] for c in n["children"]],
        n["children_index"], list(n["trial_ids"]), n.get("node_id"))
                       for n in nodes],
            sorted((e["source"], e["target"], e["type"],
                    sorted(dict(e["count"]).items()))
                   for e in graph["edges"]),
            graph["root"]["index"], dict(graph["min_duration"]),
            dict(graph["max_duration"]), graph["trial1"], graph["trial2"])


def load(path, ids, caches, wanted=MODES):
    def go():
        from noworkflow.now.models.diff import Diff
        from noworkflow.now.persistence.models import Trial
        result = []
        for cache in caches:
            if len(ids) == 1:
                model = Trial(ids[0])
                model.graph.use_cache = cache
            else:
                model = Diff(*ids)
                model.graph.use_cache = cache
                model.trial1.graph.use_cache = cache
                model.trial2.graph.use_cache = cache
            result.append({mode: plain(getattr(model.graph, mode)())
                           for mode in wanted})
        return result
    return store.models(path, go).ok("the graphs")


class Calls(object):
    """Tree of activations of a trial"""

    def __init__(self, path, tid):
        sto = store.Store(path)
        self.evals = {e.id: e for e in sto.rows("evaluation", tid)}
        self.comps = {c.id: c for c in sto.rows("code_component", tid)}
        self.acts = sorted(sto.rows("activation", tid),
                           key=lambda a: a.start_checkpoint)
        self.by_id = {a.id: a for a in self.acts}
        self.tid = tid
        self.children = {a.id: [] for a in self.acts}
        self.roots = []
        for act in self.acts:
            caller = self.evals[act.id].activation_id
            if caller:
                self.children[caller].append(act.id)
            else:
                self.roots.append(act.id)
        self.resumed = self.nesting()

    def nesting(self):
        """Return whether calls are not properly nested"""
        order = []

        def walk(node):
            order.append(node)
            for sub in self.children[node]:
                walk(sub)
        for root in self.roots:
            walk(root)
        return order != [a.id for a in self.acts]

    def name(self, aid):
        return self.by_id[aid].name

    def line(self, aid):
        return self.comps[self.evals[aid].code_component_id].first_char_line

    def duration(self, aid):
        return int((self.evals[aid].checkpoint -
                    self.by_id[aid].start_checkpoint) * 1000000)

    def shape(self, aid):
        return (self.line(aid), self.name(aid),
                tuple(self.shape(c) for c in self.children[aid]))

    def groups(self, key):
        """Combine activations with equal keys under combined parents.

        Return map from activation to group, and parents of groups"""
        group, parent = {}, {}

        def visit(acts, gid, pid):
            for aid in acts:
                group[aid] = gid
            parent[gid] = pid
            found = {}
            for aid in acts:
                for sub in self.children[aid]:
                    found.setdefault(key(sub), []).append(sub)
            for subs in found.values():
                visit(subs, min(subs), gid)
        visit(self.roots, self.roots[0], None)
        return group, parent


def check_trial(calls, mode, value):
    """Return number of activations minus number of nodes"""
    finished, nodes, edges, root, shortest, longest, one, two = value
    tid = calls.tid
    if not finished or one != tid or two != tid:
        raise Violation("{} has trials {} {} {}".format(
            mode, finished, one, two))
    key = {"exact_match": calls.shape, "namespace_match": lambda a: (
        calls.line(a), calls.name(a))}.get(mode, lambda a: a)
    group, parent = calls.groups(key)
    if mode == "exact_match" and calls.resumed:
        found = sorted(a for n in nodes for a in n[3].get(tid, []))
        if found != sorted(group):
            raise Violation("{} shows activations {}".format(mode, found))
        return 0
    members = {}
    for aid in (a.id for a in calls.acts):
        members.setdefault(group[aid], []).append(aid)
    index, durations = {}, []
    for node in nodes:
        acts = node[3].get(tid, [])
        gid = group.get(acts[0]) if acts else None
        if gid in index or sorted(acts) != sorted(members.get(gid, [])):
            raise Violation("{} has a node with the activations {} instead of "
                            "{} ({})".format(mode, acts, members.get(gid),
                                             node[2]))
        index[gid] = node[0]
        if node[2] != calls.name(gid):
            raise Violation("{}: node {} is {}".format(mode, gid, node[2]))
        if node[4] != {tid: sum(map(calls.duration, acts))}:
            raise Violation("{}: duration {}".format(mode, node[4]))
        durations.append(node[4][tid])
        if node[7] != [tid]:
            raise Violation("{}: trials {}".format(mode, node[7]))
    if set(index) != set(members):
        raise Violation("{}: activations {} are not in the graph".format(
            mode, sorted(set(members) - set(index))))
    for node in nodes:
        gid = group[node[3][tid][0]]
        want = -1 if parent[gid] is None else index[parent[gid]]
        if node[1] != want:
            raise Violation("{}: the node of {} is inside {} instead of {}"
                            .format(mode, calls.name(gid), node[1], want))
        subs = [n[0] for n in nodes if n[1] == node[0]]
        if node[5] != subs or any(nodes[n][6] != num
                                  for num, n in enumerate(subs)):
            raise Violation("{}: children {}".format(mode, node[5]))
    if root != index[calls.roots[0]] or shortest != {
            tid: min(durations)} or longest != {tid: max(durations)}:
        raise Violation("{}: root {}, durations from {} to {}".format(
            mode, root, shortest, longest))
    check_edges(calls, mode, edges, group, index)
    return len(group) - len(members)


def check_edges(calls, mode, edges, group, index):
    found = {}
    for source, target, type_, count in edges:
        found[source, target, type_] = dict(count)[calls.tid]
    want = {}
    optional = set()
    if mode == "tree":
        for node, subs in calls.children.items():
            for num, sub in enumerate(subs):
                want[index[node], index[sub], "call"] = num
    else:
        root = index[group[calls.roots[0]]]
        want[root, root, "initial"] = 1
        for node, subs in calls.children.items():
            subs = [index[group[s]] for s in subs]
            for one, two in zip(subs, subs[1:]):
                want[one, two, "sequence"] = want.get(
                    (one, two, "sequence"), 0) + 1
            if subs:
                gid = index[group[node]]
                optional.add((gid, subs[0], "call"))
                optional.add((subs[-1], gid, "return"))
    rest = {k: v for k, v in found.items() if k not in optional}
    if rest != want:
        raise Violation("{}: edges {} instead of {}".format(mode, rest, want))
    combined = len(set(group.values())) < len(group) or calls.resumed
    for key in optional:
        if not combined and found.get(key) != 1:
            raise Violation("{}: the edge {} has count {}".format(
                mode, key, found.get(key)))
    if combined and mode != "tree":
        entered = {t for s, t, y in found if y in ("call", "sequence")}
        nodes = set(index.values()) - {index[calls.roots[0]]}
        if nodes - entered:
            raise Violation("{}: there are no edges to {}".format(
                mode, nodes - entered))


def check_definition(path, tid, value):
    """Check that the tree has components inside the ones that contain them"""
    sto = store.Store(path)
    comps = {c.id: c for c in sto.rows("code_component", tid)}
    wholes = {}
    for row in sto.rows("composition", tid):
        wholes.setdefault(row.part_id, set()).add(row.whole_id)
    finished, nodes, edges, root, _, _, _, _ = value
    ids = [n[8] for n in nodes]
    scripts = [c.id for c in comps.values() if c.type == "script"]
    if len(set(ids)) != len(ids) or nodes[root][8] not in scripts:
        raise Violation("definition_tree has {}".format(ids))
    want = {}
    for node in nodes:
        if node[1] >= 0:
            if nodes[node[1]][8] not in wholes.get(node[8], ()):
                raise Violation("definition_tree: {} is inside {}".format(
                    comps[node[8]], comps[nodes[node[1]][8]]))
            want[node[1], node[0], "call"] = node[6]
        elif node[0] != root:
            # its whole is not shown either
            if any(w in ids for w in wholes.get(node[8], ())):
                raise Violation("definition_tree: {} is outside".format(
                    comps[node[8]]))
        subs = [n[0] for n in nodes if n[1] == node[0]]
        if node[5] != subs:
            raise Violation("definition_tree: children {}".format(node[5]))
    for comp in comps.values():
        if comp.type in ("function_def", "class_def", "call", "assign", "if",
                         "for", "return") and comp.id not in ids:
            raise Violation("definition_tree does not have {}".format(comp))
    found = {e[:3]: dict(e[3])[tid] for e in edges}
    if not set(found.items()) <= set(want.items()):
        raise Violation("definition_tree: edges {} instead of {}".format(
            found, want))


def execute(path, text):
    with open(path + "/s.py", "w") as fil:
        fil.write(text)
    child.now_ok(["run", "--content-engine", "plain", "s.py"], path)


def run_trial(case, rec):
    with child.Dir() as path:
        execute(path, case["prog"])
        tid = store.Store(path).last().id
        calls = Calls(path, tid)
        states = load(path, [tid], [False, True, True])
        for state in states[1:]:
            if state != states[0]:
                raise Violation("the graph of the cache is different: {}"
                                .format([m for m in MODES
                                         if state[m] != states[0][m]]))
        for mode in MODES[:-1]:
            rec_nt = check_trial(calls, mode, states[0][mode])
            if mode == "namespace_match":
                rec.nt(rec_nt)
        check_definition(path, tid, states[0]["definition_tree"])
        rec.label("resumed" if calls.resumed else "nested")


def diff_cases():
    return st.fixed_dictionaries({
        "prog": callprogs.call_programs(),
        "drop": st.lists(st.integers(0, 30), max_size=3)})


def run_diff(case, rec):
    lines = case["prog"].splitlines(True)
    other = "".join(x for n, x in enumerate(lines) if n not in case["drop"])
    try:
        compile(other, "s.py", "exec")
    except SyntaxError:
        other = "".join(lines) + "str(v)\nabs(v)\n"
    with child.Dir() as path:
        execute(path, case["prog"])
        execute(path, other)
        ids = [t.id for t in store.Store(path).trials()]
        modes = MODES[:4]
        graphs = [load(path, [t], [False], modes)[0] for t in ids]
        worthy = 0
        for one, two in ((0, 1), (1, 0), (0, 0)):
            pair = [ids[one], ids[two]]
            diff, again = load(path, pair, [False, True], modes)
            if diff != again:
                raise Violation("the diff of the cache is different")
            for mode in modes:
                worthy += check_diff(mode, diff[mode], pair, (
                    graphs[one][mode], graphs[two][mode]))
        rec.nt(worthy)
        rec.label("diff")


def check_diff(mode, value, pair, graphs):
    """Check that the diff graph has both graphs"""
    finished, nodes, edges, root, shortest, longest, one, two = value
    maps, common = [], 0
    where = "diff {}".format(mode)
    index = {n[0]: n for n in nodes}
    if finished != (graphs[0][0] and graphs[1][0]) or (
            [one, two] != pair) or len(index) != len(nodes):
        raise Violation("{}: trials {} {}".format(where, one, two))
    for tid, graph in zip(pair, graphs):
        owner = {}
        for node in nodes:
            for aid in node[3].get(tid, []):
                if owner.setdefault(aid, node[0]) != node[0]:
                    raise Violation("{}: activation {} is in two nodes".format(
                        where, aid))
        mapping = {}
        for node in graph[1]:
            owners = {owner.get(a) for a in node[3][tid]}
            if len(owners) != 1 or None in owners:
                raise Violation("{}: the activations {} are in {}".format(
                    where, node[3], owners))
            mapping[node[0]] = owners.pop()
            new = index[mapping[node[0]]]
            if sorted(new[3][tid]) != sorted(node[3][tid]) or (
                    new[4].get(tid) != node[4][tid]) or (
                        tid not in new[7]):
                raise Violation("{}: {} is shown as {}".format(
                    where, node, new))
            if new[2] != node[2] and new[0] != root:
                raise Violation("{}: {} is shown as {}".format(
                    where, node[2], new[2]))
        if len(set(mapping.values())) != len(mapping):
            raise Violation("{}: nodes were combined".format(where))
        maps.append(mapping)
        for source, target, type_, count in graph[2]:
            found = [e for e in edges if e[:3] == (
                mapping[source], mapping[target], type_)]
            if len(found) != 1 or dict(found[0][3]).get(tid) != dict(
                    count)[tid]:
                raise Violation("{}: the edge {} is shown as {}".format(
                    where, (source, target, type_, count), found))
        if shortest[tid] != graph[4][tid] or longest[tid] != graph[5][tid]:
            raise Violation("{}: durations {} {}".format(
                where, shortest, longest))
    first, second = set(maps[0].values()), set(maps[1].values())
    if first | second | {root} != set(index):
        raise Violation("{}: unexpected nodes {}".format(
            where, set(index) - first - second))
    if pair[0] == pair[1] and first != set(index):
        raise Violation("{}: a trial is different of itself".format(where))
    originals = {}
    for tid, mapping, graph in zip(pair, maps, graphs):
        for source, target, type_, _ in graph[2]:
            originals[mapping[source], mapping[target], type_] = 1
    if {e[:3] for e in edges} != set(originals):
        raise Violation("{}: edges {}".format(where, edges))
    reached = [c for n in nodes for c in n[5]]
    if sorted(reached + [root]) != sorted(index):
        raise Violation("{}: nodes are not reached once: {}".format(
            where, reached))
    for node in nodes:
        for num, sub in enumerate(node[5]):
            if index[sub][1] != node[0] or index[sub][6] != num:
                raise Violation("{}: {} is inside {}".format(
                    where, index[sub], node))
    common = first & second
    return 1 < len(common) < len(index)


PROBES = []
REGRESSIONS = {}
PARTS = [Part("trial", trial_cases, run_trial, 120, 4000),
         Part("diff", diff_cases, run_diff, 40, 1500)]
