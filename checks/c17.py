"""C17: the history shows every trial that matches the filters."""
import re
import sqlite3

from hypothesis import strategies as st

from vh import child, store, synth
from vh.core import Part, Violation

PROPERTY = "C17"
RULE = (
    "A case is a store with up to 9 trials of some scripts, statuses, parents, "
    "experiments and tags, and changes that happen while the process that "
    "shows the history is running. Nodes and edges of every filter are "
    "compared to a breadth-first search on the stored rows. Non-trivial: some "
    "filter hides trials, and shows an edge between others.")
ASSUMPTIONS = ["trials have distinct start times",
               "only trials with automatic tags appear in summarized graphs"]

SCRIPTS = ["a.py", "b.py", "long_name.py"]
STATUS = ["finished", "finished", "unfinished", "backup"]
TAGS = ["1.1.1", "1.1.2", "1.2.1", "1.2.2", "1.10.1", "2.1.1"]


def trials():
    one = st.fixed_dictionaries({
        "script": st.sampled_from(SCRIPTS[:2] * 2 + SCRIPTS),
        "status": st.sampled_from(STATUS),
        # distance to the parent
        "parent": st.sampled_from([None, 1, 1, 1, 1, 2, 2, 3, 99]),
        "exp": st.sampled_from([None, None, None, "e1"]),
        "tag": st.sampled_from([None] + TAGS),
        "user": st.sampled_from([[], ["final"], ["x", "y z"]])})
    return st.lists(one, max_size=9)


def cases():
    return st.fixed_dictionaries({
        "trials": st.one_of(trials(), trials().filter(
            lambda t: len(t) > 4)),
        "order": st.randoms(use_true_random=False).map(
            lambda r: r.sample(range(12), 12)),
        "later": trials().map(lambda t: t[:2]),
        "finish": st.lists(st.integers(0, 8), max_size=2),
        "filters": st.lists(st.tuples(
            st.sampled_from(["*"] + SCRIPTS[:2] * 3 + ["none.py"]),
            st.sampled_from(["*", "*", "finished", "unfinished", "backup"])),
                            min_size=2, max_size=3, unique=True)})


def tid_of(num):
    return synth.trial_id(num)


def insert(syn, num, data, start):
    parent = data["parent"]
    parent_id = None
    if parent == 99:
        parent_id = tid_of(500)
    elif parent is not None and num - parent >= 0:
        parent_id = tid_of(num - parent)
    syn.trial(num, script=data["script"], status=data["status"],
              start=synth.stamp(start), parent_id=parent_id, finish=None
              if data["status"] == "unfinished" else synth.stamp(start, 9),
              experiment_id=data["exp"])
    for type_, names in (("AUTO", [data["tag"]] if data["tag"] else []),
                         ("manual", data["user"])):
        for name in names:
            syn.insert("tag", trial_id=tid_of(num), type=type_, name=name,
                       timestamp=synth.stamp(start))


def graphs(exp, summarize, cache, filters):
    """Results of the filters"""
    from noworkflow.now.models.history import History
    result = {}
    for script, status in filters:
        history = History(script=script, status=status, expId=exp,
                          summarize=summarize)
        history.graph.use_cache = cache
        data = history.graph.history_data()
        nodes = []
        for node in data["nodes"]:
            if summarize:
                nodes.append((repr(node.id), [t.id for t in node.trials],
                              node.level))
            else:
                nodes.append((node.id, node.status, node.level))
        json = history.graph.graph()
        result[script, status] = (
            nodes, [(e["source"], e["target"]) for e in data["edges"]],
            sorted(data["scripts"]), [n["id"] for n in json["nodes"]],
            repr(history) if not summarize else "")
    return result


def search(parents, passing, start):
    """Nearest ancestors that pass"""
    level, seen = {start}, {start}
    while level:
        level = {p for n in level for p in parents.get(n, ())} - seen
        seen |= level
        found = level & passing
        if found:
            return found
    return set()


def check(path, exp, result, summarize):
    """Compare the results to the rows"""
    con = sqlite3.connect(path + "/.noworkflow/db.sqlite")
    rows = list(con.execute("select id, script, status, parent_id from trial "
                            "where experiment_id is ? order by start", (exp,)))
    scripts = sorted({r[0] for r in con.execute("select script from trial")})
    auto = list(con.execute(
        "select trial_id, name from tag where type = 'AUTO' order by id"))
    tags = list(con.execute("select trial_id, name from tag order by id"))
    con.close()
    ids = {r[0] for r in rows}
    parents = {r[0]: {r[3]} & ids for r in rows}
    worthy = False
    for (script, status), (nodes, edges, names, json, text) in result.items():
        where = "history(script={!r}, status={!r})".format(script, status)
        passing = [r for r in rows if script in ("*", r[1])
                   and status in ("*", r[2])]
        if names != scripts:
            raise Violation("{} shows scripts {}".format(where, names))
        if summarize:
            group = {}
            for trial, name in auto:
                if trial in ids:
                    group[trial] = ".".join(name.split(".")[:2])
            gparents = {}
            for trial, name in group.items():
                gparents.setdefault(name, set()).update(
                    group[p] for p in parents[trial] if p in group)
            show = {}
            for row in passing:
                if row[0] in group:
                    show.setdefault(group[row[0]], []).append(row[0])
            if {n[0]: sorted(n[1]) for n in nodes} != {
                    n: sorted(t) for n, t in show.items()}:
                raise Violation("{} groups {} instead of {}".format(
                    where, nodes, show))
            allowed, graph = set(show), gparents
        else:
            if [n[:2] for n in nodes] != [(r[0], r[2]) for r in passing]:
                raise Violation("{} shows {} instead of {}".format(
                    where, nodes, passing))
            allowed, graph = {r[0] for r in passing}, parents
        if json != [n[0] for n in nodes]:
            raise Violation("{} exports {}".format(where, json))
        found = {}
        for source, target in edges:
            if source in found:
                raise Violation("{} has two edges from a node: {}".format(
                    where, edges))
            found[source] = target
        for num, node in enumerate(nodes):
            want = search(graph, allowed - {node[0]}, node[0])
            # nodes without ancestors may have an edge to themselves
            got = nodes[found[num]][0] if found.get(num, num) != num else None
            if (got not in want) if want else got is not None:
                raise Violation("{}: the edge of {} goes to {}, but the "
                                "nearest ancestor is {}".format(
                                    where, node[0], got, want))
            worthy = worthy or len(passing) < len(rows) and bool(want)
        if not summarize:
            check_text(where, text, passing, tags)
    return worthy


LETTER = {"finished": "*", "unfinished": "f", "backup": "b"}


def check_text(where, text, passing, tags):
    lines = [x for x in text.splitlines()
             if re.search(r"[0-9a-f]{8}-0000", x)]
    found = []
    for line in lines:
        match = re.match(r"^([ |*fb/]+)  (\S+) +(\S+) *(.*)$", line)
        if not match:
            raise Violation("{} shows the line {!r}".format(where, line))
        found.append((match.group(1).replace("|", "").strip(),
                      match.group(2), match.group(3), match.group(4)))
    want = [(LETTER[r[2]], r[0], r[1], ", ".join(
        name for tid, name in tags if tid == r[0]))
        for r in reversed(passing)]
    if found != want:
        raise Violation("{} shows the trials {} instead of {}\n{}".format(
            where, found, want, text))


def run(case, rec):
    with child.Dir() as path:
        syn = synth.Synth(path)
        count = len(case["trials"])
        for num, data in enumerate(case["trials"]):
            insert(syn, num, data, case["order"][num])
        syn.close()

        filters = [("*", "*")] + [tuple(f) for f in case["filters"]]

        def go():
            states = [{(e, s, c): graphs(e, s, c, filters) for e in (None, "e1")
                       for s in (False, True) for c in (False, True)}]
            # other process changes the store
            change()
            states.append({(e, s, c): graphs(e, s, c, filters) for e in (None, "e1")
                           for s in (False, True) for c in (True, False)})
            return states

        def change():
            syn.con = sqlite3.connect(path + "/.noworkflow/db.sqlite")
            for num in case["finish"]:
                syn.con.execute("update trial set status = 'finished', finish "
                                "= ? where id = ?", ("2020-02-01 00:00:00."
                                                     "000000", tid_of(num)))
            for num, data in enumerate(case["later"]):
                insert(syn, count + num, data, case["order"][count + num])
            syn.close()
        worthy = False
        with child.Dir() as other:
            # results are verified before and after the change
            import shutil
            shutil.copytree(path + "/.noworkflow", other + "/.noworkflow")
            states = store.models(path, go).ok("the history")
            for state, where in zip(states, (other, path)):
                for (exp, summarize, _), result in state.items():
                    worthy = check(where, exp, result, summarize) or worthy
        script, status = filters[-1]
        argv = ["history"] + ["-s", script] * (script != "*") + ["-e", status]
        out = child.now_ok(argv, path).out
        text = states[1][None, False, False][
            script, status][-1]
        if out.rstrip() != text.rstrip():
            raise Violation("now history shows {!r}".format(out))
        rec.label("trials:{}".format(min(count, 4)))
        rec.nt(worthy)


PROBES = []
REGRESSIONS = {}
PARTS = [Part("graph", cases, run, 104, 3000)]
