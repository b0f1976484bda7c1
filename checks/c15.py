"""C15: the dataflow graph shows the stored dependencies."""
import json
import subprocess

from hypothesis import strategies as st

from vh import callprogs, child, progs, store
from vh.core import Part, Violation

PROPERTY = "C15"
RULE = (
    "A case is a generated program, with calls, values of any text and file "
    "accesses, and options of 'now dataflow'. The output is parsed by "
    "Graphviz, and its nodes and edges are compared to paths in the stored "
    "rows. Non-trivial: some evaluations are hidden or combined, and at least "
    "4 edges are shown.")
ASSUMPTIONS = [
    "Graphviz decides what is valid",
    "edges from clusters to arguments are not shown (they use parameters)",
    "with combined evaluations, paths are compared instead of edges"]

TEXTS = ["'a\\\\'", "'\"'", "'\\\\\"'", "'''l1\nl2'''", "'<b>'", "'{x|y}'",
         "'é ✓'", "'\\n'", "'x' * 80", "b'\\\\'", "'->'", "'];'", "''",
         "'\\\\N'"]


@st.composite
def programs(draw):
    head = []
    for num in range(draw(st.integers(0, 2))):
        text = draw(st.sampled_from(TEXTS))
        head.append("t{} = {}\n".format(num, text))
        if draw(st.booleans()):
            head.append("d{0} = {{{1}: t{0}, 1: [2, t{0}]}}\nd{0}[{1}]\n"
                        .format(num, text))
    if draw(st.integers(0, 3)):
        mode = draw(st.sampled_from(["w", "a", "w+", "x", "r+"]))
        if mode == "r+":
            head.append("open('o.txt', 'w').close()\n")
        head.append("def up(x):\n    return save(x)\n")
        head.append("def save(x):\n    with open('o.txt', {!r}) as fil:\n"
                    "        fil.write(str(x))\n    return x\nsave(1)\n"
                    "z = open('o.txt').read()\n".format(mode))
        if mode != "x" and draw(st.booleans()):
            head.append("_p = up(z)\nopen('/etc/hostname').close()\n")
    if draw(st.integers(0, 3)):
        body = draw(callprogs.call_programs(generators=draw(st.booleans())))
    else:
        body = draw(progs.programs(low=1, high=3, depth=1))["src"]
    return "".join(head) + body


def options():
    return st.lists(st.tuples(
        st.sampled_from(["simulation", "simulation", "dependency",
                         "activation", "prospective"]),
        st.sampled_from([0, 1, 2, 3, 4, 4]), st.sampled_from([0, 0, 0, 1, 2]),
        st.sampled_from([0, 0, 1, 2, 3]),
        st.lists(st.sampled_from(["-T", "-H", "-t"]), max_size=3,
                 unique=True),
        st.integers(0, 2),
        st.sampled_from([0, 5, 6, 8, 55, 200]),
        st.sampled_from([0, 5, 9, 55, 200])).map(list),
                    min_size=3, max_size=3)


def cases():
    return st.fixed_dictionaries({"src": programs(), "options": options()})


def parse(text):
    # osage, since dot warns about ranks of valid graphs
    res = subprocess.run(["dot", "-Kosage", "-Tdot_json"],
                         input=text.encode(), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    if res.returncode or b"syntax error" in res.stderr:
        raise Violation("the dataflow is not valid: {}\n{}".format(
            res.stderr.decode(), text[:3000]))
    data = json.loads(res.stdout)
    objects = {o["_gvid"]: o for o in data.get("objects", [])}
    sub = {o["name"] for o in objects.values()
           if o["name"].startswith(("cluster", "%"))}
    nodes = {o["name"]: o for o in objects.values() if o["name"] not in sub}
    clusters = {o["name"]: [objects[n]["name"] for n in o.get("nodes", [])]
                for o in objects.values() if o["name"].startswith("cluster")}
    labels = {o["name"]: o.get("label") for o in objects.values()}
    edges = [(objects[e["tail"]]["name"], objects[e["head"]]["name"],
              e.get("label", "")) for e in data.get("edges", [])]
    return nodes, clusters, labels, edges


def unescape(label):
    return label.replace("\\\\", "\\")


def short(text, size):
    if not size or not text:
        return ""
    if len(text) > size:
        half = (size - 5) // 2
        return text[:half] + " ... " + text[len(text) - half:]
    return text


class Rows(object):
    def __init__(self, path, tid):
        sto = store.Store(path)
        self.evals = {e.id: e for e in sto.rows("evaluation", tid)}
        self.comps = {c.id: c for c in sto.rows("code_component", tid)}
        self.acts = {a.id: a for a in sto.rows("activation", tid)}
        self.accesses = {a.id: a for a in sto.rows("file_access", tid)}
        # edges as (target, is argument)
        self.out = {e: set() for e in self.evals}
        self.same, self.reference = {}, {}
        for dep in sto.rows("dependency", tid):
            self.out[dep.dependent_id].add(
                (dep.dependency_id, dep.type.startswith("argument")))
            if dep.type == "assignment":
                self.same.setdefault(dep.dependent_id, []).append(
                    dep.dependency_id)
            if dep.reference:
                self.reference.setdefault(dep.dependent_id, []).append(
                    dep.dependency_id)
        for row in sto.rows("member", tid):
            self.out[row.collection_id].add((row.member_id, False))

    def name(self, eid):
        return self.comps[self.evals[eid].code_component_id].name

    def line(self, eid):
        return self.comps[self.evals[eid].code_component_id].first_char_line


def check_nodes(rows, nodes, clusters, labels, option):
    mode, accesses, _, depth, flags, _, name_size, value_size = option
    for name, node in nodes.items():
        kind, num = name.split("_")
        label = unescape(node["label"])
        if kind == "a":
            want = {short(rows.accesses[int(num)].name, name_size)}
        else:
            eid = int(num)
            value = short(rows.evals[eid].repr, value_size)
            value = " =\n" + value if value else ""
            names = [rows.name(eid)]
            if "cluster_" + num in clusters:
                names.append("return")
            want = {"{} {}{}".format(rows.line(eid), short(n, name_size),
                                     value) for n in names}
        if label not in want:
            raise Violation("the label of {} is {!r} instead of {}".format(
                name, label, want))
        size = max(name_size, 5) + max(value_size, 5) + 15
        if len(label) > size + len(str(want)) * (not name_size):
            raise Violation("the label {!r} is too long".format(label))
    for name in clusters:
        eid = int(name.split("_")[1])
        if unescape(labels[name] or "") != rows.acts[eid].name:
            raise Violation("the cluster {} has the label {!r}".format(
                name, labels[name]))
        if "e_{}".format(eid) not in clusters[name]:
            raise Violation("{} does not have its return".format(name))
    shown = {int(n[2:]) for n in nodes if n[0] == "e"}
    for eid in shown:
        if "-H" not in flags and rows.name(eid).startswith("_"):
            raise Violation("internal {} is shown".format(rows.name(eid)))
    files = {int(n[2:]) for n in nodes if n[0] == "a"}
    if not accesses and files:
        raise Violation("accesses are shown")
    if accesses in (1, 2):
        names = [rows.accesses[f].name for f in files]
        if len(set(names)) != len(names):
            raise Violation("accesses are not combined: {}".format(names))
    if accesses and mode in ("simulation", "dependency") and not depth:
        want = {a.name for a in rows.accesses.values()
                if accesses in (2, 4) or not a.name.startswith("/")
                if a.activation_id in shown}
        names = {rows.accesses[f].name for f in files}
        if option[2] == 0 and not want <= names:
            raise Violation("the accesses {} are not shown".format(
                want - names))
        if accesses in (1, 3) and any(n.startswith("/") for n in names):
            raise Violation("external accesses are shown: {}".format(names))
    return shown, files


def must_show(rows, shown, option):
    """Evaluations that are not hidden by any option"""
    mode, _, combine, depth, flags = option[:5]
    if combine or mode not in ("simulation", "dependency"):
        return
    level = {1: 1}

    def depth_of(act):
        if act not in level:
            level[act] = depth_of(rows.evals[act].activation_id) + 1
        return level[act]
    opened = {e.activation_id for e in rows.evals.values()}
    for eid, row in rows.evals.items():
        if eid == 1 or not row.activation_id:
            continue
        if depth and depth_of(row.activation_id) > depth:
            continue
        if "-H" not in flags:
            # hidden activations hide what is inside them
            act, hidden = eid, False
            while act and act != 1:
                hidden = hidden or rows.name(act).startswith("_")
                act = rows.evals[act].activation_id
            if hidden:
                continue
        if eid not in shown:
            raise Violation("{}: evaluation {} ({} of line {}) is not shown"
                            .format(option, eid, rows.name(eid),
                                    rows.line(eid)))
    assert opened


def paths(out, source, blocked):
    """Shown targets from source, through evaluations that are not shown"""
    found, seen, stack = set(), set(), [(source, False)]
    while stack:
        node, arg = stack.pop()
        for target, is_arg in out.get(node, ()):
            state = (target, arg or is_arg)
            if state in seen:
                continue
            seen.add(state)
            if target in blocked:
                found.add(state)
            else:
                stack.append(state)
    return found


def check_edges(rows, shown, files, clusters, edges, option):
    combine = option[2]
    found = {(s, t) for s, t, _ in edges if s[0] == "e" and t[0] == "e"}
    found = {(int(s[2:]), int(t[2:])) for s, t in found}
    opened = {int(c.split("_")[1]) for c in clusters}
    if len(edges) != len({e[:2] for e in edges}):
        raise Violation("{}: edges are repeated: {}".format(option, edges))
    if not combine:
        blocked = shown | {1}
        for eid in shown:
            got = {t for s, t in found if s == eid}
            states = paths(rows.out, eid, blocked)
            want = {t for t, _ in states} - {eid, 1}
            must = want
            if eid in opened:
                must = {t for t in want if (t, True) not in states}
            if got - want:
                raise Violation("{}: {} ({}) does not depend on {}".format(
                    option, eid, rows.name(eid), sorted(got - want)))
            if must - got:
                raise Violation("{}: {} ({}) depends on {}, but it is not "
                                "shown".format(option, eid, rows.name(eid),
                                               sorted(must - got)))
        return len(shown) < len(rows.evals) - 1
    # combined evaluations
    group = {}

    def find(eid):
        while group.get(eid, eid) != eid:
            eid = group[eid]
        return eid
    for links in [rows.same] + [rows.reference] * (combine == 2):
        for eid, others in links.items():
            for other in others:
                group[find(eid)] = find(other)
    quotient = {}
    for eid, targets in rows.out.items():
        quotient.setdefault(find(eid), set()).update(
            find(t) for t, _ in targets)

    def reach(graph, start):
        seen, stack = set(), [start]
        while stack:
            for target in graph.get(stack.pop(), ()):
                if target not in seen:
                    seen.add(target)
                    stack.append(target)
        return seen
    forward = {}
    graph = {}
    for source, target in found:
        graph.setdefault(source, set()).add(target)
        key = find(source)
        if key not in forward:
            forward[key] = reach(quotient, key)
        if find(target) not in forward[key] | {key}:
            raise Violation("{}: {} ({}) does not depend on {}".format(
                option, source, rows.name(source), target))
    for eid, targets in rows.out.items():
        if eid not in shown or eid in opened:
            continue
        got = reach(graph, eid)
        for target, _ in targets:
            if target in shown and target != eid and target not in got:
                raise Violation("{}: {} ({}) depends on {}, but it is not "
                                "shown".format(option, eid, rows.name(eid),
                                               target))
    return True


def check_accesses(rows, shown, files, edges, option):
    """Check edges between activations and files"""
    mode, accesses, combine = option[:3]
    names = {}
    for num in files:
        names.setdefault(rows.accesses[num].name, set()).add(num)
    found = set()
    for source, target, _ in edges:
        if source[0] == "a" or target[0] == "a":
            act = int((target if source[0] == "a" else source)[2:])
            fil = int((source if source[0] == "a" else target)[2:])
            found.add((act, fil, "w" if source[0] == "a" else "r"))
    want = set()
    for access in rows.accesses.values():
        act = access.activation_id
        while act and act not in shown:
            act = rows.evals[act].activation_id
        if not act:
            continue
        nums = names.get(access.name, ()) if accesses in (1, 2) else (
            {access.id} & files)
        for num in nums:
            if set("r+") & set(access.mode):
                want.add((act, num, "r"))
            if set("wxa+") & set(access.mode):
                want.add((act, num, "w"))
    if combine or mode in ("activation", "prospective"):
        return
    if found != want:
        raise Violation("{}: accesses are {} instead of {}".format(
            option, sorted(found), sorted(want)))


def run(case, rec):
    with child.Dir() as path:
        with open(path + "/s.py", "w") as fil:
            fil.write(case["src"])
        child.check_crash(child.now(
            ["run", "--content-engine", "plain", "s.py"], path), "now run")
        rows = Rows(path, store.Store(path).last().id)
        if not rows.acts or len(rows.evals) > 400:
            # too long, or C01 known findings
            rec.excluded += 1
            return
        worthy = False
        for option in case["options"]:
            mode, accesses, combine, depth, flags, group, name, value = option
            out = child.now_ok(
                ["dataflow", "-m", mode, "-a", str(accesses), "-e",
                 str(combine), "-d", str(depth), "-g", str(group), "-n",
                 str(name), "--value-length", str(value)] + flags, path).out
            nodes, clusters, labels, edges = parse(out)
            shown, files = check_nodes(rows, nodes, clusters, labels, option)
            must_show(rows, shown, option)
            hides = check_edges(rows, shown, files, clusters, edges, option)
            check_accesses(rows, shown, files, edges, option)
            worthy = worthy or (hides and len(edges) > 3)
            rec.label("mode:" + mode)
        rec.nt(worthy)


PROBES = []
REGRESSIONS = {}
PARTS = [Part("graph", cases, run, 104, 3000)]
