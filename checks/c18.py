"""C18: the PROV export describes the stored evaluations."""
import ast
import collections
import re
import urllib.parse

from hypothesis import strategies as st

from checks import c15
from vh import child, store
from vh.core import Part, Violation

PROPERTY = "C18"
RULE = (
    "A case is a generated program, with calls, collections, values and names "
    "of any text. The output of 'now prov' is parsed as PROV-N, and its "
    "entities, derivations, usages and memberships are compared to the stored "
    "rows. Non-trivial: at least 10 derivations and 3 members or values that "
    "have quotes, backslashes or line breaks.")
ASSUMPTIONS = [
    "names of entities are lines and names, as in the original design: "
    "different evaluations of a line have the same entity",
    "activities are only checked to be declared before they are used"]

TOKEN = re.compile(
    r'\s*(?:"((?:[^"\\\n]|\\.)*)"|((?:\\.|[^\s,()\[\]="\\])+)|(.))', re.S)


def tokens(line):
    pos, result = 0, []
    line = line.rstrip()
    while pos < len(line):
        match = TOKEN.match(line, pos)
        pos = match.end()
        if match.group(1) is not None:
            result.append(("str", re.sub(
                r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t"}.get(
                    m.group(1), m.group(1)), match.group(1), flags=re.S)))
        elif match.group(2) is not None:
            result.append(("name", match.group(2)))
        else:
            result.append(("op", match.group(3)))
    return result


def unescape(name):
    name = re.sub(r"\\(.)", lambda m: "%{:02X}".format(ord(m.group(1))),
                  name)
    return urllib.parse.unquote(name)


def parse_statement(line):
    """Return (kind, arguments, attributes)"""
    toks = tokens(line)

    def bad(why):
        raise Violation("invalid statement ({}): {}".format(why, line))
    if len(toks) < 3 or toks[0][0] != "name" or toks[1] != ("op", "("):
        bad("start")
    kind, pos, args, attrs = toks[0][1], 2, [], []
    while toks[pos][0] == "name":
        args.append(toks[pos][1])
        pos += 1
        if toks[pos] != ("op", ","):
            break
        pos += 1
    if toks[pos] == ("op", "["):
        pos += 1
        while toks[pos][0] == "name":
            key = toks[pos][1]
            if toks[pos + 1] != ("op", "=") or toks[pos + 2][0] != "str":
                bad("attribute " + key)
            attrs.append((key, toks[pos + 2][1]))
            pos += 3
            if toks[pos] != ("op", ","):
                break
            pos += 1
        if toks[pos] != ("op", "]"):
            bad("attributes")
        pos += 1
    if toks[pos:] != [("op", ")")]:
        bad("end")
    return kind, args, dict(attrs)


def parse(text):
    result = []
    for line in text.split("\n"):
        if not line.strip() or line.startswith("prefix "):
            continue
        try:
            result.append(parse_statement(line))
        except IndexError:
            raise Violation("incomplete statement: " + line)
    return result


def run(case, rec):
    with child.Dir() as path:
        with open(path + "/s.py", "w") as fil:
            fil.write(case["src"])
        child.check_crash(child.now(
            ["run", "--content-engine", "plain", "s.py"], path), "now run")
        rows = c15.Rows(path, store.Store(path).last().id)
        if not rows.acts or len(rows.evals) > 400:
            rec.excluded += 1
            return
        sto = store.Store(path)
        deps = sto.rows("dependency", sto.last().id, "id")
        members = sto.rows("member", sto.last().id, "id")
        out = child.now_ok(["prov"], path).out
        statements = parse(out)
        by_kind = collections.defaultdict(list)
        for statement in statements:
            by_kind[statement[0]].append(statement)
        check_entities(rows, by_kind["entity"])
        check_members(rows, members, by_kind["hadMember"])
        check_derivations(rows, deps, members, by_kind)
        odd = [m for m in rows.evals.values() if set('"\\\n') & set(m.repr)]
        rec.nt(len(by_kind["wasDerivedFrom"]) >= 10 and (
            len(by_kind["hadMember"]) >= 3 or odd))


def check_entities(rows, entities):
    want = []
    for eid in sorted(rows.evals):
        row = rows.evals[eid]
        comp = rows.comps[row.code_component_id]
        if not row.activation_id or (
                comp.type == "name" and comp.mode == "r"):
            continue
        want.append((eid, row, comp))
    if len(entities) != len(want):
        raise Violation("there are {} entities instead of {}".format(
            len(entities), len(want)))
    for (eid, row, comp), (_, args, attrs) in zip(want, entities):
        value = attrs.get("value")
        if value not in (row.repr, row.repr + "f"):
            raise Violation("the value of {} is {!r} instead of {!r}".format(
                args, value, row.repr))
        name = None
        if comp.type in ("name", "literal", "param"):
            name = "{}_{}".format(comp.first_char_line, comp.name)
        elif comp.type == "subscript":
            tree = ast.parse("(" + comp.name + ")", mode="eval").body
            name = "{}_{}@{}".format(comp.first_char_line, *[
                ast.get_source_segment("(" + comp.name + ")", x)
                for x in (tree.value, tree.slice)])
        if name is not None and unescape(args[0]) != name:
            raise Violation("the entity of {!r} is {!r}".format(
                name, args[0]))
        label = attrs.get("label")
        if (comp.type != "literal") != (label == comp.name):
            raise Violation("the label of {} is {!r} instead of {!r}".format(
                args, label, comp.name))


def checkpoints(rows, members):
    points = sorted({a.start_checkpoint for a in rows.acts.values()} |
                    {e.checkpoint for e in rows.evals.values()} |
                    {m.checkpoint for m in members})
    return {point: str(i + 1) for i, point in enumerate(points)}


def check_members(rows, members, statements):
    orders = checkpoints(rows, members)
    want = [(m.key[1:-1], orders[m.checkpoint]) for m in members
            if m.collection_activation_id and m.member_activation_id]
    got = [(s[2].get("version:key"), s[2].get("version:checkpoint"))
           for s in statements]
    if want != got:
        raise Violation("members are {} instead of {}".format(got, want))


def check_derivations(rows, deps, members, by_kind):
    orders = checkpoints(rows, members)
    want, used = [], []
    for dep in deps:
        comp = rows.comps[rows.evals[dep.dependent_id].code_component_id]
        if dep.type in ("assignment", "item", "dependency", "value",
                        "slice"):
            continue
        if dep.type == "argument" and comp.type != "param":
            used.append(orders[rows.evals[dep.dependency_id].checkpoint])
            continue
        want.append((orders[rows.evals[dep.dependent_id].checkpoint],
                     bool(dep.reference)))
    got = [(s[2].get("version:checkpoint"),
            s[2].get("type") == "version:Reference")
           for s in by_kind["wasDerivedFrom"]]
    if got != want:
        raise Violation("derivations are {} instead of {}".format(got, want))
    for statement in by_kind["wasDerivedFrom"]:
        if len(statement[1]) != 5:
            raise Violation("invalid derivation: {}".format(statement))
    got = collections.Counter(s[2].get("version:checkpoint")
                              for s in by_kind["used"])
    if collections.Counter(used) - got:
        raise Violation("arguments are not used: {}".format(
            collections.Counter(used) - got))
    declared = {s[1][0] for s in by_kind["activity"]}
    for statement in by_kind["wasGeneratedBy"]:
        if statement[1][1] not in declared:
            raise Violation("activity {} is not declared".format(
                statement[1][1]))
    # read names are aliases, that are not entities
    entities = {s[1][0] for s in by_kind["entity"]}
    names = {"{}_{}".format(c.first_char_line, c.name)
             for c in rows.comps.values() if c.type == "name"}
    for kind, pos in (("wasDerivedFrom", 0), ("wasGeneratedBy", 0)):
        for statement in by_kind[kind]:
            name = statement[1][pos]
            if name not in entities and unescape(name) not in names:
                raise Violation("{} of the unknown entity {}".format(
                    kind, name))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("prov", lambda: st.fixed_dictionaries(
    {"src": c15.programs()}), run, 96, 3000)]
