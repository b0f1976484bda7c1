"""C21: notebooks are collected, cleaned and merged."""
import json
import os
import re
import sys

from hypothesis import strategies as st

from vh import child, store
from vh.core import Part, Violation

PROPERTY = "C21"
RULE = (
    "clean: a case is a generated sequence of cells, which run in IPython "
    "with the noWorkflow kernel hooks; outputs are compared to plain IPython, "
    "and the notebook that 'now clean' writes for a cell is executed from "
    "scratch and compared to the value of the cell. Non-trivial: at least 2 "
    "cells were removed and 3 were kept. merge: a case has two notebooks with "
    "repeated cells and options; the result is compared to the definition of "
    "a merge. Non-trivial: at least 2 matches, and cells in both sides that "
    "do not match.")
ASSUMPTIONS = [
    "cells change collections by subscripts, not by methods that are not "
    "collected", "functions of cells do not change variables of other cells"]

NAMES = ["a", "b", "c", "d", "e"]
LISTS = ["u", "v", "w"]


@st.composite
def notebooks(draw):
    """Cells, with the names that they read and write"""
    known, lists, funcs, cells = set(), set(), [], []
    num = draw(st.integers(3, 11))
    for i in range(num):
        lines, reads, writes = [], set(), set()

        def atom():
            options = ["const"] + ["name"] * 2 * bool(known) + \
                ["item"] * bool(lists) + ["call"] * bool(funcs and known)
            kind = draw(st.sampled_from(options))
            if kind == "const":
                return str(draw(st.integers(0, 9)))
            if kind == "item":
                name = draw(st.sampled_from(sorted(lists)))
                reads.add(name)
                return "{}[{}]".format(name, draw(st.integers(0, 1)))
            name = draw(st.sampled_from(sorted(known)))
            reads.add(name)
            if kind == "call":
                func = draw(st.sampled_from(funcs))
                reads.add(func)
                return "{}({})".format(func, name)
            return name
        use = draw(st.sampled_from([None] * 4 + [
            "zerox", "last", "last", "old"]))
        for _ in range(draw(st.integers(1, 2)) if not use else 1):
            kind = use or draw(st.sampled_from(
                ["set", "set", "set", "expr", "list", "item", "def", "aug",
                 "if", "loop", "fail", "print", "none", "zero", "unpack",
                 "syntax", "alias", "comment", "name"]))
            if kind in ("item", "alias") and not lists or \
                    kind == "aug" and not known:
                kind = "set"
            if kind in ("set", "if", "zero"):
                value = "{} {} {}".format(
                    atom(), draw(st.sampled_from(["+", "-", "*"])), atom())
                name = draw(st.sampled_from(NAMES))
                if kind == "if":
                    value = "{} if {} else {}".format(atom(), atom(), value)
                if kind == "zero":
                    value = draw(st.sampled_from(["0", "0 * 1", "5 - 5"]))
                lines.append("{} = {}".format(name, value))
                known.add(name)
                writes.add(name)
            elif kind == "expr":
                lines.append("{} + {}".format(atom(), atom()))
            elif kind == "list":
                lines.append("{} = [{}, {}]".format(
                    draw(st.sampled_from(LISTS)), atom(), atom()))
                name = lines[-1][0]
                lists.add(name)
                writes.add(name)
            elif kind == "item":
                name = draw(st.sampled_from(sorted(lists)))
                lines.append("{}[{}] = {}".format(
                    name, draw(st.integers(0, 1)), atom()))
                reads.add(name)
                writes.add(name)
            elif kind == "alias":
                other = draw(st.sampled_from(sorted(lists)))
                name = draw(st.sampled_from(LISTS))
                lines.append("{} = {}".format(name, other))
                lists.add(name)
                reads.add(other)
                writes.add(name)
            elif kind == "def":
                name = draw(st.sampled_from(["f", "g"]))
                lines.append("def {}(x):\n    y = x + {}\n    return y".format(
                    name, draw(st.integers(0, 5))))
                funcs = sorted(set(funcs) | {name})
                writes.add(name)
            elif kind == "aug":
                name = draw(st.sampled_from(sorted(known)))
                lines.append("{} += {}".format(name, atom()))
                reads.add(name)
                writes.add(name)
            elif kind == "loop":
                name = draw(st.sampled_from(NAMES))
                lines.append("{0} = 0\nfor i{1} in [{2}, {3}]:\n"
                             "    {0} = {0} + i{1}".format(
                                 name, i, atom(), atom()))
                known.add(name)
                writes.update([name, "i{}".format(i)])
            elif kind == "unpack":
                one, two = draw(st.permutations(NAMES))[:2]
                lines.append("{}, {} = {}, {}".format(one, two, atom(),
                                                      atom()))
                known.update([one, two])
                writes.update([one, two])
            elif kind == "fail":
                lines.append("1 / 0")
                break
            elif kind == "print":
                lines.append("print({})".format(atom()))
            elif kind == "none":
                lines.append("None")
            elif kind == "zerox":
                lines.append(draw(st.sampled_from(
                    ["5 - 5", "0", "0 * 3", "[]"] + [
                        "{0} - {0}".format(atom())])))
            elif kind == "old":
                if not i:
                    lines.append("7")
                    continue
                name = draw(st.sampled_from(NAMES))
                lines.append("{} = {}".format(name, draw(st.sampled_from([
                    "_{}", "Out[{}]"])).format(draw(st.integers(1, i)))))
                known.add(name)
                writes.update([name, "_"])
            elif kind == "name":
                lines.append(atom())
            elif kind == "last":
                if not i or lines:
                    lines.append("7")
                    continue
                name = draw(st.sampled_from(NAMES))
                lines.append(draw(st.sampled_from([
                    "{} = _ + {}".format(name, atom()),
                    "_ * 2 + {}".format(atom()), "_"])))
                known.add(name)
                writes.update([name, "_"])
            elif kind == "comment":
                lines.append("# comment é")
            elif kind == "syntax":
                if not lines:
                    lines.append("x = = 1")
                    break
        if draw(st.integers(0, 2)) == 0 and lines[-1] not in ("x = = 1",
                                                               "1 / 0"):
            if known or lists:
                name = draw(st.sampled_from(sorted(known | lists)))
                reads.add(name)
                lines.append(name)
        cells.append({"src": "\n".join(lines), "names": sorted(
            reads | writes)})
    if known or lists:
        name = draw(st.sampled_from(sorted(known | lists)))
        cells.append({"src": name, "names": [name]})
    return cells


def clean_cases():
    return st.fixed_dictionaries({
        "cells": notebooks(),
        "again": st.lists(st.integers(0, 20), max_size=2),
        "target": st.sampled_from([0, 0, 1, 2, 3]),
        "options": st.lists(st.sampled_from(
            ["--header", "--add-empty", "-n", "-n"]), max_size=2,
            unique=True)})


def run_cells(path, cells, collect, counts=None):
    """Run cells in IPython; return values and errors"""
    def go():
        os.environ["IPYTHONDIR"] = os.path.join(path, ".ipy")
        sys.argv = ["kernel"]
        child.fresh_main()
        from IPython.core.interactiveshell import InteractiveShell
        from IPython.core.history import HistoryManager
        HistoryManager.enabled = False
        HistoryManager.hist_file = ":memory:"
        shell = InteractiveShell.instance()
        if collect:
            from noworkflow.now.persistence import persistence_config
            real = persistence_config.connect
            from noworkflow.kernel.shell import OverrideShell
            persistence_config.connect = lambda p: real(p)
            OverrideShell(shell)
        result = []
        for i, src in enumerate(cells):
            if counts:
                shell.execution_count = counts[i]
            ran = shell.run_cell(src, store_history=True)
            result.append((ran.execution_count, repr(ran.result),
                           type(ran.error_in_exec).__name__,
                           type(ran.error_before_exec).__name__))
        names = {k: repr(v) for k, v in sorted(shell.user_ns.items())
                 if k in NAMES + LISTS}
        outs = sorted(shell.user_ns.get("Out", {}).items())
        return result, names, repr(outs)
    return child.call(go, path)


TRACE = re.compile(r"\x1b\[[0-9;]*m")


def visible(out):
    """Output without tracebacks"""
    lines = TRACE.sub("", out).split("\n")
    return [line for line in lines if re.match(r"Out\[|\d|\[|-\d", line)]


def run_clean(case, rec):
    with child.Dir() as path:
        path = os.path.realpath(path)
        sources = [c["src"] for c in case["cells"]]
        # cells can be executed again
        sources += [sources[i % len(sources)] for i in case["again"]]
        names = [set(c["names"]) for c in case["cells"]]
        names += [names[i % len(case["cells"])] for i in case["again"]]
        os.mkdir(path + "/plain")
        os.mkdir(path + "/now")
        plain = run_cells(path + "/plain", sources, False)
        if plain.exc:
            raise RuntimeError("plain run failed: " + plain.tb)
        ran = run_cells(path + "/now", sources, True)
        value = ran.ok("the kernel")
        if value != plain.value:
            for num, pair in enumerate(zip(plain.value, value)):
                if pair[0] != pair[1]:
                    raise Violation("the kernel changes results: {} instead "
                                    "of {}".format(pair[1], pair[0]))
        if visible(ran.out) != visible(plain.out):
            raise Violation("the output is {} instead of {}".format(
                visible(ran.out), visible(plain.out)))
        check_store(path + "/now", sources, value[0])
        clean(case, path + "/now", sources, names, value[0], rec)


def check_store(path, sources, results):
    sto = store.Store(path)
    trials = sto.trials()
    if len(trials) != 1 or trials[0].status != "finished":
        raise Violation("the trials are {}".format(trials))
    trial = trials[0].id
    blocks = {b.id: b for b in sto.rows("code_block", trial)}
    contents = sto.contents([b.code_hash for b in blocks.values()])
    cells = [c for c in sto.rows("code_component", trial, "id")
             if c.type == "cell"]
    want = [(num, src) for src, (num, _, _, _) in zip(sources, results)]
    got = [(int(c.name.split("-")[2]),
            contents.get(blocks[c.id].code_hash, b"").decode()) for c in cells]
    got = [(n, text.strip()) for n, text in got]
    if got != want:
        raise Violation("cells are {} instead of {}".format(got, want))
    evals = {e.code_component_id: e
             for e in sto.rows("evaluation", trial, "id")}
    values = {num: value for num, value, error, before in results
              if error == "NoneType" and before == "NoneType"}
    for cell in cells:
        num = int(cell.name.split("-")[2])
        if num in values and evals[cell.id].repr != values[num]:
            raise Violation("the value of cell {} is {} instead of {}".format(
                num, evals[cell.id].repr, values[num]))


def clean(case, path, sources, names, results, rec):
    okay = [i for i, r in enumerate(results)
            if r[1] != "None" and r[2] == "NoneType" and r[3] == "NoneType"]
    if not okay:
        rec.excluded += 1
        return
    target = okay[-1 - case["target"] % len(okay)]
    num, value = results[target][:2]
    sto = store.Store(path)
    comp = [c for c in sto.rows("code_component", sto.last().id)
            if c.type == "cell" and c.name.split("-")[2] == str(num)][0]
    argv = ["clean", "-o", "out.ipynb"] + [
        o for o in case["options"] if o != "-n"]
    if "-n" in case["options"]:
        argv += ["-n", str(num)]
    else:
        argv += ["--cid", str(comp.id)]
    child.now_ok(argv, path)
    with open(os.path.join(path, "out.ipynb")) as fil:
        cells = json.load(fil)["cells"]
    if ("--header" in argv) != (cells[0]["cell_type"] == "markdown"):
        raise Violation("header: {}".format(cells[0]))
    cells = cells["--header" in argv:]
    if "--add-empty" in argv:
        if cells[-1]["cell_type"] != "code" or cells[-1]["source"]:
            raise Violation("the last cell is {}".format(cells[-1]))
        cells = cells[:-1]
    kept = []
    for cell in cells:
        text = "".join(cell["source"])
        count = cell["execution_count"]
        if text != sources[count - 1].strip():
            raise Violation("cell {} is {!r} instead of {!r}".format(
                count, text, sources[count - 1]))
        shown = results[count - 1]
        outputs = ["".join(o["data"]["text/plain"])
                   for o in cell["outputs"]]
        if shown[2] == "NoneType" and outputs != (
                [] if shown[1] == "None" else [shown[1]]):
            raise Violation("outputs of cell {} are {} instead of {}".format(
                count, outputs, shown[1]))
        kept.append(count - 1)
    if kept != sorted(set(kept)) or target not in kept:
        raise Violation("cells {} are not ordered or do not have {}".format(
            kept, target))
    # cells that have no common names cannot contribute
    related, before = set(names[target]), None
    while related != before:
        before = set(related)
        for group in names:
            if group & related:
                related |= group
    for index in kept:
        if "_" in related:
            break  # any cell with a value
        if index != target and not names[index] & related:
            raise Violation("cell {} is not related to {}".format(
                sources[index], sources[target]))
    os.makedirs(path + "/again")
    again = run_cells(path + "/again", [sources[i] for i in kept], False,
                      [i + 1 for i in kept])
    final = again.value[0][kept.index(target)][1]
    if final != value:
        raise Violation(
            "the clean notebook {} has the value {} instead of {} of {}"
            .format([sources[i] for i in kept], final, value, sources))
    if len(sources) - len(kept) >= 2 and len(kept) >= 3:
        rec.nt()
    rec.label("kept", len(kept))


SOURCES = ["a", "b", "c", "d", " a\n", "e"]


def merge_cases():
    cell = st.tuples(st.sampled_from(["code", "code", "code", "markdown"]),
                     st.sampled_from(SOURCES)).map(list)
    return st.fixed_dictionaries({
        "original": st.lists(cell, max_size=9),
        "history": st.lists(cell, max_size=9),
        "first": st.booleans(), "code": st.booleans(),
        "before": st.integers(0, 1), "after": st.integers(0, 1)})


def run_merge(case, rec):
    def go():
        import nbformat as nbf
        from noworkflow.now.models.cleaning.merge import merge_json

        def notebook(cells, side):
            result = nbf.v4.new_notebook()
            for i, (kind, source) in enumerate(cells):
                create = getattr(nbf.v4, "new_{}_cell".format(kind))
                new = create(source)
                new["metadata"]["from"] = [side, i]
                new["metadata"]["deep"] = {"x": [{"y": 1}], "z": {"w": []}}
                result["cells"].append(new)
            return result
        extra = [nbf.v4.new_markdown_cell("head", metadata={"from": "b"})]
        last = [nbf.v4.new_code_cell("", metadata={"from": "a"})]
        nb = merge_json(
            notebook(case["original"], "o"), notebook(case["history"], "h"),
            extra * case["before"], last * case["after"], case["first"],
            case["code"])
        nbf.validate(nb)
        return [(c["cell_type"], c["source"], c["metadata"]["from"])
                for c in nb["cells"]]
    got = go()
    if case["before"]:
        if got[:1] != [("markdown", "head", "b")]:
            raise Violation("the first cell is {}".format(got[:1]))
        got = got[1:]
    if case["after"]:
        if got[-1:] != [("code", "", "a")]:
            raise Violation("the last cell is {}".format(got[-1:]))
        got = got[:-1]
    original, history = case["original"], case["history"]
    for kind, source, (side, i) in got:
        if [kind, source] != (original if side == "o" else history)[i]:
            raise Violation("cell {} {} became {}".format(side, i, source))
    seq = [tuple(g[2]) for g in got]
    if [i for s, i in seq if s == "h"] != list(range(len(history))):
        raise Violation("cells of the history are {}".format(seq))
    kept = [i for s, i in seq if s == "o"]
    if kept != sorted(set(kept)):
        raise Violation("cells of the original are {}".format(seq))
    marks = [i for i, c in enumerate(original) if c[0] != "code"]
    if [i for i in kept if original[i][0] != "code"] != marks:
        raise Violation("markdown cells are {} instead of {}".format(
            kept, marks))
    pairs = {(i, j) for i, a in enumerate(original)
             for j, b in enumerate(history)
             if a[0] == b[0] == "code" and a[1].strip() == b[1].strip()}
    best = longest(original, history, {p: 1 for p in pairs})
    codes = sum(1 for c in original if c[0] == "code")
    want = len(marks) + (codes - best if case["code"] else 0)
    if len(kept) != want:
        raise Violation("{} cells of the original were kept instead of {}"
                        .format(len(kept), want))
    # the best alignment that explains the positions
    place = {item: k for k, item in enumerate(seq)}
    allowed = {}
    required = set()
    for one, two in zip(seq, seq[1:]):
        if case["first"] and one[0] == "h" and two[0] == "o":
            required.add(one[1])
        if not case["first"] and one[0] == "o" and two[0] == "h":
            required.add(two[1])
    for i, j in pairs:
        if ("o", i) in place:
            continue
        if all((k < i) == (place["o", k] < place["h", j]) for k in kept):
            allowed[i, j] = 1 + 1000 * (j in required)
    if longest(original, history, allowed) != best + 1000 * len(required):
        raise Violation("no longest common sequence explains {}".format(seq))
    if best >= 2 and len(history) > best and kept:
        rec.nt()


def longest(one, two, weights):
    table = [[0] * (len(two) + 1) for _ in range(len(one) + 1)]
    for i in range(len(one)):
        for j in range(len(two)):
            table[i + 1][j + 1] = max(table[i][j + 1], table[i + 1][j])
            if (i, j) in weights:
                table[i + 1][j + 1] = max(
                    table[i + 1][j + 1], table[i][j] + weights[i, j])
    return table[-1][-1]


PROBES = []
REGRESSIONS = {}
PARTS = [Part("clean", clean_cases, run_clean, 64, 2000),
         Part("merge", merge_cases, run_merge, 4000, 100000)]
