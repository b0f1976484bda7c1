"""C02: definition provenance describes the source text faithfully."""
import ast
import collections
import os
import re

from hypothesis import strategies as st

from vh import child, progs, refcomp, snippets, store
from vh.core import Part, Violation

PROPERTY = "C02"
RULE = (
    "A case is a generated program (or a sequence of language snippets) with "
    "random source decorations: comments, blank lines, docstrings, non-ASCII "
    "text, CRLF/LF line ends, coding comments and byte order marks, missing "
    "final newline, optional imported module. It is run by 'now run'; every "
    "stored code component, composition and code block is compared with an "
    "independent walk of the parsed source. Non-trivial: at least 12 "
    "components of at least 6 types and at least one function or class."
)
ASSUMPTIONS = [
    "positions of nodes are pyposast's (third-party); subtrees noWorkflow "
    "documents as not captured (del, raise, assert, await, async for/with, "
    "yield from) are single components"]

IGNORED = {"syntax"}


def decorate(src, deco):
    """Apply source decorations to a program; returns (text, bytes)."""
    lines = src.split("\n")
    out = []
    rnd = deco["where"]
    pos = 0

    def pick(num):
        nonlocal pos
        pos += 1
        return rnd[pos % len(rnd)] % num if rnd else 0

    depth_triple = 0
    for line in lines:
        quotes = line.count('"""') + line.count("'''")
        indent = line[:len(line) - len(line.lstrip())]
        inside = depth_triple % 2 == 1
        if (deco["comments"] and not inside and line.strip()
                and not pick(4) and not continued(out)):
            out.append(indent + "# " + deco["text"])
        if deco["blank"] and not inside and not pick(5) and (
                not continued(out)):
            out.append("")
        out.append(line)
        depth_triple += quotes
        if (deco["doc"] is not None and not inside
                and re.match(r"\s*(async )?(def|class) .*:$", line)
                and not quotes and not pick(2)):
            out.append(indent + "    " + deco["doc"].replace(
                "\n", "\n" + indent + "    "))
    if deco["moddoc"] is not None:
        out.insert(0, deco["moddoc"])
    text = "\n".join(out)
    if deco["uni"]:
        text += "\ncafé = 'ção' + str(1); naïve = café\nprint(naïve, 'λ')\n"
    if deco["nofinal"]:
        text = text.rstrip("\n")
    if deco["cookie"]:
        text = "# -*- coding: {} -*-\n".format(deco["cookie"]) + text
    return text


def continued(out):
    """Is the previous line possibly part of an unfinished expression?"""
    last = out[-1].rstrip() if out else ""
    if not last:
        return False
    joined = "\n".join(out)
    return (sum(joined.count(c) for c in "([{")
            != sum(joined.count(c) for c in ")]}") or last.endswith("\\"))


def encode(text, deco):
    data = text
    if deco["crlf"]:
        data = data.replace("\n", "\r\n")
    enc = deco["cookie"] or "utf-8"
    try:
        raw = data.encode(enc)
    except UnicodeEncodeError:
        return None
    if deco["bom"] and not deco["cookie"]:
        raw = b"\xef\xbb\xbf" + raw
    return raw


def decorations():
    docs = st.sampled_from([
        None, '"doc"', "'''multi\nline é\n'''", 'r"""raw \\d"""',
        '"""  spaced\n\n    more\n  """', '"con" "cat"', "b'bytes'",
        'f"not doc {1}"', "'a\\tb'"])
    return st.fixed_dictionaries({
        "comments": st.booleans(), "blank": st.booleans(),
        "text": st.sampled_from(["note", "é ü", "'quote", '"""', "(", "λ"]),
        "doc": docs, "moddoc": docs, "uni": st.booleans(),
        "nofinal": st.booleans(), "crlf": st.booleans(),
        "bom": st.sampled_from([False, False, True]),
        "cookie": st.sampled_from([None, None, None, "utf-8", "latin-1"]),
        "where": st.lists(st.integers(0, 99), min_size=1, max_size=8)})


def check_source(raw, text, path, comps, compos, blocks, contents, block_id,
                 first_type):
    """Compare one source (script or module) with its components."""
    lines = text.split("\n")
    ref = refcomp.Reference(text, path, func=True)
    items = ref.run()
    items[0].type = first_type

    # own = components whose chain of containers reaches block_id
    by_id = {c.id: c for c in comps}

    def root_of(comp):
        seen = set()
        while comp.container_id and comp.container_id in by_id and (
                comp.id not in seen):
            seen.add(comp.id)
            comp = by_id[comp.container_id]
        return comp.id
    own = [c for c in comps if root_of(c) == block_id
           and c.type not in IGNORED and c.first_char_line >= 0]

    def span(c):
        return (c.first_char_line, c.first_char_column, c.last_char_line,
                c.last_char_column)

    # 1. the recorded text is the text found there
    for c in own:
        if c.first_char_line == 0 and c.id == block_id:
            continue
        if c.type in ("script", "module", "exception", "function_def",
                      "class_def", "name", "param", "identifier"):
            continue
        try:
            here = refcomp.line_slice(lines, span(c))
        except IndexError:
            raise Violation("component {} is outside the source".format(
                dict(c)))
        if c.name.lstrip("*") != here and not c.name.endswith(here):
            raise Violation("component {!r} ({}) claims {} where the text is "
                            "{!r}".format(c.name, c.type, span(c), here))

    # 2. exactly the components of the source
    def named(c_type, name):
        # arguments carry their star / keyword in the name
        return name
    want = collections.Counter((i.type, i.mode) + i.span for i in items)
    got = collections.Counter((c.type, c.mode) + span(c) for c in own)
    if want != got:
        missing = want - got
        extra = got - want
        one = next(iter(missing or extra))
        raise Violation("components {} of the source: {}{}; line: {!r}".format(
            "are missing some" if missing else "have some not", sorted(
                missing.elements(), key=str)[:4],
            sorted(extra.elements(), key=str)[:4], lines[one[2] - 1]))
    names = collections.Counter((i.type, i.name) + i.span for i in items)
    for c in own:
        key = (c.type, c.name) + span(c)
        if names[key] <= 0 and c.type in (
                "script", "module", "function_def", "class_def", "param",
                "exception", "name", "identifier"):
            raise Violation("component {} is named {!r}; expected {}".format(
                span(c), c.name,
                [i.name for i in items if i.span == span(c)
                 and i.type == c.type]))

    # 3. blocks: name, docstring, code
    blk = {b.id: b for b in blocks}
    want_blocks = collections.Counter(
        (i.type,) + i.span + (i.doc, i.code) for i in items
        if i.code is not None)
    got_blocks = collections.Counter()
    for c in own:
        if c.id in blk:
            data = contents.get(blk[c.id].code_hash)
            if not isinstance(data, bytes):
                raise Violation("source of block {} ({}) is not in the "
                                "content store: {}".format(
                                    c.id, c.name, data))
            code = None
            if c.type in ("script", "module"):
                # files are stored as they are
                if data != raw:
                    raise Violation("the stored content of {} is {!r}, but "
                                    "the file has {!r}".format(
                                        c.name, data[:200], raw[:200]))
                code = decode(data)
            else:
                code = data.decode("utf-8")
            got_blocks[(c.type,) + span(c) + (
                blk[c.id].docstring, code)] += 1
    if want_blocks != got_blocks:
        raise Violation("blocks differ: missing {} extra {}".format(
            list((want_blocks - got_blocks).elements())[:2],
            list((got_blocks - want_blocks).elements())[:2]))

    # 4. container = innermost block
    keyed = collections.defaultdict(list)
    for i in items:
        keyed[(i.type, i.mode) + i.span].append(i)
    for c in own:
        if c.id == block_id:
            continue
        expected = {i.block.span + (i.block.type,)
                    for i in keyed[(c.type, c.mode) + span(c)]}
        cont = by_id[c.container_id]
        if span(cont) + (cont.type,) not in expected:
            raise Violation("{} {!r} at {} is contained in {} {!r}, "
                            "expected {}".format(
                                c.type, c.name, span(c), cont.type,
                                cont.name, expected))

    # 5. composition tree
    ids = {c.id for c in own}
    want_edges = collections.Counter()
    for i in items:
        if i.parent is not None:
            want_edges[((i.type,) + i.span, (i.parent.type,) + i.parent.span,
                        i.field, i.pos)] += 1
    got_edges = collections.Counter()
    wholes = collections.defaultdict(list)
    for comp in compos:
        if comp.part_id in ids:
            part = by_id[comp.part_id]
            whole = by_id.get(comp.whole_id)
            if whole is None:
                raise Violation("composition of {} in missing component {}"
                                .format(part.name, comp.whole_id))
            wholes[part.id].append(whole.id)
            got_edges[((part.type,) + span(part),
                       (whole.type,) + span(whole), comp.type,
                       comp.position)] += 1
    if want_edges != got_edges:
        raise Violation("composition differs: missing {} extra {}".format(
            sorted((want_edges - got_edges).elements(), key=str)[:3],
            sorted((got_edges - want_edges).elements(), key=str)[:3]))
    for part, parents in wholes.items():
        if len(parents) != 1:
            raise Violation("component {} is part of {}".format(
                part, parents))
    return items


def decode(raw):
    import io
    import tokenize
    enc, _ = tokenize.detect_encoding(io.BytesIO(raw).readline)
    return raw.decode(enc)


def run_case(src, deco, case, rec):
    text = decorate(src, deco)
    raw = encode(text, deco)
    if raw is None:
        rec.excluded += 1
        return
    text = decode(raw)
    try:
        compile(raw, "script.py", "exec", dont_inherit=True)
    except SyntaxError:
        rec.excluded += 1
        return
    if not progs.position_ok(text) or any(
            isinstance(n, (ast.Match, ast.TryStar, ast.TypeAlias))
            for n in ast.walk(ast.parse(text))):
        rec.excluded += 1
        return
    with child.Dir() as path:
        with open(os.path.join(path, "script.py"), "wb") as fil:
            fil.write(raw)
        if case.get("module"):
            # the program is in a module; the script only imports it
            os.rename(os.path.join(path, "script.py"),
                      os.path.join(path, "mod_a.py"))
            with open(os.path.join(path, "script.py"), "w") as fil:
                fil.write("import mod_a\nprint('imported')\n")
        res = child.now(["run", "--content-engine", "plain"] +
                        (["-c", "package"] if case.get("module")
                         else case["options"]) + ["script.py"], path)
        child.check_crash(res, "now run")
        if case.get("module") and "\nimported\n" not in "\n" + res.out:
            rec.label("module-raised")
            return      # modules are recorded when their execution ends
        sto = store.Store(path)
        trial = sto.last()
        comps = sto.rows("code_component", order="id")
        compos = sto.rows("composition", order="id")
        blocks = sto.rows("code_block", order="id")
        contents = sto.contents([b.code_hash for b in blocks])
        if trial.main_id is None:
            raise Violation("the trial has no main code block")
        if case.get("module"):
            check_source(
                b"import mod_a\nprint('imported')\n",
                "import mod_a\nprint('imported')\n", "script.py", comps,
                compos, blocks, contents, trial.main_id, "script")
            mods = [m for m in sto.rows("module", order="id")
                    if m.name == "mod_a"]
            if len(mods) != 1 or mods[0].code_block_id is None:
                raise Violation("imported module recorded as {}".format(mods))
            items = check_source(
                raw, text, "mod_a.py", comps, compos, blocks, contents,
                int(mods[0].code_block_id), "module")
            rec.label("module")
        else:
            items = check_source(
                raw, text, "script.py", comps, compos, blocks, contents,
                trial.main_id, "script")
        kinds = {i.type for i in items}
        rec.label(*kinds)
        for name in ("crlf", "bom", "cookie", "uni", "nofinal", "comments"):
            if deco[name]:
                rec.label("deco:" + name)
        rec.nt(len(items) >= 12 and len(kinds) >= 6 and bool(
            kinds & {"function_def", "class_def", "lambda_def"}))


def run_programs(case, rec):
    run_case(case["prog"]["src"], case["deco"], case, rec)


def run_snippets(case, rec):
    src = "\n".join(
        snippets.place(kind, number, snippets.SNIPPETS[index])
        for number, (index, kind) in enumerate(case["parts"])) + "\n"
    run_case(src, case["deco"], case, rec)


def options():
    return st.sampled_from([[], [], ["-d", "1"], ["-c", "all"], ["-S", "1"]])


def programs():
    return st.fixed_dictionaries({
        "prog": progs.programs(high=5), "deco": decorations(),
        "options": options(),
        "module": st.sampled_from([False, False, False, True])})


def snips():
    return st.fixed_dictionaries({
        "parts": st.lists(st.tuples(
            st.integers(0, len(snippets.SNIPPETS) - 1),
            st.sampled_from(snippets.KINDS)).map(list),
            min_size=1, max_size=2),
        "deco": decorations(), "options": options()})


PARTS = [Part("programs", programs, run_programs, 500, 8000, max_sample=3000),
         Part("snippets", snips, run_snippets, 300, 4000, max_sample=3000)]
