"""C01: running under capture does not change what a script does."""
import os
import re

from hypothesis import strategies as st

from vh import child, progs, snippets
from vh.core import Part, Probe, Violation

PROPERTY = "C01"
RULE = (
    "A case is a generated program plus capture options; it is run once by "
    "plain Python and once by 'now run' in fresh directories and the "
    "standard output, the uncaught exception or exit status, and the files "
    "left behind are compared. Non-trivial: the program printed something "
    "and uses at least two of: function call, loop, branch, comprehension, "
    "class, exception handling, with, generator, closure, unpacking."
)
ASSUMPTIONS = ["CPython run of the same source is the reference"]

STRUCT = {"funcdef", "for", "while", "if", "listcomp", "dictcomp", "class",
          "try", "with", "generator", "closure", "starred-assign",
          "tuple-assign", "recursion", "decorator", "lambda", "sum-gen"}


def snapshot(path):
    files = {}
    for root, dirs, names in os.walk(path):
        if ".noworkflow" in dirs:
            dirs.remove(".noworkflow")
        for name in names:
            full = os.path.join(root, name)
            with open(full, "rb") as fil:
                files[os.path.relpath(full, path)] = fil.read()
    return files


def split_message(out):
    """Separate the script's output from the final '[now] ...' report."""
    pos = out.rfind("\n[now] ")
    if out.startswith("[now] ") and pos < 0:
        return "", out
    if pos < 0:
        return out, ""
    return out[:pos + 1], out[pos + 1:]


def expected_end(res):
    """How plain Python ended: (kind, text)."""
    if res.exc is not None:
        return "exception", res.exc
    return "exit", res.rc


def script_lines(tb, script):
    return [int(n) for n in re.findall(
        r'File "[^"]*{}", line (\d+)'.format(re.escape(script)), tb)]


def compare(src, options, rec, args=(), files=None):
    with child.Dir() as top:
        one, two = os.path.join(top, "one"), os.path.join(top, "two")
        for path in (one, two):
            os.makedirs(path)
            with open(os.path.join(path, "script.py"), "w",
                      encoding="utf-8", newline="") as fil:
                fil.write(src)
            for name, text in (files or {}).items():
                full = os.path.join(path, name)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w", encoding="utf-8") as fil:
                    fil.write(text)
        plain = child.python("script.py", one, args)
        if plain.timeout:
            return None
        now = child.now(
            ["run", "--content-engine", "plain"] + options
            + ["script.py"] + list(args), two)
        child.check_crash(now, "now run")
        out = now.out
        kind, end = expected_end(plain)
        text, message = split_message(out)
        if kind == "exit" and not message:
            text = out
        if text != plain.out and out != plain.out:
            raise Violation("output differs\n--- python:\n{}\n--- now run:\n"
                            "{}\n{}".format(plain.out[-1500:], out[-2500:],
                                            now.err[-800:]))
        if kind == "exception":
            if "uncaught exception" not in message:
                raise Violation("python ended with {} but the run reported "
                                "{!r}".format(end, message[-800:]))
            name, _, detail = end.partition(": ")
            last = [ln for ln in message.rstrip().split("\n") if ln][-1]
            shown = message[len("[now] "):].split("\n")[0]
            if not shown.startswith(name.split(".")[-1] + "("):
                raise Violation("python raised {} but the run reported {!r}"
                                .format(end, shown))
            if detail and detail.split("\n")[0] not in message:
                raise Violation("python raised {} but the run reported {!r}"
                                .format(end, last))
            want = script_lines(plain.tb, "script.py")
            got = script_lines(message, "script.py")
            if want and got and want[-1] not in got:
                raise Violation("exception raised at line {} is reported at "
                                "lines {}".format(want[-1], got))
        elif "uncaught exception" in message:
            raise Violation("python finished normally, the run did not:\n{}"
                            .format(message[-2500:]))
        else:
            if end and "Exit status: {}".format(end) not in message and (
                    "Exit status" not in message):
                raise Violation("exit status {} not reported: {!r}".format(
                    end, message))
        if snapshot(one) != snapshot(two):
            raise Violation("files differ: {} / {}".format(
                sorted(snapshot(one)), sorted(snapshot(two))))
        return plain


def options():
    return st.one_of(
        st.just([]), st.just([]),
        st.tuples(st.just("-d"), st.integers(0, 4).map(str)).map(list),
        st.tuples(st.just("-c"), st.sampled_from(["package", "all"])
                  ).map(list),
        st.tuples(st.just("-s"), st.integers(1, 3).map(str)).map(list),
        st.tuples(st.just("-S"), st.integers(1, 4).map(str)).map(list),
    )


UNSUPPORTED = ()


def run_wide(case, rec):
    used = set(case["prog"]["used"])
    if not progs.position_ok(case["prog"]["src"]):
        rec.excluded += 1
        return
    plain = compare(case["prog"]["src"], case["options"], rec)
    if plain is None:
        return
    rec.label(*sorted(used))
    rec.label("opt:" + " ".join(case["options"][:1]))
    rec.nt(bool(plain.out) and len(used & STRUCT) >= 2)


def wide():
    return st.fixed_dictionaries({
        "prog": progs.programs(without=UNSUPPORTED),
        "options": options()})


def run_snippets(case, rec):
    src = "\n".join(
        snippets.place(kind, number, snippets.SNIPPETS[index])
        for number, (index, kind) in enumerate(case["parts"])) + "\n"
    if not progs.position_ok(src):
        rec.excluded += 1
        return
    plain = compare(src, case["options"], rec, case["args"])
    if plain is None:
        return
    rec.label(*["snippet{}".format(i) for i, _ in case["parts"]])
    rec.label(*["in:" + kind for _, kind in case["parts"]])
    rec.nt(bool(plain.out))


def snips():
    return st.fixed_dictionaries({
        "parts": st.lists(st.tuples(
            st.integers(0, len(snippets.SNIPPETS) - 1),
            st.sampled_from(snippets.KINDS)).map(list),
            min_size=1, max_size=4),
        "options": options(),
        "args": st.lists(st.sampled_from(["a", "--b", "é", "1 2", ""]),
                         max_size=2)})


PARTS = [Part("programs", wide, run_wide, 800, 12000, max_sample=3000),
         Part("snippets", snips, run_snippets, 500, 6000, max_sample=3000)]


def probe(key, src):
    def run(_, rec):
        compare(src, [], rec)
    return Probe(key, run)


PROBES = [
    probe("walrus-in-genexp",
          "def g():\n    print(any((h := e) > 1 for e in [1, 2]), h)\n"
          "g()\n"),
    probe("frame-builtins", "exec('zz = 3')\nprint(zz, eval('zz + 1'))\n"),
    probe("class-comprehension",
          "class A:\n    y = [i for i in range(3)]\nprint(A.y)\n"),
    probe("async-comprehension",
          "import asyncio\nasync def ag():\n    yield 1\n"
          "async def b():\n    print([i async for i in ag()])\n"
          "asyncio.run(b())\n"),
    probe("generic-class-bases",
          "class B[T]:\n    pass\nclass C[T](B[T]):\n    pass\n"
          "print(C.__name__)\n"),
]
