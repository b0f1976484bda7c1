"""C24: stores survive the end of trials at any point."""
import os
import shutil

from hypothesis import strategies as st

from checks import c22
from vh import callprogs, child, progs, store
from vh.core import Part, Violation

PROPERTY = "C24"
RULE = (
    "crash: after a complete trial, a second trial is killed at a generated "
    "statement of the database or write of the content store (measured in a "
    "run without faults); the first trial cannot change, a trial that says "
    "that it finished has to be complete, commands have to work, and a third "
    "run has to store the same as the run without faults. Non-trivial: the "
    "process is killed after the trial is created. exit: a trial ends in a "
    "generated way, at a generated place; its status and rows have to "
    "correspond to what occurred. Non-trivial: it ends inside a function, "
    "class, or module, or it is killed.")
ASSUMPTIONS = [
    "processes are killed between system calls of the database, and in the "
    "middle of writes of contents; the plain content store is used",
    "what the operating system loses is out of scope"]
PLAIN = ["run", "--content-engine", "plain"]
TABLES = c22.TABLES + ["tag"]


def injector(point, kind, count=None):
    """Kill the process at the statement (or content write) number point"""
    def patch():
        c22.clock()
        os_open = os.open
        from sqlalchemy import event
        from sqlalchemy.engine import Engine
        state = {"sql": 0, "write": 0}

        def step(name):
            state[name] += 1
            if count:
                with os.fdopen(os_open(count, os.O_CREAT | os.O_WRONLY |
                                       os.O_TRUNC), "w") as fil:
                    fil.write("{sql} {write}".format(**state))
            if name == kind and state[name] == point:
                return True

        @event.listens_for(Engine, "before_cursor_execute")
        def execute(*args):
            if step("sql"):
                os._exit(77)

        @event.listens_for(Engine, "commit")
        def commit(*args):
            if step("sql"):
                os._exit(77)
        from noworkflow.now.persistence.content import safeopen
        old = safeopen.std_open

        def new_open(name, mode="r", *args, **kwargs):
            fil = old(name, mode, *args, **kwargs)
            if "w" in mode and "b" in mode and ".noworkflow" in str(name):
                write = fil.write

                class Proxy(object):
                    def __getattr__(self, attr):
                        return getattr(fil, attr)

                    def __enter__(self):
                        return self

                    def __exit__(self, *args):
                        fil.close()

                    def write(self, data):
                        if step("write"):
                            write(data[:len(data) // 2])
                            fil.flush()
                            os._exit(77)
                        return write(data)
                return Proxy()
            return fil
        safeopen.std_open = new_open
    return patch


@st.composite
def crash_programs(draw):
    head = "X = {}\n".format(draw(st.integers(0, 3)))
    if draw(st.booleans()):
        head += "import mod\n"
    if draw(st.booleans()):
        head += c22.FILES.format("w")
    return head + draw(callprogs.call_programs())


def crash_cases():
    return st.fixed_dictionaries({
        "first": crash_programs(), "second": crash_programs(),
        "same": st.booleans(), "kind": st.sampled_from(["sql", "sql", "write"]),
        "point": st.integers(0, 1000), "every": st.sampled_from([0, 0, 5, 40]),
        "new": st.sampled_from([False, False, True])})


def write(path, src):
    with open(path + "/s.py", "w") as fil:
        fil.write(src)
    with open(path + "/mod.py", "w") as fil:
        fil.write("y = [1, 'mod']\n")


def snapshot(path, trial_id):
    sto = store.Store(path)
    rows = {t: [c22.ADDRESS.sub("0x", str(sorted(r.items())))
                for r in sto.rows(t, trial_id)] for t in TABLES + ["trial"]}
    blocks = [r.code_hash for r in sto.rows("code_block", trial_id)]
    files = [r[k] for r in sto.rows("file_access", trial_id)
             for k in ("content_hash_before", "content_hash_after")]
    rows["contents"] = store.Store(path).contents(blocks + files)
    for hash_, data in rows["contents"].items():
        if not isinstance(data, bytes):
            raise Violation("the content {} of trial {} is lost: {}".format(
                hash_, trial_id, data))
    return rows


def comparable(path, trial_id, volatile=True):
    """Rows without identifiers of trials or times"""
    result, sto = {}, store.Store(path)
    for table in TABLES:
        rows = []
        for row in sto.rows(table, trial_id):
            row = {k: c22.ADDRESS.sub("0x", v.replace(path, "DIR"))
                   if isinstance(v, str) else v for k, v in row.items()}
            if table == "tag":
                row = {"type": row["type"]}
            rows.append(row)
        result[table] = sorted(c22.final(table, rows), key=str)
    return result


def commands(path, trial_id):
    for args in (["list"], ["history"], ["show", trial_id],
                 ["show", "-a", trial_id], ["show", "-m", "-d", "-e",
                                            "-f", trial_id],
                 ["dataflow", trial_id], ["export", trial_id]):
        child.now_ok(args, path)


def run_crash(case, rec):
    with child.Dir() as path:
        options = PLAIN + ["-s", str(case["every"])]
        first, main = None, path + "/main"
        os.mkdir(main)
        if not case["new"]:
            write(main, case["first"])
            child.now_ok(PLAIN + ["s.py"], main)
            first = store.Store(main).last().id
            before = snapshot(main, first)
        write(main, case["first"] if case["same"] else case["second"])
        other = path + "/other"
        shutil.copytree(main, other)
        count = path + "/count"
        child.now_ok(options + ["s.py"], other,
                     patch=injector(-1, "", count))
        want = comparable(other, store.Store(other).last().id)
        with open(count) as fil:
            total = dict(zip(["sql", "write"], map(int, fil.read().split())))
        kind = case["kind"] if total[case["kind"]] else "sql"
        point = case["point"] % total[kind] + 1
        res = child.now(options + ["s.py"], main, patch=injector(point, kind))
        if res.rc != 77:
            # the schedule of statements may change; nothing was killed
            rec.excluded += 1
            return
        what = "after a crash at {} {} of {}".format(kind, point, total[kind])
        check_crashed(main, first, want, what, rec)
        if first and snapshot(main, first) != before:
            raise Violation("the first trial changes " + what)
        res = child.now(PLAIN + ["s.py"], main, patch=c22.clock)
        if res.exc is not None or res.rc:
            raise Violation("now run fails {}: {}".format(
                what, res.tb or res.err))
        sto = store.Store(main)
        last = sto.last()
        if last.status != "finished":
            raise Violation("the status of the next trial is {} {}".format(
                last.status, what))
        got, wanted = comparable(main, last.id), dict(want)
        for table in TABLES:
            # the options and files of the trial may be different
            if table in ("argument", "environment_attr", "file_access"):
                continue
            if got[table] != wanted[table]:
                raise Violation("{} of the next trial is not the same {}: {}"
                                .format(table, what, difference(
                                    wanted[table], got[table])))
        snapshot(main, last.id)
        contents = [r.code_hash for r in sto.rows("code_block", last.id)
                    if r.code_hash]
        import hashlib
        for hash_, data in sto.contents(contents).items():
            if hashlib.sha1(data).hexdigest() != hash_:
                raise Violation("a content is incomplete " + what)


def difference(left, right):
    return [(a, b) for a, b in zip(left, right) if a != b][:1] or (
        len(left), len(right))


def check_crashed(path, first, want, what, rec):
    if not os.path.exists(path + "/.noworkflow/db.sqlite"):
        return
    try:
        trials = [t for t in store.Store(path).trials() if t.id != first]
    except Exception as exc:  # noqa: B902
        if "no such table" not in str(exc):
            raise
        return
    if len(trials) > 1:
        raise Violation("there are {} new trials {}".format(
            len(trials), what))
    for trial in trials:
        rec.nt(True)
        if trial.status == "finished":
            got = comparable(path, trial.id)
            for table in TABLES:
                if table != "tag" and got[table] != want[table]:
                    raise Violation(
                        "the trial is finished, but {} is not complete {}: {}"
                        .format(table, what, difference(want[table],
                                                        got[table])))
        elif trial.status not in ("ongoing", "running", "unfinished"):
            raise Violation("the status is {} {}".format(trial.status, what))
        try:
            commands(path, trial.id)
        except Violation as exc:
            raise Violation("{} {}".format(what, exc))


ENDS = {
    # statement: (status, rest)
    "pass": "finished",
    "sys.exit()": "finished",
    "sys.exit(0)": "finished",
    "sys.exit(None)": "finished",
    "exit()": "finished",
    "sys.exit(False)": "finished",
    "raise SystemExit": "finished",
    "sys.exit(3)": "unfinished",
    "sys.exit('message')": "unfinished",
    "raise SystemExit([1])": "unfinished",
    "raise ValueError('x')": "unfinished",
    "assert 0": "unfinished",
    "undefined_name": "unfinished",
    "raise Odd('é \\n')": "unfinished",
    "deep(0)": "unfinished",
    "1 / 0": "unfinished",
    "import bad": "unfinished",
    "import broken": "unfinished",
    "int('x' * 50)": "unfinished",
    "next(iter([]))": "unfinished",
    "os._exit(0)": "killed",
    "os.kill(os.getpid(), 9)": "killed",
}
PLACES = {
    "main": "{}",
    "function": "def end(x):\n    y = [x]\n    {}\n    return y\nend(3)",
    "nested": "def end(x):\n    def inner(z):\n        {}\n        return z\n"
              "    return inner(x + 1)\nw = [end(3)]",
    "class": "class C(object):\n    z = 1\n    {}\nC()",
    "method": "class C(object):\n    def __init__(self):\n        {}\n"
              "w = str(C())",
    "with": "class M(object):\n    def __enter__(self):\n        return 1\n"
            "    def __exit__(self, *args):\n        mark(1000)\n"
            "with M() as m:\n    {}",
    "finally": "try:\n    {}\nfinally:\n    mark(1000)",
    "loop": "for i in range(4):\n    mark(i)\n    if i == 2:\n        {}",
    "generator": "def gen():\n    yield 1\n    {}\n    yield 2\n"
                 "w = list(gen())",
    "callback": "def end(x):\n    {}\n    return x\nw = list(map(end, [1, 2]))",
    "module": "import ends",
    "file": "with open('o.txt', 'w') as fil:\n    fil.write('a')\n    {}",
}
HEAD = """\
import os, sys
class Odd(Exception):
    def __str__(self):
        raise RuntimeError('no text')
    __repr__ = __str__
def deep(n):
    return deep(n + 1)
def mark(n):
    os.write(1, ('mark %d\\n' % n).encode())
"""


def exit_cases():
    return st.fixed_dictionaries({
        "end": st.sampled_from(sorted(ENDS)),
        "place": st.sampled_from(sorted(PLACES)),
        "marks": st.integers(0, 4), "every": st.sampled_from([0, 0, 1, 7]),
        "body": st.one_of(st.just(""), callprogs.call_programs(),
                          progs.programs(low=1, high=3, depth=1).map(
                              lambda x: x["src"]))})


def run_exit(case, rec):
    end, status = case["end"], ENDS[case["end"]]
    with child.Dir() as path:
        src = HEAD + case["body"] + "\n" + "".join(
            "mark({})\n".format(i) for i in range(case["marks"]))
        place = PLACES[case["place"]]
        src += place.format(end) + "\nmark(2000)\n"
        with open(path + "/s.py", "w") as fil:
            fil.write(src)
        with open(path + "/ends.py", "w") as fil:
            fil.write("import os, sys\nfrom __main__ import *\nz = 1\n" +
                      end + "\n")
        with open(path + "/bad.py", "w") as fil:
            fil.write("x = = 1\n")
        with open(path + "/broken.py", "w") as fil:
            fil.write("def f(x):\n    return x[9]\nf([1])\n")
        plain = child.python("s.py", path)
        res = child.now(PLAIN + ["-s", str(case["every"]), "s.py"], path,
                        patch=c22.clock)
        if status != "killed":
            child.check_crash(res, "now run")
        marks = [x for x in plain.out.split("\n") if x.startswith("mark")]
        got = [x for x in res.out.split("\n") if x.startswith("mark")]
        if "print('after')" in case["body"]:
            rec.excluded += 1
            return
        if "mark 2000" not in marks and ENDS[end] == "finished" and (
                end == "pass") or plain.exc and ENDS[end] != "unfinished":
            # the generated body ends the program
            rec.excluded += 1
            return
        if "pyposast" in res.err:
            # C01 known findings
            rec.excluded += 1
            return
        if marks != got:
            raise Violation("marks are {} instead of {}".format(got, marks))
        sto = store.Store(path)
        trial = sto.last()
        what = "{} in {}".format(end, case["place"])
        if not plain.exc and status == "unfinished" and (
                "mark 2000" in marks):
            rec.excluded += 1
            return
        if status == "killed":
            if trial.status not in ("ongoing", "running", "unfinished") or trial.finish:
                raise Violation("{}: the status is {} ({})".format(
                    what, trial.status, trial.finish))
        elif trial.status != status:
            raise Violation("{}: the status is {} instead of {}".format(
                what, trial.status, status))
        elif not trial.finish:
            raise Violation("{}: the trial did not finish".format(what))
        comps = {c.id: c for c in sto.rows("code_component", trial.id)}
        evals = {e.id: e for e in sto.rows("evaluation", trial.id)}
        acts = {a.id: a for a in sto.rows("activation", trial.id)}
        if not evals and status != "killed" and "x = = 1" not in src:
            if plain.exc and "Syntax" in plain.exc or "now run" in res.err:
                rec.excluded += 1
                return
        if status != "killed":
            calls = [a for a in acts.values() if a.name == "mark"]
            if len(calls) != len(marks):
                raise Violation("{}: {} activations of {} marks".format(
                    what, len(calls), len(marks)))
            bad = [e.id for e in evals.values() if e.checkpoint is None or
                   e.checkpoint < 0]
            if bad and case["place"] not in ("generator",):
                raise Violation("{}: evaluations {} are open".format(
                    what, [(e, comps[evals[e].code_component_id].name)
                           for e in bad]))
            if not sto.rows("code_block", trial.id) or not sto.rows(
                    "environment_attr", trial.id):
                raise Violation("{}: it does not have the definitions or "
                                "the environment".format(what))
        for eid, row in evals.items():
            if row.code_component_id not in comps or (
                    row.activation_id and row.activation_id not in acts):
                raise Violation("{}: evaluation {} refers to nothing".format(
                    what, row))
        for aid in acts:
            if aid not in evals:
                raise Violation("{}: activation {} refers to nothing".format(
                    what, aid))
        for row in sto.rows("dependency", trial.id):
            if row.dependent_id not in evals or row.dependency_id not in evals:
                raise Violation("{}: a dependency refers to nothing".format(
                    what))
        commands(path, trial.id)
        with open(path + "/s.py", "w") as fil:
            fil.write("print(abs(-3))\n")
        child.now_ok(PLAIN + ["s.py"], path)
        if store.Store(path).last().status != "finished":
            raise Violation("{}: the next trial does not finish".format(what))
        rec.nt(status == "killed" or case["place"] not in (
            "main", "loop", "file", "finally", "with"))
        rec.label(status)


PROBES = []
REGRESSIONS = {}
PARTS = [
    Part("crash", crash_cases, run_crash, 64, 2000),
    Part("exit", exit_cases, run_exit, 96, 3000),
]
