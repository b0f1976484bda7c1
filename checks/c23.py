"""C23: modules, environment and arguments of trials are recorded."""
import os
import sys

from hypothesis import strategies as st

from vh import child, store
from vh.core import Part, Violation

PROPERTY = "C23"
RULE = (
    "modules: a case is a script with up to 7 modules in packages of its "
    "directory and of a library directory, with versions, forms of import and "
    "options; the module rows are compared to the modules that plain Python "
    "loads. Non-trivial: at least 3 modules, nested imports, and a version. "
    "arguments: a case has environment variables, options of 'now run' and "
    "arguments of the script, with any text; they are compared to the rows. "
    "Non-trivial: at least 2 variables and 2 options.")
ASSUMPTIONS = [
    "modules that fail during their import are not judged",
    "texts that UTF-8 cannot represent are stored with escapes"]

VERSIONS = [
    ("", None),
    ("__version__ = '1.2.3'", "1.2.3"),
    ("version = (1, 2, 'b')", "1.2.b"),
    ("VERSION = 'x-1'", "x-1"),
    ("__VERSION__ = (0,)", "0"),
    ("__version__ = 3\nversion = '4'", "4"),
    ("__version__ = None\n__VERSION__ = '5.é'", "5.é"),
    ("version = lambda: '6'", None),
    ("version = '7'\n__version__ = '8'", "8"),
    ("def __getattr__(name):\n    raise AttributeError(name)", None),
    ("def __getattr__(name):\n    return '9'", "9"),
    ("class Bad(tuple):\n    def __iter__(self):\n        raise KeyError"
     "\n__version__ = Bad()", None),
]
PLACES = ["in", "inpkg", "insub", "out", "outpkg", "prefix"]
FOLDER = {"in": "proj", "inpkg": "proj/pkg", "insub": "proj/pkg/sub",
          "out": "lib", "outpkg": "lib/opkg", "prefix": "proj2"}
PACKAGE = {"in": "", "inpkg": "pkg", "insub": "pkg.sub", "out": "",
           "outpkg": "opkg", "prefix": ""}


@st.composite
def module_cases(draw):
    num = draw(st.integers(1, 7))
    mods = []
    for i in range(num):
        mods.append({
            "place": draw(st.sampled_from(PLACES)),
            "version": draw(st.integers(0, len(VERSIONS) - 1)),
            "imports": draw(st.lists(
                st.tuples(st.integers(0, num - 1), st.integers(0, 7)),
                max_size=3)),
            "fails": draw(st.sampled_from([0] * 12 + [1])),
            "latin": draw(st.sampled_from([False, False, False, True])),
        })
    return {
        "mods": mods,
        "main": draw(st.lists(
            st.tuples(st.integers(0, num - 1), st.integers(0, 7)),
            min_size=1, max_size=6)),
        "versions": draw(st.lists(st.integers(0, len(VERSIONS) - 1),
                                  min_size=3, max_size=3)),
        "context": draw(st.sampled_from(["main", "package", "all"])),
        "bypass": draw(st.sampled_from([False, False, True])),
        "dir": draw(st.sampled_from([None, None, ".", "abs", "other"])),
        "cwd": draw(st.sampled_from(["proj", "."])),
        "before": draw(st.lists(st.sampled_from([False, True]),
                                max_size=2)),
    }


def full(mods, index):
    pack = PACKAGE[mods[index]["place"]]
    return (pack + "." if pack else "") + "m{}".format(index)


def import_lines(mods, current, imports):
    """Statements that import modules and call their functions"""
    lines = []
    for pos, (index, form) in enumerate(imports):
        name, short = full(mods, index), "m{}".format(index)
        pack = PACKAGE[mods[index]["place"]]
        here = None if current is None else PACKAGE[mods[current]["place"]]
        new = "x{}_{}".format("s" if current is None else current, pos)
        if form == 1 and pack:
            stmt = "from {} import {} as {}".format(pack, short, new)
        elif form == 2 and pack and here == pack:
            stmt = "from . import {} as {}".format(short, new)
        elif form == 3 and pack == "pkg" and here == "pkg.sub":
            stmt = "from .. import {} as {}".format(short, new)
        elif form == 4:
            stmt = "import importlib\n{} = importlib.import_module({!r})" \
                .format(new, name)
        elif form == 5:
            stmt = "{} = __import__({!r}, fromlist=['f'])".format(new, name)
        elif form == 6:
            stmt = ("def load{0}():\n    import {1} as y\n    return y\n"
                    "{0} = load{0}()").format(new, name)
        else:
            stmt = "import {} as {}".format(name, new)
        stmt += "\nprint({0}.f{1}({2}))".format(new, index, pos)
        lines.append("try:")
        lines.extend("    " + line for line in stmt.split("\n"))
        lines.append("except (ImportError, AttributeError, ValueError) as "
                     "error:\n    print(type(error).__name__)")
    return lines


def write(case, path):
    mods = case["mods"]
    for i, mod in enumerate(mods):
        lines = ["# -*- coding: latin-1 -*-", "w = 'é'"] if mod["latin"] \
            else ["w = 'ok'"]
        lines.append("print('loading', __name__)")
        lines.append(VERSIONS[mod["version"]][0])
        lines += ["def f{0}(x):".format(i), "    print('CALL f{}')".format(i),
                  "    return x + len(w)"]
        lines += import_lines(mods, i, [
            (j, form) for j, form in mod["imports"] if j != i])
        if mod["fails"]:
            lines.append("raise ValueError('fails')")
        name = os.path.join(path, FOLDER[mod["place"]], "m{}.py".format(i))
        with open(name, "wb") as fil:
            fil.write("\n".join(lines).encode(
                "latin-1" if mod["latin"] else "utf-8", "xmlcharrefreplace"))
    for i, name in enumerate(["proj/pkg", "proj/pkg/sub", "lib/opkg"]):
        with open(os.path.join(path, name, "__init__.py"), "w") as fil:
            fil.write(VERSIONS[case["versions"][i]][0] + "\n")
    lines = ["import sys, os",
             "here = os.path.dirname(os.path.abspath(__file__))",
             "sys.path.append(os.path.join(here, '..', 'lib'))",
             "sys.path.append(os.path.dirname(here) + '/proj2')"]
    lines += import_lines(mods, None, case["main"])
    with open(os.path.join(path, "proj/s.py"), "w") as fil:
        fil.write("\n".join(lines) + "\n")


def reference(path):
    """Return [(name, file, version)] that plain Python loads"""
    def go():
        main = child.fresh_main(path + "/proj/s.py")
        sys.argv = ["s.py"]
        sys.path[0] = path + "/proj"
        with open(path + "/proj/s.py") as fil:
            exec(compile(fil.read(), path + "/proj/s.py", "exec"),
                 main.__dict__)
        return [(name, mod.__file__) for name, mod in sys.modules.items()
                if name != "__main__" and isinstance(mod.__dict__.get("__file__"), str)
                and mod.__file__.startswith(path)]
    res = child.call(go, path + "/proj")
    if res.exc:
        raise RuntimeError("reference failed: " + res.exc + res.tb)
    return res


def version_of(case, name):
    short = name.split(".")[-1]
    if short[0] == "m":
        return VERSIONS[case["mods"][int(short[1:])]["version"]][1]
    return VERSIONS[case["versions"][
        ["pkg", "sub", "opkg"].index(short)]][1]


def previous_runs(case, path, base, cwd, argv):
    """Run other trials before; return the last that has modules"""
    with open(path + "/proj/t.py", "w") as fil:
        fil.write("import pkg\nprint('other')\n")
    found = None
    for bypass in case["before"]:
        options = [a for a in argv if a != "-b"] + ["-b"] * bypass
        res = child.now(options + [os.path.relpath(path + "/proj/t.py", cwd)],
                        cwd)
        child.check_crash(res, "now run")
        if bypass and not found:
            continue
        if res.out != "other\n":
            raise Violation("the output is {!r}".format(res.out))
        if not bypass:
            found = store.Store(base).last().id
    return found


def check_inherited(sto, case, inherited):
    trial = sto.last()
    want = inherited if case["bypass"] else None
    if trial.modules_inherited_from_trial_id != want:
        raise Violation("modules are inherited from {} instead of {}".format(
            trial.modules_inherited_from_trial_id, want))
    if case["bypass"]:
        ident = trial.id

        def modules():
            from noworkflow.now.persistence.models import Trial
            current = Trial(trial_ref=ident)
            return sorted((m.name, m.trial_id) for m in current.modules)
        got = store.models(sto.path, modules).ok('Trial.modules')
        rows = sorted((r.name, r.trial_id)
                      for r in sto.rows("module", inherited))
        if got != rows:
            raise Violation("inherited modules are {} instead of {}".format(
                got, rows))


def run_modules(case, rec):
    with child.Dir() as path:
        path = os.path.realpath(path)
        for name in ["proj", "proj/pkg", "proj/pkg/sub", "lib", "lib/opkg",
                     "proj2", "other"]:
            os.mkdir(os.path.join(path, name))
        write(case, path)
        want = reference(path)
        cwd = os.path.join(path, case["cwd"])
        script = os.path.relpath(path + "/proj/s.py", cwd)
        argv = ["run", "--content-engine", "plain", "-c", case["context"]]
        base = path + "/proj"
        if case["dir"]:
            base = {".": cwd, "abs": path + "/proj",
                    "other": path + "/other"}[case["dir"]]
            argv += ["--dir", os.path.relpath(base, cwd)
                     if case["dir"] != "abs" else base]
        if case["bypass"]:
            argv.append("-b")
        inherited = previous_runs(case, path, base, cwd, argv)
        res = child.now(argv + [script], cwd)
        child.check_crash(res, "now run")
        if case["bypass"] and not inherited:
            if res.out.startswith("[now] Not able to bypass") and \
                    "loading" not in res.out:
                rec.label("bypass", "impossible")
                return
            raise Violation("modules are bypassed without a previous trial")
        if res.out != want.out:
            raise Violation("the output changed: {!r} instead of {!r}".format(
                res.out, want.out))
        sto = store.Store(base)
        trial = sto.last().id
        if len(sto.trials()) != len(case["before"]) + 1 and \
                not any(case["before"]):
            raise Violation("{} trials".format(len(sto.trials())))
        check_inherited(sto, case, inherited)
        rows = [r for r in sto.rows("module", trial, "id")]
        mine = [r for r in rows
                if os.path.normpath(r.path).startswith(path + "/")]
        blocks = {b.id: b for b in sto.rows("code_block", trial)}
        contents = sto.contents([b.code_hash for b in blocks.values()])
        failed = {full(case["mods"], i) for i, m in enumerate(case["mods"])
                  if m["fails"]}
        got = {}
        for row in mine:
            if row.name in failed:
                continue
            if row.name in got:
                raise Violation("module {} has two rows".format(row.name))
            got[row.name] = row
        expected = {}
        for name, file in want.value:
            file = os.path.normpath(file)
            inside = (file + "/").startswith(os.path.normpath(base) + "/")
            transformed = case["context"] == "all" or (
                case["context"] == "package" and inside)
            if transformed or not case["bypass"]:
                expected[name] = (file, version_of(case, name), transformed)
        if set(got) != set(expected):
            raise Violation("modules are {} instead of {}".format(
                sorted(got), sorted(expected)))
        names = {a.name for a in sto.rows("activation", trial)}
        for name, (file, version, transformed) in expected.items():
            row = got[name]
            if (os.path.normpath(row.path), row.version,
                    bool(row.transformed)) != (file, version, transformed):
                raise Violation("module {} is {} instead of {}".format(
                    name, dict(row), (file, version, transformed)))
            block = blocks.get(int(row.code_block_id))
            with open(file, "rb") as fil:
                text = fil.read()
            if block is None or contents.get(block.code_hash) != text:
                raise Violation("the source of {} is {!r}".format(
                    name, block and contents.get(block.code_hash)))
        activations = {blocks[a.code_block_id].code_hash and a.name
                       for a in sto.rows("activation", trial)
                       if a.code_block_id in blocks}
        calls = {int(line.split()[1][1:]) for line in res.out.split("\n")
                 if line.startswith("CALL ")}
        for i in range(len(case["mods"])):
            name = full(case["mods"], i)
            if name in failed:
                continue
            want_call = i in calls and expected.get(
                name, (None, None, False))[2]
            if want_call != ("f{}".format(i) in activations):
                raise Violation("activation of f{}: {}".format(
                    i, not want_call))
        nested = any(m["imports"] for m in case["mods"])
        rec.label("context", case["context"])
        rec.label("dir", str(case["dir"]))
        rec.label("transformed", sum(e[2] for e in expected.values()) > 0)
        if len(expected) >= 3 and nested and \
                any(e[1] for e in expected.values()):
            rec.nt()


TEXT = st.one_of(
    st.sampled_from(["", "a b", "'", '"', "a=b", "=", "\n", "é", "\udcff",
                     "x\udc80y", "%s", "--", "-x", "{}", "\\", "None",
                     "😀", "\t", "$HOME", "0"]),
    st.text(st.characters(blacklist_characters="\0",
                          blacklist_categories=("Cs",)), max_size=6))


@st.composite
def argument_cases(draw):
    env = draw(st.dictionaries(
        st.sampled_from(["VH_A", "VH_B", "VH é", "vh.c", "VH_X-Y", "Z"]),
        TEXT, max_size=5))
    opts = []
    for name, values in [
            ("--name", TEXT), ("--message", TEXT),
            ("-d", st.integers(0, 50).map(str)),
            ("-s", st.sampled_from(["0", "5", "100"])),
            ("-S", st.sampled_from(["1", "7", "10000"])),
            ("-c", st.sampled_from(["main", "package", "all"])),
            ("-b", None), ("-v", None)]:
        if draw(st.sampled_from([True, False, False])):
            opts.append([name, None if values is None else draw(values)])
    return {"env": env, "opts": draw(st.permutations(opts)),
            "args": draw(st.lists(st.one_of(
                TEXT, st.sampled_from(["-v", "-b", "--name", "--", "run",
                                       "-c", "s.py", "--help", "-h"])),
                max_size=4)),
            "count": draw(st.integers(0, 2))}


DEST = {"--name": "name", "--message": "message", "-d": "depth",
        "-s": "save_frequency", "-S": "call_storage_frequency",
        "-c": "context", "-b": "bypass_modules", "-v": "verbose"}


def escape(text):
    return text.encode("utf-8", "backslashreplace").decode("utf-8")


def run_arguments(case, rec):
    with child.Dir() as path:
        path = os.path.realpath(path)
        with open(path + "/s.py", "w") as fil:
            fil.write("import sys, os\n"
                      "with open('out.txt', 'w') as f:\n"
                      "    f.write(ascii((sys.argv, sorted(os.environ."
                      "items()), os.getpid(), os.getcwd())))\n")
        argv = ["run", "--content-engine", "plain"]
        for name, value in case["opts"]:
            if value is None:
                argv.append(name)
            elif len(name) == 2:
                argv += [name, value]
            else:
                argv.append(name + "=" + value)
        argv += ["s.py"] + case["args"]
        if "-b" in argv[:argv.index("s.py")]:
            child.now_ok(["run", "--content-engine", "plain", "s.py"], path)
        child.check_crash(child.now(argv, path, env=case["env"]), "now run")
        try:
            with open(path + "/out.txt") as fil:
                real_argv, environ, pid, cwd = eval(fil.read())
        except OSError:
            raise Violation("the script did not run")
        if real_argv != ["s.py"] + case["args"]:
            raise Violation("sys.argv is {!r}".format(real_argv))
        sto = store.Store(path)
        trials = sto.trials()
        if len(trials) != 1 + (["-b", None] in case["opts"]):
            raise Violation("{} trials".format(len(trials)))
        trial = trials[-1]
        check_environ(sto.rows("environment_attr", trial.id, "id"), environ,
                      pid, cwd)
        opts = {"name": None, "message": None, "context": "main",
                "depth": None, "save_frequency": 0,
                "call_storage_frequency": 10000, "bypass_modules": False,
                "verbose": False, "dir": None, "content_engine": "plain",
                "script": path + "/s.py", "argv": ["s.py"] + case["args"]}
        for name, value in case["opts"]:
            dest = DEST[name]
            opts[dest] = True if value is None else (
                int(value) if dest in ("depth", "save_frequency",
                                       "call_storage_frequency") else value)
        args = {}
        for row in sto.rows("argument", trial.id, "id"):
            if row.name in args:
                raise Violation("argument {} is repeated".format(row.name))
            args[row.name] = row.value
        for name, value in opts.items():
            if name == "depth" and value is None:
                continue
            if args.get(name) != escape(repr(value)):
                raise Violation("argument {} is {!r} instead of {!r}".format(
                    name, args.get(name), repr(value)))
        if trial.script != escape(opts["name"] or "s.py"):
            raise Violation("the name is {!r}".format(trial.script))
        if trial.command != escape(" ".join(argv)):
            raise Violation("the command is {!r}".format(trial.command))
        if trial.path != path or trial.status != "finished":
            raise Violation("the trial is {}".format(dict(trial)))
        if len(case["env"]) >= 2 and len(case["opts"]) >= 2:
            rec.nt()


def check_environ(rows, environ, pid, cwd):
    import platform
    names = {}
    for row in rows:
        names.setdefault(row.name, []).append(row.value)
    expected = dict(environ)
    expected.update({"PWD": cwd, "PID": str(pid),
                     "PYTHON_VERSION": platform.python_version(),
                     "OS_NAME": platform.system(),
                     "OS_RELEASE": platform.uname()[2],
                     "HOSTNAME": platform.uname()[1]})
    expected.pop("USER", None)
    for name, value in expected.items():
        # the last one is the collected by noWorkflow
        got = names.get(escape(name), [])
        if escape(value) not in got:
            raise Violation("environment {!r} is {!r} instead of {!r}".format(
                name, got, value))


PROBES = []
REGRESSIONS = {}
PARTS = [
    Part("modules", module_cases, run_modules, 120, 4000),
    Part("arguments", argument_cases, run_arguments, 96, 3000),
]
