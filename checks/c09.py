"""C09: now restore brings back the files of a trial."""
import os
import re
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vh import child, store
from vh.core import Part, Probe, Violation

PROPERTY = "C09"
RULE = (
    "history: a project (2 scripts, local modules, a package, data files in "
    "text and binary) evolves by edits, removals, runs, and restores; a model "
    "predicts the bytes of every file after each operation, which trials are "
    "backups, and the heads. Non-trivial: at least 2 runs and 1 restore that "
    "changes files.")
ASSUMPTIONS = [
    "scripts run in the directory that has them and the provenance store",
    "trials that bypass modules (-b) have the modules of the previous trial"]

SCRIPTS = ["s1.py", "sé2.py"]
MODULES = ["m1.py", "m2.py", "pkg/__init__.py", "pkg/m3.py"]
DATA = ["a.txt", "xa.txt", "b.bin", "é f.txt", "out/c.txt"]
NAMES = {"m1": "m1.py", "m2": "m2.py", "pkg.m3": "pkg/m3.py"}
CONTENTS = [b"", b"x", b"line\n", b"crlf\r\nline\r\n", bytes(range(256)),
            "é✓\n".encode("utf-8"), b"\xef\xbb\xbfbom", b"long" * 500]
HEAD = """\
import os, sys
def rd(n):
    try:
        with open(n, 'rb') as f:
            return f.read()
    except OSError:
        return None
def wr(n, d, m='wb'):
    try:
        with open(n, m) as f:
            f.write(d)
    except OSError:
        return None
def imp(n):
    try:
        __import__(n)
    except ImportError:
        pass
"""
ENCODINGS = ["lf", "crlf", "latin", "bom", "cr", "nonl"]


def encode(text, kind):
    """Encode the text of a source in different ways"""
    if kind == "latin":
        return ("# -*- coding: latin-1 -*-\n# é\n" + text).encode("latin-1")
    if kind == "crlf":
        return text.replace("\n", "\r\n").encode("utf-8")
    if kind == "bom":
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    if kind == "cr":
        return text.replace("\n", "\r\n", 3).encode("utf-8")
    if kind == "nonl":
        return text.encode("utf-8").rstrip(b"\n")
    return text.encode("utf-8")


def actions():
    return st.one_of(
        st.tuples(st.just("rd"), st.sampled_from(DATA + SCRIPTS + MODULES)),
        st.tuples(st.just("wr"), st.sampled_from(DATA),
                  st.integers(0, len(CONTENTS) - 1)),
        st.tuples(st.just("ap"), st.sampled_from(DATA),
                  st.integers(0, len(CONTENTS) - 1)),
        st.tuples(st.just("rm"), st.sampled_from(DATA)),
        st.tuples(st.just("imp"), st.sampled_from(sorted(NAMES))),
    ).map(list)


def versions():
    """Versions of scripts and modules"""
    script = st.fixed_dictionaries({
        "acts": st.lists(actions(), min_size=1, max_size=6),
        "enc": st.sampled_from(ENCODINGS), "form": st.integers(0, 2),
        "raises": st.sampled_from([False, False, False, True])})
    module = st.fixed_dictionaries({
        "imports": st.lists(st.sampled_from(sorted(NAMES)), max_size=2),
        "enc": st.sampled_from(ENCODINGS)})
    return st.fixed_dictionaries(dict(
        [(s, st.lists(script, min_size=2, max_size=3)) for s in SCRIPTS] +
        [(m, st.lists(module, min_size=2, max_size=3)) for m in MODULES]))


def flags():
    return st.lists(st.sampled_from(["-s", "-l", "-a"]), max_size=1).flatmap(
        lambda f: st.sampled_from([[], [], f]))


def ops():
    small = st.integers(0, 7)
    return st.one_of(
        st.tuples(st.just("run"), st.integers(0, 1),
                  st.sampled_from([None, None, None, "exp", "m1.py"]),
                  st.sampled_from([False, False, False, True])),
        st.tuples(st.just("run"), st.just(0), st.none(), st.just(False)),
        st.tuples(st.just("edit"), st.sampled_from(
            DATA + DATA + SCRIPTS + MODULES), small),
        st.tuples(st.just("del"), st.sampled_from(DATA + MODULES + SCRIPTS)),
        st.tuples(st.just("outfile"), st.booleans()),
        st.tuples(st.just("restore"), small, st.integers(0, 3), flags(),
                  st.booleans()),
        st.tuples(st.just("restore"), small, st.integers(0, 3), st.just([]),
                  st.booleans()),
        st.tuples(st.just("file"), small, st.integers(0, 3), st.sampled_from(
            DATA + SCRIPTS + MODULES), st.integers(0, 9), st.integers(0, 3)),
    ).map(list)


def histories():
    return st.fixed_dictionaries({
        "versions": versions(),
        "data": st.lists(st.tuples(
            st.sampled_from(DATA), st.integers(0, len(CONTENTS) - 1)).map(
                list), max_size=5),
        "ops": st.tuples(
            st.lists(ops(), max_size=8), st.lists(ops(), max_size=6)).map(
                lambda x: [["run", 0, None, False]] + x[0] +
                [["run", 0, None, False]] + x[1]),
        "engine": st.sampled_from([None, None, "plain", "puregit"])})


class Run(object):
    """What a trial had"""

    def __init__(self, name, script, code, parent):
        self.id = None
        self.name = name
        self.script = script      # path
        self.code = code
        self.parent = parent
        self.modules = {}         # path -> bytes
        self.inherited = None
        self.accesses = []        # (name, path, before, after)
        self.backup = False

    def all_modules(self):
        if self.inherited:
            return self.inherited.all_modules()
        return self.modules

    def versioned(self, skip):
        files = {}
        if "-s" not in skip:
            files[self.script] = ["script", self.code]
        if "-l" not in skip:
            for path, data in self.all_modules().items():
                files[path] = ["module", data]
        if "-a" not in skip:
            for _, path, before, _ in reversed(self.accesses):
                files[path] = ["access", before]
        return files


class Project(object):
    # pylint: disable=too-many-instance-attributes

    def __init__(self, case, base):
        self.base = base
        self.case = case
        self.files = {}
        self.dirs = {"", "pkg", "out"}
        self.spec = {}
        self.trials = []
        self.heads = {}
        self.pool = {}
        for name, options in case["versions"].items():
            self.pool[name] = []
            for num, spec in enumerate(options):
                data = self.source(name, num, spec)
                self.spec[data] = spec
                self.pool[name].append(data)
        for path in ("pkg", "out"):
            os.mkdir(self.full(path))
        for name in self.pool:
            self.put(name, self.pool[name][0])
        for name, num in case["data"]:
            self.put(name, CONTENTS[num])

    @staticmethod
    def source(name, num, spec):
        lines = ["# version {} of {}".format(num, name)]
        if "imports" in spec:
            lines += ["try:", "    import {}".format(
                ", ".join(spec["imports"])), "except ImportError:",
                      "    pass"] if spec["imports"] else []
            lines += ["VALUE = {}".format(num)]
        else:
            lines.append(HEAD.rstrip("\n"))
            for number, act in enumerate(spec["acts"]):
                path = repr(act[1])
                form = (spec["form"] + number) % 3
                if form == 1:
                    path = repr("./" + act[1])
                elif form == 2:
                    path = "os.path.abspath({!r})".format(act[1])
                if act[0] == "rd":
                    lines.append("rd({})".format(path))
                elif act[0] in ("wr", "ap"):
                    mode = "ab" if act[0] == "ap" else "wb"
                    lines.append("wr({}, {!r}, {!r})".format(
                        path, CONTENTS[act[2]], mode))
                elif act[0] == "rm":
                    lines.append("if os.path.exists({0}): os.remove({0})"
                                 .format(path))
                else:
                    lines.append("imp({!r})".format(act[1]))
            if spec["raises"]:
                lines.append("raise ValueError('end')")
        return encode("\n".join(lines) + "\n", spec["enc"])

    def full(self, path):
        return os.path.join(self.base, path)

    # Working tree
    def put(self, path, data):
        """Change a file of the directory and of the model"""
        parent = os.path.dirname(path)
        if parent and parent in self.files:
            return
        self.set(path, data)
        os.makedirs(self.full(parent), exist_ok=True)
        with open(self.full(path), "wb") as fil:
            fil.write(data)

    def set(self, path, data):
        """Change a file of the model"""
        if data is None:
            self.files.pop(path, None)
        else:
            self.dirs.add(os.path.dirname(path))
            self.files[path] = data

    def check(self, what):
        """Compare the directory to the model"""
        found = {}
        for root, dirs, names in os.walk(self.base):
            dirs[:] = [d for d in dirs if d not in (
                ".noworkflow", "__pycache__")]
            for name in names:
                path = os.path.join(root, name)
                with open(path, "rb") as fil:
                    found[os.path.relpath(path, self.base)] = fil.read()
        for path in sorted(set(found) | set(self.files)):
            got, want = found.get(path), self.files.get(path)
            if got != want:
                raise Violation("after {}, the file {} should have {}, but it "
                                "has {}".format(what, path, show(want),
                                                show(got)))

    # Commands
    def now(self, argv, away=False):
        argv = list(argv)
        if self.case["engine"]:
            argv[1:1] = ["--content-engine", self.case["engine"]]
        cwd = self.base
        if away:
            cwd = os.path.dirname(self.base)
            argv[1:1] = ["--dir", self.base]
        res = child.now(argv, cwd)
        child.check_crash(res, "now " + " ".join(argv))
        if res.exc is None and "Traceback" in res.err:
            raise Violation("now {} failed: {}".format(
                " ".join(argv), res.err[-1500:]))
        return res

    def new_rows(self, what, number):
        rows = store.Store(self.base).trials()
        if len(rows) != len(self.trials) + number:
            raise Violation("{} should create {} trials, but there are {} new "
                            "trials".format(what, number,
                                            len(rows) - len(self.trials)))
        return rows[len(self.trials):]

    def head(self, name, remove):
        if name in self.heads:
            return self.heads.pop(name) if remove else self.heads[name]
        for trial in reversed(self.trials):
            if trial.name == name:
                return trial
        return None

    def add(self, trial, row, what):
        """Register created trial"""
        trial.id = row.id
        parent = trial.parent.id if trial.parent else None
        if row.parent_id != parent:
            raise Violation("{} should create a trial based on {}, but its "
                            "parent is {}".format(what, parent,
                                                  row.parent_id))
        if (row.status == "backup") != trial.backup or row.script != trial.name:
            raise Violation("{} created a trial of {} with status {}".format(
                what, row.script, row.status))
        self.trials.append(trial)

    def run(self, number, name, bypass):
        script = SCRIPTS[number]
        if script not in self.files:
            return
        code = self.files[script]
        spec = self.spec[code]
        trial = Run(name or script, script, code, None)
        previous = [t for t in self.trials if not t.backup and
                    not t.inherited]
        bypass = bypass and bool(previous)
        if bypass:
            trial.inherited = previous[-1]
        trial.parent = self.head(trial.name, True)
        imported = set()
        for num, act in enumerate(spec["acts"]):
            if act[0] == "imp":
                self.do_import(act[1], trial, imported)
                continue
            path = act[1]
            shown = {0: path, 1: "./" + path, 2: self.full(path)}[
                (spec["form"] + num) % 3]
            before = self.files.get(path)
            if act[0] == "rm":
                self.set(path, None)
                continue
            if act[0] in ("wr", "ap") and os.path.dirname(path) in self.dirs:
                data = CONTENTS[act[2]]
                self.set(path, data if act[0] == "wr"
                         else (before or b"") + data)
            trial.accesses.append((shown, path, before, self.files.get(path)))
        argv = ["run"] + (["--name", name] if name else []) + (
            ["-b"] if bypass else []) + [script]
        self.now(argv)
        what = "now " + " ".join(argv)
        self.check(what)
        self.add(trial, self.new_rows(what, 1)[0], what)

    def do_import(self, name, trial, imported):
        """Model of the import of a module"""
        if name in imported:
            return True
        if "." in name:
            if "pkg/__init__.py" in self.files:
                if not self.load("pkg", "pkg/__init__.py", trial, imported):
                    return False
            elif "pkg" not in self.dirs:
                return False
        path = NAMES[name]
        if path not in self.files:
            return False
        return self.load(name, path, trial, imported)

    def load(self, name, path, trial, imported):
        if name in imported:
            return True
        imported.add(name)
        data = self.files[path]
        for other in self.spec[data]["imports"]:
            if not self.do_import(other, trial, imported):
                break
        if not trial.inherited:
            trial.modules[path] = data
        return True

    def ref(self, num, form, what=None):
        """Reference to trial"""
        del what
        if not self.trials:
            return None, None
        if form == 0:
            return self.trials[-1], []
        trial = self.trials[num % len(self.trials)]
        if form == 1:
            seq = {r.id: r.sequence_key for r in store.Store(
                self.base).trials()}
            return trial, [str(seq[trial.id])]
        if form == 2:
            tags = [t.name for t in store.Store(self.base).rows(
                "tag", trial.id)]
            names = [t.name for t in store.Store(self.base).rows("tag")]
            if tags and names.count(tags[0]) == 1:
                return trial, [tags[0]]
        return trial, [trial.id]

    def restore(self, num, form, skip, away):
        trial, ref = self.ref(num, form)
        if trial is None:
            return False
        head = self.head(trial.name, False)
        current = {
            path: [info[0], self.files.get(path)]
            for path, info in head.versioned(skip).items()}
        changed = any(current[path] != info
                      for path, info in head.versioned(skip).items())
        backup = None
        if changed:
            backup = Run(trial.name, head.script, None, None)
            backup.backup = True
            for path, (kind, data) in current.items():
                if kind == "script":
                    backup.code = data
                elif kind == "module" and data is not None:
                    backup.modules[path] = data
                else:
                    backup.accesses.append((path, path, data, data))
            backup.parent = self.head(trial.name, True)
        before = dict(self.files)
        for path, (kind, data) in trial.versioned(skip).items():
            if kind == "script" and data is None:
                continue
            parent = os.path.dirname(path)
            if data is not None and parent and parent in self.files:
                continue
            self.set(path, data)
        self.heads[trial.name] = trial
        argv = ["restore"] + ref + skip
        self.now(argv, away)
        what = "now " + " ".join(argv)
        rows = self.new_rows(what, 1 if changed else 0)
        if backup:
            self.add(backup, rows[0], what)
        self.check("{} (trial {})".format(
            what, self.trials.index(trial) + 1))
        return before != self.files

    def file(self, num, form, path, version, target):
        # pylint: disable=too-many-arguments
        trial, ref = self.ref(num, form)
        if trial is None or (not ref and version in (7, 8)):
            return
        ref = ref or [trial.id]
        found = []
        short = path if version % 2 else os.path.basename(path)

        def match(other):
            return ("/" + other).endswith("/" + short)
        if match(trial.script):
            found.append(trial.code)
        for other, data in trial.all_modules().items():
            if match(other):
                found.append(data)
        for _, other, before, after in trial.accesses:
            if match(other):
                found.extend([before, after])
        which = []
        rows = store.Store(self.base).rows("file_access", trial.id, "id")
        if len(rows) != len(trial.accesses):
            raise Violation("trial {} has {} accesses instead of {}".format(
                self.trials.index(trial) + 1, len(rows), len(trial.accesses)))
        data = False
        if version < 5:
            number = version
            if number:
                which = ["-i", str(number)]
            if len(found) >= (number or 1):
                data = found[(number or 1) - 1]
        elif rows:
            row = rows[version % len(rows)]
            access = trial.accesses[version % len(rows)]
            short = row.name
            if version < 7:
                if not row.content_hash_before or path not in DATA:
                    return
                which = ["-i", row.content_hash_before[
                    :(40 if version == 5 else 12)]]
                data = access[2]
                short = path
            else:
                trial_row = [r for r in store.Store(self.base).trials()
                             if r.id == trial.id][0]
                start = parse(trial_row.start)
                stamp = str(start + timedelta(seconds=row.checkpoint))
                for other, option in zip(rows, trial.accesses):
                    if other.name == row.name and str(
                            start + timedelta(seconds=other.checkpoint)
                            ).startswith(stamp):
                        access = option
                        break
                which = ["-i", {7: "A|", 8: "B|", 9: ""}[version] + stamp]
                data = access[3] if version == 7 else access[2]
        else:
            return
        if trial.backup and version >= 7:
            return
        dest = {0: None, 1: "target.txt", 2: "out/target.txt",
                3: path}[target]
        final = dest or os.path.relpath(self.full(short), self.base)
        if data is not False and not (
                data is None and final not in self.files) and not (
                    os.path.dirname(final) in self.files):
            self.set(final, data)
        argv = ["restore"] + ref + ["-f", short] + which + (
            ["-t", dest] if dest else [])
        self.now(argv)
        self.new_rows("now " + " ".join(argv), 0)
        self.check("now {} (trial {})".format(
            " ".join(argv), self.trials.index(trial) + 1))


def parse(text):
    text = re.sub(r"(\.\d{6})\d*$", r"\1", text)
    fmt = "%Y-%m-%d %H:%M:%S" + (".%f" if "." in text else "")
    return datetime.strptime(text, fmt)


def show(data):
    if data is None:
        return "no file"
    return repr(data[:70]) + ("..." if len(data) > 70 else "")


def run_history(case, rec):
    with child.Dir() as path:
        path = os.path.join(path, "project")
        os.mkdir(path)
        project = Project(case, path)
        changes = 0
        for op in case["ops"]:
            if op[0] == "run":
                project.run(*op[1:])
            elif op[0] == "edit":
                options = project.pool.get(op[1], CONTENTS)
                project.put(op[1], options[op[2] % len(options)])
            elif op[0] == "del":
                if op[1] in project.files:
                    project.set(op[1], None)
                    os.remove(project.full(op[1]))
            elif op[0] == "outfile":
                if "out" in project.files:
                    project.set("out", None)
                    os.remove(project.full("out"))
                elif op[1]:
                    for name in ("out/c.txt", "out/target.txt"):
                        if name in project.files:
                            project.set(name, None)
                            os.remove(project.full(name))
                    if "out" in project.dirs:
                        os.rmdir(project.full("out"))
                    project.dirs.discard("out")
                    project.put("out", b"file")
            elif op[0] == "restore":
                changes += bool(project.restore(*op[1:]))
            else:
                project.file(*op[1:])
        runs = sum(not t.backup for t in project.trials)
        rec.label("backups" if len(project.trials) > runs else "no-backup",
                  "changes:{}".format(min(changes, 4)),
                  "engine:{}".format(case["engine"]))
        rec.nt(runs >= 2 and changes >= 1)


def probe_chdir(_, rec):
    """Files accessed after a change of directory"""
    with child.Dir() as path:
        os.mkdir(os.path.join(path, "out"))
        with open(os.path.join(path, "s.py"), "w") as fil:
            fil.write("import os\nos.chdir('out')\n"
                      "open('c.txt', 'w').write('c')\n")
        with open(os.path.join(path, "c.txt"), "w") as fil:
            fil.write("other")
        for argv in (["run", "s.py"], ["restore"]):
            child.now_ok(argv, path)
        left = sorted(x for x in os.listdir(path) if x != ".noworkflow")
        left += sorted(os.listdir(os.path.join(path, "out")))
        if left != ["c.txt", "out", "s.py"]:
            raise Violation("restoring the files before a script that wrote "
                            "out/c.txt leaves {}".format(left))


PROBES = [Probe("chdir", probe_chdir)]
REGRESSIONS = {}
PARTS = [Part("history", histories, run_history, 250, 5000)]
