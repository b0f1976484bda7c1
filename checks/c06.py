"""C06: file accesses are recorded with their contents."""
import os

from hypothesis import strategies as st

from vh import child, store
from vh.core import Inconclusive, Part, Violation

PROPERTY = "C06"
RULE = (
    "files: a generated program opens, reads, writes, truncates, appends to, "
    "and removes files in nested functions, by every standard way, with "
    "failing opens, changes of directory, and an optional final exception; a "
    "model of the file system predicts the accesses and the bytes before and "
    "after each of them. Non-trivial: at least 4 accesses, 2 of them writes "
    "inside functions.")
ASSUMPTIONS = [
    "the content after an access is the one at the end of the function that "
    "opened the file",
    "files opened by other threads or processes are not generated"]

NAMES = ["a.txt", "b.bin", "sp ace.txt", "é.txt", "sub/c.txt", "noext",
         "./d.txt", "__init__.py"]
CONTENTS = ["", "x", "hello\n", "line1\nline2\n", "é✓", "\x00\x01", "a" * 3000,
            "blob 3\x00abc"]

HEAD = """\
import os, io, codecs, pathlib
def raw_write(fd, data):
    os.write(fd, data)
    os.close(fd)
def raw_read(fd):
    data = os.read(fd, 10000)
    os.close(fd)
    return data
"""


class Model(object):
    """Generates the program and the file system at the same time"""

    def __init__(self, draw, files):
        self.draw = draw
        self.files = dict(files)
        self.cwd = ""
        self.busy = set()
        self.accesses = []
        self.output = []
        self.count = 0
        self.inside = 0

    def int(self, low, high):
        return self.draw(st.integers(low, high))

    def pick(self, opts):
        return opts[self.int(0, len(opts) - 1)]

    def path(self, name):
        return os.path.normpath(os.path.join(self.cwd, name))

    def name(self):
        for _ in range(4):
            name = self.pick(NAMES)
            if self.path(name) in self.busy or (
                    self.cwd and name.startswith("sub/")):
                continue
            return name
        return None

    def record(self, name, mode, opened, func):
        path = self.path(name)
        self.accesses.append({
            "name": name, "mode": mode, "func": func, "path": path,
            "before": self.files.get(path), "after": None})
        opened.append(self.accesses[-1])

    def arg(self, name):
        """Forms of informing a path"""
        return self.pick(["{!r}", "{!r}", "pathlib.Path({!r})",
                          "os.fsencode({!r})"]).format(name)

    def opener(self, name, mode):
        """Forms of opening a file"""
        arg = self.arg(name)
        binary = "b" in mode
        enc = "" if binary else ", encoding='utf-8'"
        shown = self.pick([name, name, os.path.join(name)])
        forms = [
            "open({}, {!r}{})".format(arg, mode, enc),
            "open({}, mode={!r}{})".format(arg, mode, enc),
            "open(file={}, mode={!r}{})".format(arg, mode, enc),
            "open({}, {!r}, -1{})".format(arg, mode, enc),
            "io.open({}, {!r}{})".format(arg, mode, enc),
            "io.open({}, buffering=1 if {} else -1, mode={!r}{})".format(
                arg, not binary, mode, enc),
            "pathlib.Path({!r}).open({!r}{})".format(name, mode, enc),
        ]
        if not binary:
            forms.append("codecs.open({}, {!r}, 'utf-8')".format(arg, mode))
            forms.append("codecs.open(filename={}, mode={!r}, "
                         "encoding='utf-8')".format(arg, mode))
        if mode == "r":
            forms.append("open({}, encoding='utf-8')".format(arg))
        del shown
        form = self.pick(forms)
        if "pathlib.Path" in form:
            # Paths are normalized
            name = str(__import__("pathlib").PurePosixPath(name))
        return form, name

    def block(self, depth, func, opened):
        lines = []
        for _ in range(self.int(1, 4)):
            lines.extend(self.stmt(depth, func, opened))
        return lines

    def stmt(self, depth, func, opened):
        # pylint: disable=too-many-return-statements, too-many-branches
        kind = self.int(0, 10)
        name = self.name()
        if name is None:
            return ["pass"]
        path = self.path(name)
        exists = path in self.files
        if kind in (0, 1, 2):
            return self.write(name, depth, func, opened)
        if kind == 3 and exists:
            form, shown = self.opener(name, "rb")
            self.record(shown, "rb", opened, func)
            return self.pick([
                ["f = " + form, "d = f.read()", "f.close()", "print(d)"],
                ["with {} as f:".format(form), "    print(f.read())"],
                ["print({}.read(3))".format(form)]])
        if kind == 4 and exists:
            return self.update(name, func, opened)
        if kind == 5:
            return self.raw(name, func, opened)
        if kind == 6 and depth > 0:
            self.count += 1
            sub = "f{}".format(self.count)
            mine = []
            self.inside += 1
            body = self.block(depth - 1, sub, mine)
            self.inside -= 1
            for access in mine:
                access["after"] = self.files.get(access["path"])
            kind = self.int(0, 2)
            if kind == 2:
                return ["def {}():".format(sub)] + [
                    "    " + x for x in body] + [
                        "    raise KeyError('k')", "try:",
                        "    {}()".format(sub), "except KeyError:",
                        "    pass"]
            return ["def {}():".format(sub)] + [
                "    " + x for x in body] + ["{}()".format(sub)]
        if kind == 7 and exists:
            del self.files[path]
            return ["os.remove({!r})".format(name)]
        if kind == 8:
            return self.fail(name, func, opened)
        if kind == 9 and not self.cwd and depth > 0 and not self.busy:
            self.cwd = "sub"
            body = self.block(depth - 1, func, opened)
            self.cwd = ""
            return ["os.chdir('sub')"] + body + ["os.chdir('..')"]
        if kind == 10:
            text = self.pick(CONTENTS)
            form = self.int(0, 1)
            shown = str(__import__("pathlib").PurePosixPath(name))
            if form == 0 or not exists:
                self.record(shown, "wb", opened, func)
                self.files[path] = text.encode("utf-8")
                return ["pathlib.Path({!r}).write_bytes({!r})".format(
                    name, text.encode("utf-8"))]
            self.record(shown, "rb", opened, func)
            return ["print(pathlib.Path({!r}).read_bytes())".format(name)]
        return self.write(name, depth, func, opened)

    def write(self, name, depth, func, opened):
        path = self.path(name)
        mode = self.pick(["w", "wb", "a", "ab", "w+", "x"])
        if mode == "x" and path in self.files:
            mode = "w"
        text = self.pick(CONTENTS)
        data = repr(text.encode("utf-8") if "b" in mode else text)
        form, shown = self.opener(name, mode)
        self.record(shown, mode, opened, func)
        old = self.files.get(path, b"") if "a" in mode else b""
        self.files[path] = old
        kind = self.int(0, 2)
        if kind == 0 and depth > 0:
            self.busy.add(path)
            body = self.block(depth - 1, func, opened)
            self.busy.discard(path)
            lines = ["with {} as g{}:".format(form, depth)] + [
                "    " + x for x in body] + [
                    "    g{}.write({})".format(depth, data)]
        elif kind == 1:
            lines = ["with {} as f:".format(form),
                     "    f.write({})".format(data)]
        else:
            lines = ["f = " + form, "f.write({})".format(data), "f.close()"]
        self.files[path] = old + text.encode("utf-8")
        return lines

    def update(self, name, func, opened):
        path = self.path(name)
        form, shown = self.opener(name, "rb+")
        self.record(shown, "rb+", opened, func)
        size = self.int(0, 4)
        self.files[path] = self.files[path][:size].ljust(size, b"\0")
        return ["with {} as f:".format(form),
                "    f.truncate({})".format(size)]

    def raw(self, name, func, opened):
        path = self.path(name)
        arg = self.arg(name)
        shown = name
        if "Path" in arg:
            shown = str(__import__("pathlib").PurePosixPath(name))
        kind = self.int(0, 2)
        if kind == 0 or path not in self.files:
            self.record(shown, None, opened, func)
            self.files[path] = b"raw"
            return [self.pick([
                "raw_write(os.open({}, os.O_WRONLY | os.O_CREAT | "
                "os.O_TRUNC), b'raw')",
                "raw_write(os.open(path={}, flags=os.O_RDWR | os.O_CREAT | "
                "os.O_TRUNC, mode=0o644), b'raw')"]).format(arg)]
        if kind == 1:
            self.record(shown, "r", opened, func)
            return ["print(raw_read(os.open({}, os.O_RDONLY)))".format(arg)]
        self.record(shown, None, opened, func)
        self.files[path] += b"more"
        return ["raw_write(os.open({}, os.O_WRONLY | os.O_APPEND), "
                "b'more')".format(arg)]

    def fail(self, name, func, opened):
        path = self.path(name)
        kind = self.int(0, 3)
        if kind == 0:
            self.record("missing.txt", "r", opened, func)
            form = "open('missing.txt')"
        elif kind == 1:
            self.record(".", "r", opened, func)
            form = "open('.')"
        elif kind == 2:
            self.record(".", "r", opened, func)
            return ["os.close(os.open('.', os.O_RDONLY))"]
        elif path in self.files:
            self.record(name, "x", opened, func)
            form = "open({!r}, 'x')".format(name)
        else:
            return ["print(open(os.open('.', os.O_RDONLY), closefd=True) "
                    "if False else 0)"]
        return ["try:", "    {}".format(form), "except OSError as e:",
                "    print(type(e).__name__)"]


@st.composite
def programs(draw):
    files = {}
    for name in draw(st.lists(st.sampled_from(NAMES[:6]), max_size=4,
                              unique=True)):
        files[os.path.normpath(name)] = draw(
            st.sampled_from(CONTENTS)).encode("utf-8")
    initial = dict(files)
    model = Model(draw, files)
    opened = []
    lines = []
    for _ in range(draw(st.integers(2, 6))):
        lines.extend(model.stmt(3, "__main__", opened))
    for access in opened:
        access["after"] = model.files.get(access["path"])
    final = draw(st.integers(0, 4))
    if final == 0:
        lines.append("raise ValueError('end')")
    return {
        "src": HEAD + "\n".join(lines) + "\n", "raises": final == 0,
        "initial": {k: v.decode("latin-1") for k, v in initial.items()},
        "final": {k: v.decode("latin-1") for k, v in model.files.items()},
        "accesses": [dict(
            a, before=None if a["before"] is None
            else a["before"].decode("latin-1"),
            after=None if a["after"] is None
            else a["after"].decode("latin-1")) for a in model.accesses]}


def run_files(case, rec):
    with child.Dir() as path:
        os.mkdir(os.path.join(path, "sub"))
        for name, data in case["initial"].items():
            with open(os.path.join(path, name), "wb") as fil:
                fil.write(data.encode("latin-1"))
        with open(os.path.join(path, "script.py"), "w",
                  encoding="utf-8") as fil:
            fil.write(case["src"])
        child.now_ok(["run", "script.py"], path)
        for name in list(case["final"]) + [
                os.path.normpath(x) for x in NAMES]:
            full = os.path.join(path, name)
            data = None
            if os.path.exists(full):
                with open(full, "rb") as fil:
                    data = fil.read()
            want = case["final"].get(name)
            if (None if want is None else want.encode("latin-1")) != data:
                raise Violation(
                    "the file {} should end with {!r}, but has {!r}".format(
                        name, want and want[:60], data and data[:60]))
        sto = store.Store(path)
        trial = sto.last().id
        rows = sto.rows("file_access", trial, "id")
        acts = {a.id: a for a in sto.rows("activation", trial)}
        evals = {e.id: e for e in sto.rows("evaluation", trial)}
        hashes = sorted({h for r in rows for h in (
            r.content_hash_before, r.content_hash_after) if h})
        contents = sto.contents(hashes)
    got = [(r.name, r.mode) for r in rows]
    want = [(a["name"], a["mode"]) for a in case["accesses"]]
    if [g[0] for g in got] != [w[0] for w in want]:
        raise Violation("the script opens {}, but the recorded accesses are "
                        "{}".format(want, got))
    moments = [r.checkpoint for r in rows]
    if moments != sorted(moments):
        raise Violation("accesses are not in order: {}".format(moments))
    for num, (row, access) in enumerate(zip(rows, case["accesses"])):
        where = "access {} to {} ({})".format(
            num, row.name, access["mode"])
        if access["mode"] is not None and row.mode != access["mode"]:
            raise Violation("{} was recorded with mode {}".format(
                where, row.mode))
        owner = row.activation_id
        while owner in acts and acts[owner].code_block_id is None:
            owner = evals[owner].activation_id
        if owner not in acts or acts[owner].name != access["func"]:
            raise Violation("{} was made by {}, but is recorded in {}".format(
                where, access["func"],
                acts[owner].name if owner in acts else owner))
        for moment in ("before", "after"):
            hash_ = getattr(row, "content_hash_" + moment)
            data = contents[hash_] if hash_ else None
            expected = access[moment]
            if expected is not None:
                expected = expected.encode("latin-1")
            if data != expected:
                raise Violation(
                    "{}: the content {} is {!r}, but the recorded content is "
                    "{!r}".format(where, moment,
                                  expected and expected[:80],
                                  data and data[:80]))
    rec.label("accesses:{}".format(min(12, len(rows))),
              "raises" if case["raises"] else "ends")
    rec.nt(len(rows) >= 4 and sum(
        a["func"] != "__main__" and a["before"] != a["after"]
        for a in case["accesses"]) >= 2)


PROBES = []
REGRESSIONS = {}
PARTS = [Part("files", programs, run_files, 500, 8000)]
