"""Histories of trials: runs with different names, codes, arguments and
outcomes, and restores, with a model of the resulting history."""
import os

from hypothesis import strategies as st

from . import child, store
from .core import Violation

OUTCOMES = ["ok", "ok", "ok", "raise", "exit:0", "exit:3", "exit:msg", "base"]
NAMES = [None, None, None, "exp", "s2.py"]
SCRIPT = """\
# version {}
import sys
def end(kind):
    if kind == "raise":
        raise ValueError("end")
    if kind == "base":
        class Stop(Exception):
            pass
        raise Stop()
    if kind.startswith("exit:"):
        code = kind[5:]
        sys.exit(int(code) if code.isdigit() else code)
    return kind
print(end(sys.argv[1]))
"""


def ops():
    small = st.integers(0, 9)
    run = st.tuples(st.just("run"), st.integers(0, 1), st.sampled_from(NAMES),
                    st.sampled_from(OUTCOMES), st.integers(0, 2))
    again = st.tuples(st.just("run"), st.just(0), st.none(), st.just("ok"),
                      st.integers(0, 1))
    return st.one_of(
        run, run, again,
        st.tuples(st.just("edit"), st.integers(0, 1), st.integers(0, 3)),
        st.tuples(st.just("restore"), small, st.integers(0, 3),
                  st.sampled_from([[], [], ["-s"], ["-a"]])),
    ).map(list)


def histories(low=4, high=11):
    return st.fixed_dictionaries({
        "ops": st.lists(ops(), min_size=low, max_size=high)})


class Item(object):
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class Timeline(object):
    """Executes operations and predicts trials"""

    def __init__(self, base):
        self.base = base
        self.code = {}
        self.trials = []
        self.heads = {}
        for num in range(2):
            self.edit(num, 0)

    def edit(self, num, version):
        name = "s{}.py".format(num + 1)
        # versions have the same content in both scripts
        self.code[name] = SCRIPT.format(version)
        with open(os.path.join(self.base, name), "w") as fil:
            fil.write(self.code[name])

    def head(self, name, remove):
        if name in self.heads:
            return self.heads.pop(name) if remove else self.heads[name]
        for trial in reversed(self.trials):
            if trial.name == name:
                return trial
        return None

    def store(self):
        return store.Store(self.base)

    def collect(self, number, what):
        rows = self.store().trials()
        if len(rows) != len(self.trials) + number:
            raise Violation("{} should create {} trials, but created {}"
                            .format(what, number,
                                    len(rows) - len(self.trials)))
        return rows[-1] if number else None

    def run(self, num, name, outcome, arg):
        script = "s{}.py".format(num + 1)
        argv = ["run"] + (["--name", name] if name else []) + [
            script, outcome, str(arg)]
        trial = Item(
            name=name or script, script=script, code=self.code[script],
            command=" ".join(argv), backup=False, outcome=outcome,
            status="finished" if outcome in ("ok", "exit:0")
            else "unfinished")
        trial.parent = self.head(trial.name, True)
        child.now_ok(argv, self.base)
        trial.id = self.collect(1, trial.command).id
        self.trials.append(trial)

    def ref(self, num, form):
        if not self.trials:
            return None, None
        if form == 0:
            return self.trials[-1], []
        trial = self.trials[num % len(self.trials)]
        if form == 1:
            return trial, [str(self.trials.index(trial) + 1)]
        if form == 2:
            tags = [t.name for t in self.store().rows("tag", trial.id)]
            if tags:
                return trial, [tags[0]]
        return trial, [trial.id]

    def restore(self, num, form, skip):
        trial, ref = self.ref(num, form)
        if trial is None:
            return
        argv = ["restore"] + ref + skip
        head = self.head(trial.name, False)
        backup = None
        current = self.code[head.script]
        if "-s" not in skip and head.code != current:
            backup = Item(
                name=trial.name, script=head.script, code=current,
                command=" ".join(argv), backup=True, outcome=None,
                status="backup", parent=self.head(trial.name, True))
        child.now_ok(argv, self.base)
        row = self.collect(1 if backup else 0, " ".join(argv))
        if backup:
            backup.id = row.id
            self.trials.append(backup)
        if "-s" not in skip:
            self.code[trial.script] = trial.code
        self.heads[trial.name] = trial

    def play(self, operations):
        for operation in operations:
            getattr(self, operation[0])(*operation[1:])
