"""C10: the history of trials is the one that the user made."""
import getpass
import re
import socket

from vh import child, timeline
from vh.core import Part, Violation

PROPERTY = "C10"
RULE = (
    "history: runs of scripts with different names, codes, arguments and "
    "outcomes, edits, and restores; a model predicts parent, status, and "
    "order of every trial, and what 'now list', 'now show' and 'now history' "
    "present. Non-trivial: at least 3 trials of one name and 1 restore of a "
    "trial that is not the last one.")
ASSUMPTIONS = ["the clock does not go back"]


def run_history(case, rec):
    with child.Dir() as path:
        line = timeline.Timeline(path)
        line.play(case["ops"])
        if not line.trials:
            return
        check_rows(line)
        check_list(line)
        check_history(line, case)
        check_show(line)
        names = [t.name for t in line.trials]
        rec.label("trials:{}".format(min(len(names), 9)),
                  *{t.status for t in line.trials})
        rec.nt(max(names.count(n) for n in set(names)) >= 3 and any(
            op[0] == "restore" and op[2] for op in case["ops"]))


def check_rows(line):
    rows = line.store().trials()
    user = "{}\\{}".format(socket.gethostname(), getpass.getuser())
    heads = {h.script: h.trial_id for h in line.store().rows("head")}
    want = {name: trial.id for name, trial in line.heads.items()}
    if heads != want:
        raise Violation("heads should be {}, but they are {}".format(
            want, heads))
    codes = line.store().contents(
        {b.code_hash for b in line.store().rows("code_block")})
    for num, (row, trial) in enumerate(zip(rows, line.trials)):
        where = "trial {} ({})".format(num + 1, trial.command)
        parent = trial.parent.id if trial.parent else None
        if row.id != trial.id or row.sequence_key != num + 1:
            raise Violation("{} has sequence key {}".format(
                where, row.sequence_key))
        if row.parent_id != parent:
            ids = [t.id for t in line.trials]
            raise Violation("the parent of {} should be {}, but it is {}"
                            .format(where, parent and ids.index(parent) + 1,
                                    row.parent_id and
                                    ids.index(row.parent_id) + 1))
        for name in ("status", "command"):
            if getattr(row, name) != getattr(trial, name):
                raise Violation("{} should have {} {!r}, but it has {!r}"
                                .format(where, name, getattr(trial, name),
                                        getattr(row, name)))
        if row.script != trial.name:
            raise Violation("{} is of script {!r}".format(where, row.script))
        if not row.start or not row.finish or row.start > row.finish:
            raise Violation("{} starts at {} and finishes at {}".format(
                where, row.start, row.finish))
        if num and rows[num - 1].finish > row.start:
            raise Violation("{} starts before the previous one finishes"
                            .format(where))
        if not trial.backup and row.user_id != user:
            raise Violation("{} is of user {!r}".format(where, row.user_id))
        block = [b for b in line.store().rows("code_block", row.id)
                 if b.id == row.main_id]
        if trial.code is not None and (
                not block or codes.get(block[0].code_hash) !=
                trial.code.encode("utf-8")):
            raise Violation("{} does not refer to the code of its script"
                            .format(where))
        line.trials[num].row = row


def letter(trial):
    return {"finished": "*", "unfinished": "f", "backup": "b"}[trial.status]


def check_list(line):
    out = child.now_ok(["list"], line.base).out
    found = re.split(r"^  \[", out, flags=re.M)[1:]
    items = {}
    for text in found:
        match = re.match(r"(.)\]Trial (\S+): (.*)\n", text)
        if not match or match.group(2) in items:
            raise Violation("now list shows {!r}".format(text))
        items[match.group(2)] = (match.group(1), match.group(3), text)
    if set(items) != {t.id for t in line.trials}:
        raise Violation("now list shows {} trials instead of {}: {}".format(
            len(items), len(line.trials), out))
    tags = line.store().rows("tag")
    for trial in line.trials:
        shown, command, text = items[trial.id]
        if (shown, command) != (letter(trial), trial.command):
            raise Violation("now list shows {!r} for the trial with status "
                            "{!r} and command {!r}".format(
                                text, trial.status, trial.command))
        for expected in [
                "Sequence Key: {}\n".format(trial.row.sequence_key),
                "ran from {} to {}".format(
                    trial.row.start[:19], trial.row.finish[:19])[:27]] + [
                        "Tag: {} Type: {}".format(t.name, t.type)
                        for t in tags if t.trial_id == trial.id]:
            if expected not in text + "\n":
                raise Violation("now list does not show {!r} in {!r}".format(
                    expected, text))


def check_history(line, case):
    scripts = sorted({t.name for t in line.trials})
    choices = [("*", "*"), (scripts[len(case["ops"]) % len(scripts)], "*"),
               ("*", ["finished", "unfinished", "backup"][
                   len(line.trials) % 3])]
    tags = line.store().rows("tag")
    for script, status in choices:
        argv = ["history"]
        if script != "*":
            argv += ["-s", script]
        if status != "*":
            argv += ["-e", status]
        out = child.now_ok(argv, line.base).out
        want = [t for t in reversed(line.trials)
                if script in ("*", t.name) and status in ("*", t.status)]
        shown = [x for x in out.splitlines() if re.search(
            r"[0-9a-f]{8}-[0-9a-f]{4}-", x)]
        if len(shown) != len(want):
            raise Violation("now {} shows {} trials instead of {}:\n{}".format(
                " ".join(argv), len(shown), len(want), out))
        for text, trial in zip(shown, want):
            end = "  {id: <4} {s: <{w}} {tags}".format(
                id=trial.id, s=trial.name,
                w=max(map(len, scripts)), tags=", ".join(
                    t.name for t in tags if t.trial_id == trial.id))
            if not text.endswith(end) or letter(
                    trial) not in text[:-len(end)]:
                raise Violation("now {} shows {!r} instead of {!r} {!r}"
                                .format(" ".join(argv), text, letter(trial),
                                        end))


def check_show(line):
    trial = line.trials[len(line.trials) // 2]
    tags = [t.name for t in line.store().rows("tag", trial.id)]
    for ref in [trial.id, str(trial.row.sequence_key)] + tags:
        out = child.now_ok(["show", ref], line.base).out
        for name, value in [
                ("Id", trial.id), ("Sequence Key", trial.row.sequence_key),
                ("Status", trial.status.capitalize()),
                ("Script", trial.name)]:
            if not re.search(r"^\s*{}: {}$".format(name, re.escape(
                    str(value))), out, re.M):
                raise Violation("now show {} does not show '{}: {}' in "
                                "{!r}".format(ref, name, value, out))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("history", timeline.histories, run_history, 110, 3000)]
