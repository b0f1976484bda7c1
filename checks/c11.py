"""C11: trials receive automatic version tags."""
from vh import child, timeline
from vh.core import Part, Violation

PROPERTY = "C11"
RULE = (
    "tags: histories of runs with repeated and different codes, commands, and "
    "names, and restores with backups; the tag of each trial is computed "
    "again from the tags of the previous ones. Non-trivial: patch, minor and "
    "major increments occur.")
ASSUMPTIONS = ["all trials belong to the default experiment"]


def expected(tags, trial):
    """Tag that the trial should receive

    tags -- list of (code, command, [major, minor, patch]) of earlier trials
    """
    code = None if trial.backup else trial.code
    same = [t for t in tags if t[0] == code]
    exact = [t for t in same if t[1] == trial.command]
    if exact:
        major, minor, patch = max(t[2] for t in exact)
        return "patch", [major, minor, patch + 1]
    if same:
        major, minor, _ = max(t[2] for t in same)
        return "minor", [major, minor + 1, 1]
    if tags:
        major = max(t[2] for t in tags)[0]
        return "major", [major + 1, 0, 0] if trial.backup else [
            major + 1, 1, 1]
    return "first", [1, 1, 1]


def run_tags(case, rec):
    with child.Dir() as path:
        line = timeline.Timeline(path)
        line.play(case["ops"])
        rows = line.store().rows("tag", order="id")
        seen = set()
        labels = set()
        tags = []
        for num, trial in enumerate(line.trials):
            mine = [r for r in rows if r.trial_id == trial.id]
            if len(mine) != 1 or mine[0].type != "AUTO":
                raise Violation("trial {} has the tags {}".format(
                    num + 1, [(r.name, r.type) for r in mine]))
            kind, numbers = expected(tags, trial)
            want = ".".join(map(str, numbers))
            if mine[0].name != want:
                raise Violation(
                    "trial {} ({}) should have the tag {} ({}), but it has {}."
                    " Tags: {}".format(
                        num + 1, trial.command, want, kind, mine[0].name,
                        [r.name for r in rows]))
            if want in seen:
                raise Violation("tag {} is of two trials".format(want))
            seen.add(want)
            labels.add("backup" if trial.backup else kind)
            tags.append((trial.code, trial.command, numbers))
        if len(rows) != len(line.trials):
            raise Violation("there are {} tags and {} trials".format(
                len(rows), len(line.trials)))
        rec.label(*labels)
        rec.nt(labels >= {"patch", "minor", "major"})


def histories():
    return timeline.histories(7, 15)


PROBES = []
REGRESSIONS = {}
PARTS = [Part("tags", histories, run_tags, 130, 3000)]
