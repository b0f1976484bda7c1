#!/usr/bin/env python3
"""Rewrite the "fixed:" lines of known_findings.jsonl from the fix commits.

The property of each commit is the trailing word of FIXED below; commits that
are not listed are reported.
"""
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # (words in the subject, property)
    (("dulwich", "puregit", "plain", "content commit", "git directory",
      "prefix with the project", "commit paths"), "C07"),
]
EXPLICIT = {}
_path = os.path.join(VERIF, "tools", "fixed.txt")
if os.path.exists(_path):
    with open(_path) as _fil:
        for _line in _fil:
            if _line.strip():
                _prop, _subject = _line.strip().split(" ", 1)
                EXPLICIT[_subject] = _prop


def main():
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
        capture_output=True, text=True, check=True).stdout
    lines = []
    for line in log.splitlines():
        commit, subject = line.split(" ", 1)
        if not subject.startswith("fix: "):
            continue
        subject = subject[5:]
        prop = EXPLICIT.get(subject)
        if prop is None:
            for words, name in RULES:
                if any(word in subject for word in words):
                    prop = name
        if prop is None:
            prop = "C01"
            print("default C01:", subject)
        lines.append("fixed: property={} {} {}".format(prop, commit, subject))
    path = os.path.join(VERIF, "known_findings.jsonl")
    with open(path) as fil:
        kept = [ln.rstrip("\n") for ln in fil
                if ln.strip() and not ln.startswith("fixed:")]
    with open(path, "w") as fil:
        fil.write("\n".join(kept + lines) + "\n")


if __name__ == "__main__":
    main()
