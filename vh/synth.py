"""Provenance stores with rows written directly, without running scripts."""
import os
import sqlite3

from . import child

_TEMPLATE = []


def template():
    """Bytes of a new and empty store"""
    if not _TEMPLATE:
        with child.Dir() as path:
            def go():
                from noworkflow.now.persistence import persistence_config
                persistence_config.content_engine = "plain"
                persistence_config.connect(path)
            child.call(go, path).ok("creating a store")
            with open(os.path.join(path, ".noworkflow", "db.sqlite"),
                      "rb") as fil:
                _TEMPLATE.append(fil.read())
    return _TEMPLATE[0]


class Synth(object):
    """Writer of rows"""

    def __init__(self, path):
        self.path = path
        os.makedirs(os.path.join(path, ".noworkflow", "content"))
        name = os.path.join(path, ".noworkflow", "db.sqlite")
        with open(name, "wb") as fil:
            fil.write(template())
        self.con = sqlite3.connect(name)

    def insert(self, table, **row):
        self.con.execute('insert into "{}" ({}) values ({})'.format(
            table, ", ".join('"{}"'.format(c) for c in row),
            ", ".join("?" * len(row))), list(row.values()))

    def trial(self, num, **row):
        """Insert trial with its main code block"""
        tid = row.setdefault("id", trial_id(num))
        code = row.pop("code_hash", "{:040x}".format(num))
        row.setdefault("script", "s.py")
        row.setdefault("start", stamp(num, 0))
        row.setdefault("finish", stamp(num, 5))
        row.setdefault("command", "run s.py")
        row.setdefault("path", "/dir")
        row.setdefault("status", "finished")
        row.setdefault("user_id", "u")
        row["main_id"] = 1
        self.insert("trial", **row)
        self.block(tid, 1, row["script"], "script", code)
        return tid

    def block(self, tid, num, name, type_, code_hash, container=None):
        self.insert("code_component", trial_id=tid, id=num, name=name,
                    type=type_, mode="w", first_char_line=1,
                    first_char_column=0, last_char_line=1,
                    last_char_column=1, container_id=container)
        self.insert("code_block", trial_id=tid, id=num, code_hash=code_hash,
                    docstring="")

    def close(self):
        self.con.commit()
        self.con.close()


def trial_id(num):
    return "{:08x}-0000-4000-8000-000000000000".format(num + 1)


def stamp(minutes, seconds=0):
    return "2020-01-{:02d} {:02d}:{:02d}:{:02d}.000000".format(
        1 + minutes // 1440, minutes // 60 % 24, minutes % 60, seconds)
