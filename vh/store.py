"""Read a .noworkflow store directly (sqlite3), independently of the models."""
import os
import sqlite3

from . import child, core


class Row(dict):
    __getattr__ = dict.__getitem__


class Store(object):
    def __init__(self, path):
        self.path = path
        self.db = os.path.join(path, ".noworkflow", "db.sqlite")

    def rows(self, table, trial=None, order="rowid"):
        if not os.path.exists(self.db):
            raise core.Violation("no provenance database was created")
        con = sqlite3.connect(self.db)
        try:
            con.row_factory = sqlite3.Row
            sql = 'select * from "{}"'.format(table)
            args = ()
            if trial is not None:
                sql += " where {}=?".format(
                    "id" if table == "trial" else "trial_id")
                args = (trial,)
            sql += " order by " + order
            return [Row(r) for r in con.execute(sql, args)]
        finally:
            con.close()

    def trials(self):
        return self.rows("trial", order="sequence_key")

    def last(self):
        return self.trials()[-1]

    def tables(self):
        con = sqlite3.connect(self.db)
        try:
            return [r[0] for r in con.execute(
                "select name from sqlite_master where type='table' and "
                "name not like 'sqlite_%' order by name")]
        finally:
            con.close()

    def contents(self, hashes):
        """Map hash -> bytes through the content store, in a fresh process."""
        hashes = sorted(set(h for h in hashes if h))

        def go():
            from noworkflow.now.persistence import (persistence_config,
                                                    content)
            persistence_config.connect(self.path)
            result = {}
            for hash_ in hashes:
                try:
                    result[hash_] = content.get(hash_)
                except Exception as exc:  # noqa: B902
                    result[hash_] = exc.__class__.__name__
            content.close()
            return result
        return child.call(go, cwd=self.path).ok("reading the content store")


def models(path, func, timeout=60):
    """Call func(modules) in a child connected to the store at path."""
    def go():
        from noworkflow.now.persistence import persistence_config, content
        persistence_config.connect(path)
        try:
            return func()
        finally:
            content.close()
    return child.call(go, cwd=path, timeout=timeout)
