"""C12: trials and contents travel between provenance stores unchanged."""
import json
import os
import signal
import sys

from hypothesis import strategies as st

from vh import child, progs, store
from vh.core import Inconclusive, Part, Violation

PROPERTY = "C12"
RULE = (
    "import/server: stores with trials of generated programs (with modules, "
    "file accesses, failures, names, backups) are transferred to empty, "
    "unrelated, or partially updated stores by 'now import', or by 'now push' "
    "and 'now pull' through the real server; every row and content is "
    "compared. Non-trivial: at least 2 transferred trials, one of them with "
    "file accesses, members and activations.")
ASSUMPTIONS = ["the stores of both sides use the same content engine"]

TABLES = ["activation", "argument", "code_block", "code_component",
          "composition", "dependency", "environment_attr", "evaluation",
          "file_access", "member", "module"]
FILES = """\
import os, mod_{0}
def access(name, text):
    with open(name, "w", encoding="utf-8") as fil:
        fil.write(text)
    with open(name, encoding="utf-8") as fil:
        return [fil.read(), {{"name": name, "size": [1, 2]}}]
result = access("data{0}.txt", {1!r})
result[1]["size"][0] = mod_{0}.VALUE
open("bin{0}", "wb").write({2!r})
"""
TEXTS = ["", "x\n", "é✓\n", "a\r\nb"]
BINARY = [b"", b"\x00\xff", bytes(range(256)), b"blob 1\x00a"]
FINAL = ["", "", "raise ValueError('é')\n", "import sys\nsys.exit(2)\n"]


def trials():
    return st.fixed_dictionaries({
        "prog": progs.programs(low=1, high=2, depth=1).map(
            lambda p: p["src"]),
        "num": st.integers(0, 1), "files": st.booleans(),
        "text": st.integers(0, 3), "final": st.integers(0, 3),
        "name": st.sampled_from([None, None, "exp", "s1.py"]),
        "args": st.lists(st.sampled_from(["-b", "a'b", "x y", "é"]),
                         max_size=2),
        "restore": st.sampled_from([False, False, True])})


def cases(server):
    return st.fixed_dictionaries({
        "source": st.lists(trials(), min_size=1, max_size=3),
        "target": st.lists(trials(), max_size=1),
        "more": st.lists(trials(), max_size=1),
        "engine": st.just(None) if server else st.sampled_from(
            [None, None, "plain", "dulwich", "puregit"]),
        "server": st.just(server)})


def make(path, items, engine=None, offset=0):
    """Run trials"""
    extra = ["--content-engine", engine] if engine else []
    for num, trial in enumerate(items, offset):
        text = trial["prog"]
        if trial["files"]:
            with open(os.path.join(path, "mod_{}.py".format(
                    trial["num"])), "w") as fil:
                fil.write("VALUE = {}\n".format(num))
            text = FILES.format(trial["num"], TEXTS[trial["text"]],
                                BINARY[trial["text"]]) + text
        script = "s{}.py".format(trial["num"])
        with open(os.path.join(path, script), "w", encoding="utf-8") as fil:
            fil.write(text + "\n" + FINAL[trial["final"]])
        argv = ["run"] + extra
        if trial["name"]:
            argv += ["--name", trial["name"]]
        child.now_ok(argv + [script] + trial["args"], path)
        if trial["restore"]:
            with open(os.path.join(path, script), "a") as fil:
                fil.write("# edited\n")
            child.now_ok(["restore"] + extra, path)


def normal(row, ignored=()):
    return tuple((k, v) for k, v in sorted(row.items()) if k not in ignored)


def snapshot(path, ignored=("sequence_key",)):
    """Rows of a store by trial"""
    sto = store.Store(path)
    result = {}
    for row in sto.trials():
        data = {"trial": [normal(row, ignored)]}
        for table in TABLES:
            drop = ()
            data[table] = sorted(
                (normal(r, drop) for r in sto.rows(table, row.id)), key=repr)
        result[row.id] = data
    return result


def hashes(data):
    found = set()
    for trial in data.values():
        for table in ("code_block", "file_access"):
            for row in trial[table]:
                for name, value in row:
                    if "hash" in name and value:
                        found.add(value)
    return found


def compare(want, got, what):
    for tid in want:
        if tid not in got:
            raise Violation("{}: a trial is missing".format(what))
        for table in want[tid]:
            one, two = want[tid][table], got[tid][table]
            if one == two:
                continue
            missing = [r for r in one if r not in two]
            extra = [r for r in two if r not in one]
            detail = "missing {} extra {}".format(missing[:1], extra[:1])
            if missing and extra:
                detail = "{} became {}".format(
                    sorted(set(missing[0]) - set(extra[0])),
                    sorted(set(extra[0]) - set(missing[0])))
            raise Violation("{}: {} rows of table {} differ ({} and {} rows): "
                            "{}".format(what, max(len(missing), len(extra)),
                                        table, len(one), len(two), detail))
    extra = set(got) - set(want)
    if extra:
        raise Violation("{}: there are {} extra trials".format(
            what, len(extra)))


def check_contents(want_path, got_path, data, what, engine=None):
    wanted = read(want_path, hashes(data), engine)
    found = read(got_path, hashes(data), engine)
    for hash_ in wanted:
        if not isinstance(wanted[hash_], bytes):
            raise Violation("{}: {} is not in the original store".format(
                what, hash_))
        if wanted[hash_] != found[hash_]:
            raise Violation("{}: the content {!r} ({}) was transferred as "
                            "{!r}".format(what, wanted[hash_][:60], hash_,
                                          found[hash_] if not isinstance(
                                              found[hash_], bytes)
                                          else found[hash_][:60]))


def read(path, hashes_, engine=None):
    def go():
        from noworkflow.now.persistence import persistence_config, content
        persistence_config.content_engine = engine
        persistence_config.connect(path)
        result = {}
        for hash_ in hashes_:
            try:
                result[hash_] = content.get(hash_)
            except Exception as exc:  # noqa: B902
                result[hash_] = repr(exc)
        return result
    res = child.call(go, path)
    child.check_crash(res, "reading the store")
    return res.value


def check_tags(path, order, what):
    """Every trial has an automatic tag, and tags are unique"""
    rows = store.Store(path).rows("tag")
    for tid in order:
        mine = [r.name for r in rows if r.trial_id == tid]
        if len(mine) != 1:
            raise Violation("{}: a trial has the tags {}".format(what, mine))
    names = [r.name for r in rows]
    if len(set(names)) != len(names):
        raise Violation("{}: tags are repeated: {}".format(what, names))


def worthy(case, data):
    return len(data) >= 2 and any(
        t["file_access"] and t["member"] and len(t["activation"]) > 1
        for t in data.values())


def run_import(case, rec):
    with child.Dir() as base:
        source, target = [os.path.join(base, x) for x in "st"]
        os.mkdir(source)
        os.mkdir(target)
        make(source, case["source"], case["engine"])
        make(target, case["target"], case["engine"])
        old = snapshot(target) if case["target"] else {}
        extra = []
        if case["engine"]:
            # the engine is selected by a previous command
            extra = []

        def transfer(what):
            if case["engine"]:
                def patch():
                    from noworkflow.now.persistence import config
                    original = config.PersistenceConfig.__init__

                    def init(self, *args, **kwargs):
                        original(self, *args, **kwargs)
                        self.content_engine = case["engine"]
                    config.PersistenceConfig.__init__ = init
                    from noworkflow.now.persistence import persistence_config
                    persistence_config.content_engine = case["engine"]
            else:
                patch = None
            res = child.now(["import", "--source", source, "--target", target],
                            base, patch=patch)
            child.check_crash(res, what)
            if "Imported successfully" not in res.out:
                raise Violation("{} fails: {} {}".format(
                    what, res.out[-300:], res.err[-800:]))
            new = snapshot(source)
            want = dict(old)
            want.update(new)
            compare(want, snapshot(target), what)
            check_contents(source, target, new, what, case["engine"])
            check_tags(target, new, what)
            users = [{r.id: r.userLogin for r in store.Store(p).rows("user")}
                     for p in (source, target)]
            if any(u not in users[1].items() for u in users[0].items()):
                raise Violation("{}: users {} became {}".format(what, *users))
            return new
        transfer("now import")
        transfer("the second now import")
        data = snapshot(source)
        if case["more"]:
            make(source, case["more"], case["engine"], 5)
            data = transfer("now import of new trials")
        del extra
        rec.label("trials:{}".format(len(data)), "engine:{}".format(
            case["engine"]), "more" if case["more"] else "once",
                  "target:{}".format(len(old)))
        rec.nt(worthy(case, data))


class Server(object):
    """Real server of a store in other process"""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        read_end, write_end = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.setsid()
                os.chdir(self.path)
                log = os.open(self.path + ".log",
                              os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                for num in (1, 2):
                    os.dup2(log, num)
                from noworkflow.now.persistence import persistence_config
                persistence_config.connect(self.path)
                from noworkflow.now.vis.views import app
                from werkzeug.serving import make_server
                server = make_server("127.0.0.1", 0, app)
                os.write(write_end, b"%d\n" % server.port)
                os.close(write_end)
                server.serve_forever()
            finally:
                os._exit(1)
        os.close(write_end)
        with os.fdopen(read_end) as fil:
            port = fil.readline().strip()
        if not port:
            raise Inconclusive("the server did not start")
        self.url = "http://127.0.0.1:{}".format(port)
        return self

    def __exit__(self, *args):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)

    def log(self):
        with open(self.path + ".log", errors="replace") as fil:
            return fil.read()

    def post(self, path, data):
        from urllib.request import Request, urlopen
        req = Request(self.url + path, data=json.dumps(data).encode(),
                      headers={"Content-Type": "application/json"})
        with urlopen(req, timeout=30) as res:
            return json.loads(res.read())


def run_server(case, rec):
    with child.Dir() as base:
        source, remote, target = [os.path.join(base, x) for x in "srt"]
        for path in (source, remote, target):
            os.mkdir(path)
        make(source, case["source"])
        make(target, case["target"])
        old = snapshot(target) if case["target"] else {}
        ignored = ("sequence_key", "experiment_id")
        with Server(remote) as server:
            ids = [server.post("/experiments", {
                "name": "exp {}".format(n), "description": "d"})["id"]
                   for n in range(2)]
            url = "{}/experiments/{}".format(server.url, ids[0])

            def command(name, path, success):
                res = child.now([name, "--url", url], path)
                log = server.log()
                if "Traceback" in log:
                    raise Violation("now {}: the server failed: {}".format(
                        name, log[log.index("Traceback"):][-1500:]))
                child.check_crash(res, "now " + name)
                if success not in res.out:
                    raise Violation("now {} fails: {} {}".format(
                        name, res.out[-300:], res.err[-800:]))

            def transfer(what):
                command("push", source, "Pushed successfully")
                new = snapshot(source, ignored)
                got = snapshot(remote, ignored)
                compare(new, got, what + "push")
                exps = {r.experiment_id for r in store.Store(remote).trials()}
                if exps != {ids[0]}:
                    raise Violation("trials pushed to the experiment {} are "
                                    "in {}".format(ids[0], exps))
                check_contents(source, remote, new, what + "push")
                check_tags(remote, new, what + "push")
                command("pull", target, "Pulled successfully")
                want = {t: d for t, d in old.items()}
                want.update(new)
                compare(want, snapshot(target, ignored), what + "pull")
                check_contents(source, target, new, what + "pull")
                users = [{r.id: r.userLogin for r in store.Store(p).rows(
                    "user")} for p in (source, remote, target)]
                if users[0] != users[1] or any(
                        u not in users[2].items() for u in users[0].items()):
                    raise Violation("{}users {} became {} and {}".format(
                        what, *users))
                if os.listdir(remote) != [".noworkflow"]:
                    raise Violation("the server created files: {}".format(
                        os.listdir(remote)))
                return new
            old = snapshot(target, ignored) if case["target"] else {}
            data = transfer("")
            data = transfer("second ")
            if case["more"]:
                make(source, case["more"], offset=5)
                data = transfer("later ")
            # Unknown experiments change nothing
            before = snapshot(remote, ignored), snapshot(target, ignored)
            for name, path in (("push", source), ("pull", target)):
                res = child.now([name, "--url", server.url +
                                 "/experiments/unknown"], path)
                child.check_crash(res, "now {} of unknown experiment".format(
                    name))
                if "successfully" in res.out or before != (
                        snapshot(remote, ignored), snapshot(target, ignored)):
                    raise Violation("now {} to an unknown experiment: {}"
                                    .format(name, res.out))
            # The other experiment is empty
            compare({}, {t.id: 1 for t in store.Store(remote).trials()
                         if t.experiment_id == ids[1]}, "other experiment")
        rec.label("server", "trials:{}".format(len(data)))
        rec.nt(worthy(case, data))


PROBES = []
REGRESSIONS = {}
PARTS = [Part("import", lambda: cases(False), run_import, 64, 2500),
         Part("server", lambda: cases(True), run_server, 24, 1000)]
