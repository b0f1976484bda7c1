"""C07: the content store returns exactly the bytes put, for every engine."""
import hashlib
import os
import subprocess

from hypothesis import strategies as st

from vh import child
from vh.core import Part, Violation

PROPERTY = "C07"
RULE = (
    "A case is an engine (or a pair of git engines over the same store) and a "
    "sequence of put / get / find-by-prefix / commit / gc / reopen operations "
    "over generated byte contents and file names, compared with an in-memory "
    "map. Non-trivial: at least two distinct contents were put and at least "
    "one of them was read back (or looked up) after a commit, a gc, a reopen "
    "or another put under the same name."
)
ASSUMPTIONS = [
    "asynchronous engines (pool, threading, distributed) promise the bytes "
    "only after commit or close, which is what every caller waits for",
    "prefix lookup is exercised with prefixes of at least 6 hex digits, the "
    "minimum the restore command accepts",
]

GIT = ["sequential_pygit", "sequential_dulwich", "gitdb", "puregit"]
FAST = ["plain", "sequential_pygit", "sequential_dulwich", "gitdb"]
ASYNC = ["threading_pygit", "threading_dulwich", "pool_pygit",
         "distributed_pygit", "pool_dulwich", "distributed_dulwich", "pygit",
         "dulwich"]


def contents():
    raw = st.binary(max_size=40)
    text = st.text(max_size=30).map(lambda s: s.encode("utf-8",
                                                       "surrogatepass"))
    lines = st.lists(st.sampled_from(
        [b"a\n", b"\r\n", b"\n", b"x = 1\n", b"\x00", b"blob 3\x00abc",
         b"tree 0\x00", b" ", b"\xff\xfe"]), max_size=8).map(b"".join)
    big = st.tuples(st.binary(min_size=1, max_size=8),
                    st.integers(1, 20000)).map(lambda t: t[0] * t[1])
    return st.one_of(raw, text, lines, lines, big).map(
        lambda b: b.decode("latin-1"))


NAMES = ["a", "a", "b.txt", "dir/a", "dir/sub/a", "a - v2", "a - v3",
         " a ", "é.txt", "sp ace", "../outside", "generic", "b.txt",
         "../base_data/x", "../base.txt", "~/homefile", "/etc/hostname-x",
         "dir/", "x" * 200, "a b/c d", "dir/a", "../home2/zz", "../../x",
         ".git/HEAD", ".GIT/x", ".gitignore", "dir", "a/b", "new\nline"]


def names():
    return st.one_of(
        st.sampled_from(NAMES),
        st.lists(st.text(alphabet="ab-.v2 é", min_size=1, max_size=4).map(
            lambda s: s + "_" if s.strip() in (".", "..", "") else s),
                 min_size=1, max_size=3).map("/".join),
        st.none())


def ops():
    return st.lists(st.one_of(
        st.tuples(st.just("put"), contents(), names()),
        st.tuples(st.just("put"), contents(), names()),
        st.tuples(st.just("reput"), st.integers(0, 30), names()),
        st.tuples(st.just("get"), st.integers(0, 30)),
        st.tuples(st.just("find"), st.integers(0, 30), st.integers(6, 40)),
        st.tuples(st.just("nofind"), st.integers(0, 2 ** 64)),
        st.tuples(st.just("commit"), st.text(max_size=8)),
        st.tuples(st.just("gc"), st.booleans()),
        st.tuples(st.just("reopen"), st.integers(0, 3)),
    ).map(list), min_size=1, max_size=14)


def sequences():
    """Start from a few puts so that most cases have something to lose."""
    first = st.lists(st.tuples(st.just("put"), contents(), names()).map(list),
                     min_size=2, max_size=5)
    return st.tuples(first, ops()).map(lambda t: t[0] + t[1])


def git_blob(data):
    return hashlib.sha1(b"blob %d\x00" % len(data) + data).hexdigest()


class Store(object):
    """The real content database under one engine."""

    def __init__(self, engine, path):
        from noworkflow.now.persistence.config import PersistenceConfig
        from noworkflow.now.persistence.content_database import ContentDatabase
        config = PersistenceConfig()
        config.content_engine = engine
        self.config = config
        self.content = ContentDatabase(config)
        config.connect(path)


def git_reachable(path):
    out = subprocess.run(
        ["git", "rev-list", "--objects", "--all"],
        cwd=os.path.join(path, ".noworkflow", "content.git"),
        stdout=subprocess.PIPE, check=True).stdout.decode("utf-8", "replace")
    return {line.split(" ", 1)[0] for line in out.splitlines() if line}


def commit_count(path):
    out = subprocess.run(
        ["git", "rev-list", "--count", "refs/heads/master"],
        cwd=os.path.join(path, ".noworkflow", "content.git"),
        stdout=subprocess.PIPE, check=True).stdout
    return int(out)


def play(case, top):
    """Interpret the case against the real store and the model; returns
    (labels, nontrivial)."""
    base = os.path.join(top, "base")
    home = os.path.join(top, "home")
    os.makedirs(base)
    os.makedirs(home)
    os.environ["HOME"] = home
    os.chdir(base)
    engines = case["engines"]
    is_git = engines[0] != "plain"
    is_async = any(e in ASYNC for e in engines)
    store = Store(engines[0], base)
    model = {}       # hash -> bytes
    order = []       # hashes in put order
    session = set()  # hashes put since this store object was opened
    touched = False
    labels = set()
    nontrivial = False
    flushed = set()
    commits = commit_count(base) if is_git else 0
    committed = set()
    prev = git_reachable(base) if is_git else set()

    def verify(hsh, why):
        got = store.content.get(hsh)
        if not isinstance(got, bytes):
            raise Violation("get returned {} after {}".format(type(got), why))
        if got != model[hsh]:
            raise Violation(
                "get({}) returned {!r} instead of {!r} after {}".format(
                    hsh, got[:80], model[hsh][:80], why))

    def put(data, name):
        if name is None:
            hsh = store.content.put(data)
            labels.add("default-name")
        else:
            if name.startswith("~"):
                name = os.path.join(home, name[2:])
            hsh = store.content.put(data, name)
        if not isinstance(hsh, str):
            raise Violation("put returned {!r}".format(hsh))
        if hsh in model and model[hsh] != data:
            raise Violation("hash {} returned for two contents".format(hsh))
        for old, value in model.items():
            if value == data and old != hsh:
                raise Violation("same bytes stored under {} and {}".format(
                    old, hsh))
        want = git_blob(data) if is_git else hashlib.sha1(data).hexdigest()
        if hsh != want:
            raise Violation("put of {!r} returned {} (content hash is {})"
                            .format(data[:60], hsh, want))
        model[hsh] = data
        order.append(hsh)
        session.add(hsh)

    for op in case["ops"]:
        kind = op[0]
        if kind == "put":
            put(op[1].encode("latin-1"), op[2])
        elif kind == "reput" and order:
            put(model[order[op[1] % len(order)]], op[2])
            labels.add("reput")
        elif kind in ("get", "find") and order:
            hsh = order[op[1] % len(order)]
            if is_async and hsh not in flushed:
                continue
            if kind == "get":
                verify(hsh, "put")
            else:
                # puregit looks up committed objects only
                if store_engine(case, store) == "puregit" and (
                        hsh not in committed):
                    continue
                found = store.content.find_subhash(hsh[:op[2]])
                if found is None:
                    raise Violation("{} not found by its prefix {}".format(
                        hsh, hsh[:op[2]]))
                if found not in model and op[2] > 10 or (
                        not isinstance(found, str)
                        or not found.startswith(hsh[:op[2]])):
                    raise Violation("prefix {} found {!r}".format(
                        hsh[:op[2]], found))
                labels.add("find")
            if touched and len(model) > 1:
                nontrivial = True
        elif kind == "nofind":
            pre = "%016x" % op[1]
            if not any(h.startswith(pre) for h in model):
                found = store.content.find_subhash(pre)
                if found is not None:
                    raise Violation("absent prefix {} found {!r}".format(
                        pre, found))
        elif kind == "commit":
            store.content.commit_content(op[1] or "m")
            labels.add("commit")
            touched = True
            flushed.update(model)
            if is_git:
                reach = git_reachable(base)
                lost = [h for h in session | committed if h not in reach]
                if lost:
                    raise Violation(
                        "content {!r} ({}) is not part of the committed "
                        "history".format(model[lost[0]][:60], lost[0]))
                if prev - reach:
                    raise Violation("commit dropped earlier history")
                now = commit_count(base)
                if now != commits + 1:
                    raise Violation("commit made {} commits".format(
                        now - commits))
                commits = now
                prev = reach
                committed |= session
        elif kind == "gc":
            if is_async and session - flushed:
                continue
            store.content.gc()
            if is_git and op[1]:
                # what ``git gc`` does once the grace period has passed
                subprocess.run(
                    ["git", "gc", "--quiet", "--prune=now"], check=True,
                    cwd=os.path.join(base, ".noworkflow", "content.git"),
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for hsh in list(model):
                    if hsh not in committed:
                        del model[hsh]
                        session.discard(hsh)
                order[:] = [h for h in order if h in model]
            # the gc command is a process of its own: later accesses reopen
            store.content.close()
            flushed.update(model)
            store = Store(engines[0], base)
            session = set()
            labels.add("gc")
            touched = True
        elif kind == "reopen":
            store.content.close()
            flushed.update(model)
            store = Store(engines[op[1] % len(engines)], base)
            session = set()
            touched = True
            labels.add("reopen")
            if len(engines) > 1:
                labels.add("cross-engine")
    store.content.close()
    for hsh in model:
        verify(hsh, "the whole sequence")
    if is_git and case.get("both"):
        for other in GIT:
            store = Store(other, base)
            for hsh in list(model)[:4]:
                verify(hsh, "reopening with " + other)
        labels.add("cross-read")
    listed = store.content.listAll() if not is_git else None
    if listed is not None and sorted(listed) != sorted(model):
        raise Violation("listing {} differs from stored {}".format(
            sorted(listed), sorted(model)))
    if len(model) > 1 and touched:
        nontrivial = True
    return sorted(labels), nontrivial


def store_engine(case, store):
    name = type(store.content.content_database_engine).__name__
    return "puregit" if name == "PureGitEngine" else name


def run(case, rec):
    with child.Dir() as top:
        res = child.call(lambda: guarded(case, top), cwd=top, timeout=120)
        value = res.ok("content store")
    if value[0] == "violation":
        raise Violation(value[1])
    rec.label(*value[1])
    rec.label("engine:" + case["engines"][0])
    rec.nt(value[2])


def guarded(case, top):
    try:
        labels, nontrivial = play(case, top)
    except Violation as exc:
        return "violation", str(exc)
    return "ok", labels, nontrivial


def single(engines):
    return st.fixed_dictionaries({
        "engines": st.sampled_from(engines).map(lambda e: [e]),
        "ops": sequences(), "both": st.just(False)})


def cross():
    return st.fixed_dictionaries({
        "engines": st.permutations(GIT[:3]).map(lambda p: list(p[:2])),
        "ops": sequences(), "both": st.booleans()})


def exits():
    return st.fixed_dictionaries({
        "engine": st.sampled_from(FAST + ASYNC),
        "data": st.lists(st.tuples(contents(), st.sampled_from(
            ["a", "a", "b.txt", "dir/a"])), min_size=1, max_size=5)})


def run_exit(case, rec):
    """The process that puts the contents just ends, without closing"""
    with child.Dir() as top:
        def put():
            store = Store(case["engine"], top)
            return [store.content.put(data.encode("latin-1"), name)
                    for data, name in case["data"]]
        hashes = child.call(put, cwd=top, timeout=90).ok(
            "putting contents and ending")

        def get():
            store = Store(case["engine"], top)
            return [store.content.get(hash_) for hash_ in hashes]
        found = child.call(get, cwd=top, timeout=90).ok(
            "reading the contents of a process that ended")
        for (data, name), got in zip(case["data"], found):
            if got != data.encode("latin-1"):
                raise Violation("{!r} put as {!r} was lost when its process "
                                "ended: {!r}".format(data, name, got))
    rec.label("exit:" + case["engine"])
    rec.nt(len(set(hashes)) > 1)


PARTS = [
    Part("exit", exits, run_exit, 48, 800),
    Part("sequential", lambda: single(FAST), run, 900, 12000),
    Part("cross-engine", cross, run, 240, 3000),
    Part("puregit", lambda: single(["puregit"]), run, 48, 600),
    Part("async", lambda: single(ASYNC), run, 96, 1200),
]
