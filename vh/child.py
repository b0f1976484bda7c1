"""Run code under test in forked children (isolation from its globals)."""
import io
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import types

from . import core

_READY = False


def prepare():
    """Import noWorkflow once in the parent so that children are cheap."""
    global _READY
    if _READY:
        return
    _READY = True
    import warnings
    warnings.simplefilter("ignore")
    import noworkflow.now.cmd  # noqa: F401
    import noworkflow.now.persistence.models  # noqa: F401
    import noworkflow.now.collection.metadata  # noqa: F401
    # warm-up of slow third-party machinery only
    import sqlalchemy.orm
    sqlalchemy.orm.configure_mappers()
    try:
        import IPython.terminal.embed  # noqa: F401
    except Exception:  # noqa: B902
        pass
    try:
        import pygit2  # noqa: F401
        import dulwich.repo  # noqa: F401
    except Exception:  # noqa: B902
        pass
    origin = os.path.realpath(noworkflow.now.cmd.__file__)
    want = os.path.realpath(os.path.join(core.REPO, "capture"))
    if not origin.startswith(want):
        raise RuntimeError("noworkflow imported from " + origin)


class Result(object):
    __slots__ = ("rc", "out", "err", "value", "exc", "tb", "timeout",
                 "from_repo", "signal")

    def __repr__(self):
        return "Result(rc={}, timeout={}, exc={!r}, out={!r}, err={!r})".format(
            self.rc, self.timeout, self.exc, self.out[-500:],
            self.err[-1500:])

    def ok(self, what="call"):
        """Return the value, raising Violation/RuntimeError on failure."""
        if self.timeout:
            raise core.Violation("{} did not terminate".format(what))
        if self.exc is not None:
            if self.from_repo:
                raise core.Violation("{} raised {}\n{}".format(
                    what, self.exc, self.tb[-1800:]))
            raise RuntimeError("harness error in child: {}\n{}".format(
                self.exc, self.tb))
        if self.signal:
            raise core.Violation("{} died with signal {}".format(
                what, self.signal))
        return self.value


def fresh_main(path="/opt/venv/bin/now"):
    """Install a new, empty __main__ module, like a new interpreter has."""
    main = types.ModuleType("__main__")
    main.__file__ = path
    import builtins
    main.__builtins__ = builtins
    sys.modules["__main__"] = main
    return main


def call(func, cwd=None, timeout=60, env=None, stdin=None, retry=True):
    """Run func() in a forked child; stdout/stderr captured at fd level."""
    prepare()
    res = _call(func, cwd, timeout, env, stdin)
    return res


def _read(fil):
    fil.seek(0)
    return fil.read().decode("utf-8", "replace")


def _call(func, cwd, timeout, env, stdin):
    out = tempfile.TemporaryFile(prefix="vh-out-")
    err = tempfile.TemporaryFile(prefix="vh-err-")
    val = tempfile.TemporaryFile(prefix="vh-val-")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 96
        try:
            os.setsid()
            if cwd:
                os.chdir(cwd)
            os.dup2(out.fileno(), 1)
            os.dup2(err.fileno(), 2)
            inp = tempfile.TemporaryFile()
            if stdin:
                inp.write(stdin)
                inp.seek(0)
            os.dup2(inp.fileno(), 0)
            if env:
                os.environ.update(env)
            result = {"value": None, "exc": None, "tb": "", "from_repo": False}
            code = 0
            main_flush = [sys.stdout, sys.stderr]
            try:
                result["value"] = func()
            except SystemExit as exc:
                if exc.code is None:
                    code = 0
                elif isinstance(exc.code, int):
                    code = exc.code & 0xff
                else:
                    sys.stderr.write(str(exc.code) + "\n")
                    code = 1
            except BaseException as exc:  # noqa: B902
                result["exc"] = "{}: {}".format(type(exc).__name__, exc)
                result["tb"] = "".join(traceback.format_exception(exc))
                result["from_repo"] = core.from_repo(exc.__traceback__)
                code = 95
            for stream in main_flush:
                try:
                    stream.flush()
                except Exception:  # noqa: B902
                    pass
            try:
                data = pickle.dumps(result)
            except Exception as exc:  # noqa: B902
                data = pickle.dumps({
                    "value": None, "exc": "unpicklable: {}".format(exc),
                    "tb": "", "from_repo": False})
            os.lseek(val.fileno(), 0, os.SEEK_SET)
            view = memoryview(data)
            while view:
                num = os.write(val.fileno(), view)
                view = view[num:]
            # what the interpreter does when it ends
            import threading
            threading._shutdown()
            import multiprocessing.util
            multiprocessing.util._exit_function()
        except BaseException:  # noqa: B902
            try:
                traceback.print_exc()
            except BaseException:  # noqa: B902
                pass
        finally:
            os._exit(code)
    res = Result()
    res.timeout = False
    status = wait(pid, timeout)
    if status is None:
        res.timeout = True
        kill_group(pid)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        status = 0
    else:
        kill_group(pid)
    res.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    res.rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -res.signal
    res.out = _read(out)
    res.err = _read(err)
    val.seek(0)
    data = val.read()
    res.value, res.exc, res.tb, res.from_repo = None, None, "", False
    if data and not res.timeout:
        try:
            result = pickle.loads(data)
            res.value = result["value"]
            res.exc = result["exc"]
            res.tb = result["tb"]
            res.from_repo = result["from_repo"]
        except Exception:  # noqa: B902
            res.exc = "bad result pickle"
    out.close()
    err.close()
    val.close()
    return res


def wait(pid, timeout):
    """waitpid with a timeout (pidfd based)."""
    import select
    fd = os.pidfd_open(pid)
    try:
        ready, _, _ = select.select([fd], [], [], timeout)
        if not ready:
            return None
        return os.waitpid(pid, 0)[1]
    finally:
        os.close(fd)


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def now(argv, cwd, timeout=60, env=None, patch=None, stdin=None):
    """Run the ``now`` command line in a child, in directory cwd."""
    def go():
        import noworkflow.now.cmd as cmd
        fresh_main()
        sys.argv = ["/opt/venv/bin/now"] + list(argv)
        if patch:
            patch()
        cmd.main()
    res = call(go, cwd, timeout, env, stdin)
    return res


def now_ok(argv, cwd, **kw):
    res = now(argv, cwd, **kw)
    check_crash(res, "now " + " ".join(argv))
    return res


def check_crash(res, what):
    if res.timeout:
        raise core.Violation("{} did not terminate".format(what))
    if res.exc is not None and not res.from_repo:
        raise RuntimeError("harness error: {}\n{}".format(res.exc, res.tb))
    if res.exc is not None:
        raise core.Violation("{} crashed: {}\n{}".format(
            what, res.exc, res.tb[-1800:]))
    if res.signal:
        raise core.Violation("{} died with signal {}".format(
            what, res.signal))


def python(script, cwd, args=(), timeout=60, env=None):
    """Run a script the way plain ``python script args`` would."""
    def go():
        path = os.path.realpath(os.path.join(cwd, script))
        main = fresh_main(path)
        sys.argv = [script] + list(args)
        sys.path[0] = os.path.dirname(path)
        with open(path, "rb") as fil:
            code = fil.read()
        exec(compile(code, path, "exec"), main.__dict__)
    return call(go, cwd, timeout, env)


class Dir(object):
    """Scratch directory context."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c-")
        return self.path

    def __exit__(self, *args):
        import shutil
        shutil.rmtree(self.path, ignore_errors=True)
        return False
