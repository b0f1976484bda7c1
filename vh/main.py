"""Command line entry: python -m vh.main <property> [...]"""
import argparse
import atexit
import importlib
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
HYPOTHESIS_HOME = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--part")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("-v", "--verbose", action="store_true")
    args = parser.parse_args()
    replay = args.replay and os.path.abspath(args.replay)

    owner = os.getpid()
    scratch = tempfile.mkdtemp(prefix="vh-{}-".format(args.property))

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    tempfile.tempdir = scratch
    os.environ["TMPDIR"] = scratch
    home = os.path.join(scratch, "home")
    os.makedirs(home)
    os.environ["HOME"] = home
    os.environ["VH_SCRATCH"] = scratch
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[0:0] = ["/opt/venv/bin", os.path.join(repo, "capture")]
    sys.path.append(HYPOTHESIS_HOME)
    os.chdir(scratch)

    from vh import core
    module = importlib.import_module("checks." + args.property.lower())
    if args.replay:
        code = core.run_replay(module, replay)
    else:
        code = core.run_check(module, args)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    RC = main()
    sys.exit(RC)
