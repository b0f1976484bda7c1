"""Development aid: collect many failing cases of a part without shrinking.

usage: python tools/triage.py C01 programs 400 [seed]
"""
import importlib
import json
import os
import re
import sys
import tempfile
import shutil

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:0] = ["/opt/venv/bin", os.path.join(
    os.environ.get("VERIF_REPO", "/repo"), "capture"), ROOT]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
scratch = tempfile.mkdtemp(prefix="vh-triage-")
tempfile.tempdir = scratch
os.environ["TMPDIR"] = scratch
os.environ["HOME"] = scratch
os.environ["VH_SCRATCH"] = scratch
from vh import core  # noqa: E402
from hypothesis import given, settings, HealthCheck, Phase, seed  # noqa: E402

mod = importlib.import_module("checks." + sys.argv[1].lower())
part = [p for p in mod.PARTS if p.name == sys.argv[2]][0]
count = int(sys.argv[3])
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1


def shard(idx):
    fails = []
    num = [0]

    @seed(base * 1000 + idx)
    @settings(max_examples=count // 8, database=None, deadline=None,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate])
    @given(part.strategy())
    def test(case):
        num[0] += 1
        try:
            msg = core.execute(part, case, core.Rec())
        except core.Inconclusive:
            return
        except Exception as exc:
            import traceback
            msg = "HARNESS " + traceback.format_exc()
        if msg:
            fails.append((msg, case))
    test()
    return num[0], fails


res = core.fork_map([lambda i=i: shard(i) for i in range(8)])
total = sum(r[0] for r in res if r)
fails = [f for r in res if r for f in r[1]]
print(total, "cases", len(fails), "failures")
buckets = {}
for msg, case in fails:
    tail = [ln for ln in msg.strip().split("\n") if ln.strip()]
    sig = re.sub(r"\d+|0x\w+|'[^']*'", "#", tail[0][:70] + " // "
                 + tail[-1][:90])
    buckets.setdefault(sig, []).append((msg, case))
for sig, items in sorted(buckets.items(), key=lambda b: -len(b[1])):
    items.sort(key=lambda f: len(json.dumps(f[1])))
    msg, case = items[0]
    print("=" * 70)
    print(len(items), sig)
    with open("/tmp/triage-{}.json".format(sorted(buckets).index(sig)),
              "w") as fil:
        json.dump({"case": case, "msg": msg, "sig": sig}, fil)
    if isinstance(case, dict) and "prog" in case:
        print(case["prog"]["src"] if isinstance(case["prog"], dict) else case["prog"])
        print({k: v for k, v in case.items() if k != "prog"})
    else:
        print(json.dumps(case)[:int(os.environ.get("SHOW", 300))])
    print("---")
    print(msg[:int(os.environ.get("SHOW", 300))])
shutil.rmtree(scratch, ignore_errors=True)
