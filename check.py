#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]      run a property's check
   check.py --replay <file>                                       run one recorded scenario again and judge it"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import core, plans, tlc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    c = core.Check(pid, tier, seed)
    try:
        plans.PLANS[pid](c)
        return c.finish()
    except (core.CheckError, tlc.TlcError, subprocess.TimeoutExpired) as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    w = tempfile.mkdtemp(prefix="replay_", dir=HERE)
    try:
        s = os.path.join(w, "s.json")
        json.dump(r["scenario"], open(s, "w"))
        out = os.path.join(w, "o.ndjson")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=os.path.join(HERE, "harness"))
        subprocess.run([core.PY, os.path.join(HERE, "harness", r["driver"] + ".py"), "--only", s, "--out", out] +
                       (["--part", r["part"]] if r["part"] else []), env=env, stdin=subprocess.DEVNULL)
        print(open(out).read())
        files, halts = core.split_halts([out], os.path.join(w, "halts.ndjson"))
        acc, bad, _, _ = tlc.judge("Progress" if halts else r["judge"], halts or files, w, r.get("cfg"))
        print("accepted" if acc and not bad else "rejected: %s" % bad)
        return 0 if acc and not bad else 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
