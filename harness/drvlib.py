"""Common part of the drivers: each driver runs scenarios against the real code of /repo and records what it observed.

A driver module defines
    scenarios(tier, seed, extra)  -> list of scenario dicts (JSON), deterministic
    run(scn)                      -> record dict (JSON; the judged trace), without "id"
and calls main(globals()).  Recording only: every verdict is TLC's.
"""
import argparse, json, os, signal, sys, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
HANG_S = 15


class Hang(BaseException):
    pass


def setup_path():
    sys.dont_write_bytecode = True
    for p in (os.path.join(REPO, "tools"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def _alarm(signum, frame):
    raise Hang()


def main(g):
    try:
        main1(g)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(2)


def main1(g):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--out", required=True)
    ap.add_argument("--extra", default=None, help="JSON file with specification-generated behaviours")
    ap.add_argument("--only", default=None, help="JSON file with one scenario")
    ap.add_argument("--part", default="")
    a = ap.parse_args()
    extra = json.load(open(a.extra)) if a.extra else None
    if a.only:
        scns = [json.load(open(a.only))]
    else:
        scns = g["scenarios"](a.tier, a.seed, extra, a.part) if a.part else g["scenarios"](a.tier, a.seed, extra)
    signal.signal(signal.SIGALRM, _alarm)
    hangs = aborts = 0
    with open(a.out, "a" if a.start else "w") as f, open(a.out + ".scn", "a" if a.start else "w") as fs:
        for i, s in enumerate(scns):
            if i % a.of != a.shard or i < a.start:
                continue
            signal.setitimer(signal.ITIMER_REAL, HANG_S)
            try:
                try:
                    r = g["run"](s)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                # the run did not come to an end, which spec/Progress.tla judges
                r = {"halt": "hang", "what": "", "ev": []}
                hangs += 1
            except Exception as e:
                r = {"halt": "abort", "what": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:], "ev": []}
                aborts += 1
            r["id"] = i
            f.write(json.dumps(r) + "\n")
            fs.write(json.dumps({"id": i, "scn": s}) + "\n")
            if hangs >= 2 or aborts >= 10:
                break
    sys.stdout.flush()
    if g.get("HARD_EXIT"):
        os._exit(0)
