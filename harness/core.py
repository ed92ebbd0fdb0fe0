"""Runs one property's check: TLC design runs, specification-generated behaviours, drivers on the real code, TLC verdicts."""
import json, os, shutil, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


class CheckError(Exception):
    pass


def load_known():
    """known-findings.json: list of {"property","match":{...},"what"}; only entries with status 'open' suppress anything."""
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def split_halts(files, out):
    """runs that did not come to an end are judged by Progress instead of the driver's own specification"""
    halts = []
    for f in files:
        lines = open(f).read().splitlines()
        h = [l for l in lines if '"halt"' in l and "halt" in json.loads(l)]
        if h:
            halts += h
            open(f, "w").write("".join(l + "\n" for l in lines if l not in h))
    if halts:
        open(out, "w").write("\n".join(halts) + "\n")
    return [f for f in files if os.path.getsize(f)], [out] if halts else []


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        base = os.path.join(ROOT, "work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "_", dir=base)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known, self.designs, self.parts = [], [], [], [], []
        self.assumptions = []
        self.env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO,
                        PYTHONPATH=HERE)
        self.pool = ThreadPoolExecutor(4)
        self.pending = []

    # -- design ---------------------------------------------------------
    def design(self, module, cfg=None, workers=4, bg=True, timeout=800, mem="6g"):
        fut = self.pool.submit(tlc.design, module, cfg, self.work, workers, timeout, (), mem)
        self.pending.append(fut)
        if not bg:
            fut.result()

    def generate(self, module, num, depth, cfg=None):
        beh, (d, g) = tlc.generate(module, self.work, num, depth, self.seed, cfg)
        self.states += d
        self.transitions += g
        f = os.path.join(self.work, "gen_%s.json" % module)
        json.dump(beh, open(f, "w"))
        return f, len(beh)

    # -- conformance ----------------------------------------------------
    def conform(self, driver, module, cfg=None, part="", extra=None, shards=8, drv_timeout=700, mem="3g", timeout=700):
        def drv(k):
            out = os.path.join(self.work, "%s_%s_%d.ndjson" % (driver, part, k))
            cmd = [PY, os.path.join(HERE, driver + ".py"), "--tier", self.tier, "--seed", str(self.seed),
                   "--shard", str(k), "--of", str(shards), "--out", out]
            if part:
                cmd += ["--part", part]
            if extra:
                cmd += ["--extra", extra]
            for attempt in range(3):         # the interpreter itself may crash, rarely
                p = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL, timeout=drv_timeout)
                if p.returncode not in (-11, -6, -9):
                    break
            if p.returncode != 0:
                raise CheckError("driver %s failed (%d):\n%s" % (driver, p.returncode, p.stdout.decode()[-4000:]))
            return out
        t0 = time.time()
        with ThreadPoolExecutor(shards) as ex:
            files = list(ex.map(drv, range(shards)))
        t1 = time.time()
        scnfiles = [f + ".scn" for f in files]
        files, halts = split_halts(files, os.path.join(self.work, "%s_%s_halts.ndjson" % (driver, part)))
        acc, bad, st, tr = tlc.judge(module, files, self.work, cfg, mem=mem, timeout=timeout)
        if halts:
            a2, b2, _, _ = tlc.judge("Progress", halts, self.work)
            acc = acc | a2
            bad.update(b2)
            files += halts
        t2 = time.time()
        ids = []
        recs = {}
        for f in files:
            for line in open(f):
                r = json.loads(line)
                ids.append(r["id"])
                if r["id"] in bad or (r["id"] not in acc) or len(recs) < 2:
                    recs[r["id"]] = r
        self.states += st
        self.transitions += tr
        self.traces += len(ids)
        for i in sorted(recs)[:1]:
            self.samples.append({"driver": driver, "part": part, "record": _clip(recs[i])})
        cut = any(w.startswith("outside the specification") for v in bad.values() for w in v)
        fails = [i for i in ids if i in bad or (i not in acc and not cut)]
        self.parts.append({"driver": driver, "part": part, "judge": module, "traces": len(ids), "rejected": len(fails),
                           "record_s": round(t1 - t0, 1), "judge_s": round(t2 - t1, 1)})
        if fails:
            scn = {}
            for f in scnfiles:
                for line in open(f):
                    s = json.loads(line)
                    if s["id"] in fails:
                        scn[s["id"]] = s["scn"]
            for i in sorted(fails):
                self.fail(driver, part, module, cfg, i, scn.get(i), recs.get(i), bad.get(i, ["not accepted"]))
        return files

    def fail(self, driver, part, module, cfg, i, scn, rec, why):
        for k in load_known():
            if k["property"] == self.pid and known_matches(k, driver, part, scn, rec, why):
                self.known.append(k)
                return
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_%s_%d.json" % (self.pid, driver, part or "all", i))
        if len(self.viol) < 40:
            json.dump({"property": self.pid, "driver": driver, "part": part, "judge": module, "cfg": cfg, "tier": self.tier,
                       "seed": self.seed, "id": i, "why": why, "scenario": scn, "record": rec}, open(path, "w"), indent=1)
        self.viol.append((path, why))

    def finish(self, level="model_checking"):
        for fut in self.pending:
            r = fut.result()
            self.designs.append({k: r[k] for k in ("module", "cfg", "states", "transitions", "ok")})
            self.states += r["states"]
            self.transitions += r["transitions"]
            if not r["ok"]:
                raise CheckError("design check %s failed:\n%s" % (r["cfg"], tlc._err(r["out"])))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6], "design_runs": self.designs, "conformance": self.parts}
        if self.traces == 0:
            raise CheckError("nothing was recorded")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        seen = set()
        for k in self.known:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for path, why in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, ROOT)))
            print("   " + "; ".join(why)[:600])
        if len(self.viol) > 10:
            print("   ... %d violating traces in all" % len(self.viol))
        print("%s %s: %d traces, %d states, %.1fs, %d violation(s)" %
              (self.pid, self.tier, self.traces, self.states, time.time() - self.t0, len(self.viol)))
        return 1 if self.viol else 0


def known_matches(k, driver, part, scn, rec, why):
    m = k.get("match", {})
    if m.get("driver") and m["driver"] != driver:
        return False
    if m.get("part") is not None and m["part"] != part:
        return False
    if m.get("why") and not all(any(w2 in w for w2 in m["why"]) for w in why):
        return False
    for key, val in m.get("scenario", {}).items():
        if (scn or {}).get(key) != val:
            return False
    return True


def _clip(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."
