"""Running TLC: design checks, behaviour generation and trace/record judging."""
import json, os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def _err(out):
    for k in ('Semantic errors', 'Parse Error', '***Parse', 'Error:'):
        i = out.find(k)
        if i >= 0:
            return out[i:i + 1800] + '\n...\n' + out[-600:]
    return out[-2500:]


def java(args, cwd, env=None, timeout=600, mem="3g", gc="-XX:+UseSerialGC"):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", gc, "-Xmx" + mem, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC"] + args
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        return int(m[-1].replace(",", "")), int(m[-1].replace(",", ""))
    return 0, 0


def design(module, cfg=None, work=None, workers=4, timeout=800, extra=(), mem="6g"):
    """Model-check a design configuration; returns dict(states, transitions, ok, out)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
    t0 = time.time()
    rc, out = java(["-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta,
                    "-noGenerateSpecTE", "-deadlock"] + list(extra) + [module + ".tla"],
                   SPEC, timeout=timeout, mem=mem, gc="-XX:+UseParallelGC")
    shutil.rmtree(meta, ignore_errors=True)
    d, g = _stats(out)
    ok = rc == 0 and "No error has been found" in out
    return {"module": module, "cfg": cfg or module + ".cfg", "states": d, "transitions": g, "ok": ok, "out": out,
            "wall": time.time() - t0}


_VAL = re.compile(r'^"@(ACCEPT|REJECT|STUCK|BEHAVIOUR|NOTE) ?(.*)"$')


def _parse_prints(out):
    res = []
    for line in out.splitlines():
        m = _VAL.match(line.strip())
        if m:
            res.append((m.group(1), m.group(2)))
    return res


def judge(module, files, work, cfg=None, timeout=700, mem="3g", parallel=8):
    """Run the trace module over several trace files (one JVM each).
    Returns (accepted ids, {id: [why]}, states, transitions)."""
    def one(f):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
        rc, out = java(["-config", cfg or module + ".cfg", "-workers", "1", "-metadir", meta, "-noGenerateSpecTE",
                        "-deadlock", module + ".tla"], SPEC, env={"TRACES": f}, timeout=timeout, mem=mem)
        shutil.rmtree(meta, ignore_errors=True)
        if rc in (75, 76, 77):
            return outside(f, out)
        if rc != 0 or "No error has been found" not in out:
            raise TlcError("TLC failed on %s %s (rc=%s)\n%s" % (module, f, rc, _err(out)))
        return _parse_prints(out), _stats(out)
    odd = []

    def outside(f, out):
        """A record TLC cannot evaluate the specification on (a value of a kind the specification does not know) is no
        behaviour of it.  Find which of the records it is."""
        recs = open(f).read().splitlines()
        if len(recs) == 1:
            odd.append((json.loads(recs[0])["id"], _err(out)[:300].replace("\n", " ")))
            return [], (0, 0)
        res, d, g = [], 0, 0
        for k, part in enumerate((recs[:len(recs) // 2], recs[len(recs) // 2:])):
            if len(odd) >= 3:
                break
            p = "%s.%d" % (f, k)
            open(p, "w").write("\n".join(part) + "\n")
            x, (a, b) = one(p)
            res, d, g = res + x, d + a, g + b
        return res, (d, g)
    acc, bad, st, tr = set(), {}, 0, 0
    with ThreadPoolExecutor(parallel) as ex:
        for prints, (d, g) in ex.map(one, files):
            st += d
            tr += g
            stuck = {}
            for kind, rest in prints:
                parts = rest.split(" ", 1)
                tid = int(parts[0])
                why = parts[1] if len(parts) > 1 else ""
                if kind == "ACCEPT":
                    acc.add(tid)
                elif kind == "REJECT":
                    bad.setdefault(tid, []).append(why)
                elif kind == "STUCK":
                    stuck.setdefault(tid, []).append(why)
            for tid, whys in stuck.items():
                if tid not in acc:
                    def pos(w):
                        m = re.match(r"(\d+)", w)
                        return int(m.group(1)) if m else 0
                    bad.setdefault(tid, []).append("stuck at event " + max(whys, key=pos))
    for i, why in odd:
        bad.setdefault(i, []).append("outside the specification: " + why)
    return acc, bad, st, tr


def generate(module, work, num, depth, seed, cfg=None, timeout=300):
    """Random behaviours of the specification: the module prints <<"BEHAVIOUR", "<json>">>."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
    rc, out = java(["-config", cfg or module + ".cfg", "-simulate", "num=%d" % num, "-depth", str(depth),
                    "-seed", str(seed), "-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
                    module + ".tla"], SPEC, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    if "Error:" in out:
        raise TlcError("TLC -simulate failed on %s\n%s" % (module, _err(out)))
    res = []
    for kind, rest in _parse_prints(out):
        if kind == "BEHAVIOUR":
            res.append(json.loads(rest.replace('\\"', '"').replace('\\\\', '\\')))
    return res, _stats(out)
