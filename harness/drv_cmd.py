"""Commands on the real GsmModem.write(): error replies, busy replies, retries, timeouts (C05)."""
import random
import modemlib
from modemlib import *

HARD_EXIT = True


def run(scn):
    w = World(scn)
    rec = w.rec
    m = gm.GsmModem("-")

    def caller(t, cs):
        for c in cs:
            w.until(c.get("at", 0))
            w.point()
            rec.add("Call", t=t, cmd=c["cmd"], parse=c.get("parse", True), wait=c.get("wait", True), tmo=c.get("tmo", 5000), at=rec.at())
            kw = {}
            if "tmo" in c:
                kw["timeout"] = c["tmo"] / 1000.0
            if not c.get("wait", True):
                kw["waitForResponse"] = False
            if not c.get("parse", True):
                kw["parseError"] = False
            if c.get("prompt"):
                kw["expectedResponseTermSeq"] = "> "
            try:
                r = m.write(c["cmd"], **kw)
                rec.add("Ret", t=t, l=[] if r is None else [str(x) for x in r], none=r is None, at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def main():
        sc.SerialComms.connect(m)
        vts = w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(scn["callers"])])
        w.join(vts)
        w.sleep(500)
        m.close()
    return {"threads": len(scn["callers"]), "ev": w.run(main)}


CODES = [0, 3, 4, 5, 10, 11, 12, 13, 15, 16, 17, 18, 30, 38, 100, 140, 141, 151, 300, 320, 321, 330, 331, 500, 512, 513, 514, 516, 517, 1515, 5150, 51, 5]


def final(rnd):
    q = rnd.random()
    if q < .45:
        return "OK"
    if q < .55:
        return rnd.choice(["ERROR", "COMMAND NOT SUPPORT"])
    return "+CM%s ERROR: %d" % (rnd.choice("ES"), rnd.choice(CODES + [11, 12, 16, 330]))


def busy(rnd):
    return "+CM%s ERROR: %s" % (rnd.choice("EES"), rnd.choice(["515", "515", "14"]))


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("cmd%s" % seed)
    n = {"quick": 900, "thorough": 9000}[tier]
    out = []
    for typ in "ES":                  # every code once
        for code in range(0, 600):
            if code in (515, 14):
                continue
            if code % 60 == 0:
                out.append({"callers": [[]], "prof": {"script": {}, "lat": 0}, "sched": {"seed": code, "p": 0}})
            c = "AT+%s%d" % (typ, code)
            out[-1]["callers"][0].append({"cmd": c})
            out[-1]["prof"]["script"][c] = [["+CM%s ERROR: %d" % (typ, code)]]
    for b in extra or []:
        out.append(from_spec(b, rnd))
    while len(out) < n:
        out.append(gen(rnd))
    return out


def from_spec(b, rnd):
    callers, script = {}, {}
    for i, e in enumerate(b):
        cmd = "AT+B%d" % i
        callers.setdefault(e["t"], []).append({"cmd": cmd, "parse": e["parse"], "tmo": 3000})
        script[cmd] = [[x] for x in e["replies"]]
        if e["silent"]:
            script[cmd].append({"l": ["+X"], "final": False})
    return {"callers": [callers[t] for t in sorted(callers)], "prof": {"script": script, "lat": rnd.choice([0, 10])}, "sched": sched(rnd), "src": "tlc"}


def gen(rnd):
    nth = rnd.choice([1, 1, 1, 2, 3])
    callers, script = [], {}
    k = 0
    for t in range(nth):
        cs = []
        for _ in range(rnd.choice([2, 3, 5])):
            k += 1
            c = {"cmd": rnd.choice(["AT+C%d", "AT+X%d=\"{0}\",1", "AT^K%d?"]) % k}
            rs = []
            if rnd.random() < .12:
                c["wait"] = False
                c["cmd"] += "N"
                script[c["cmd"]] = [{"l": [], "final": False}]
                cs.append(c)
                continue
            if rnd.random() < .2:
                c["parse"] = False
            nb = rnd.choice([0, 0, 0, 1, 1, 2, 3, 5])
            if not c.get("parse", True):
                nb = rnd.choice([0, 0, 1])
            for _ in range(nb):
                rs.append([rnd.choice(["+Y: 1"])] * (rnd.random() < .1) + [busy(rnd)])
            if nb == 0 or c.get("parse", True):
                if rnd.random() < .1:
                    c["tmo"] = rnd.choice([200, 1000])
                    rs.append({"l": [], "final": False})
                elif rnd.random() < .15:
                    c["prompt"] = True
                    rs.append(rnd.choice([{"l": [], "prompt": True}, [final(rnd)], {"l": ["+Z: ERROR"], "prompt": True}]))
                else:
                    body = [rnd.choice(["+CSQ: 1,2", "ERROR 12", "MY ERROR", "+CME ERROR: x", "OK 1", "+CMS ERROR:14", "515"]) for _ in range(rnd.choice([0, 0, 1, 2]))]
                    rs.append(body + [final(rnd)])
            script[c["cmd"]] = rs
            if rnd.random() < .3:
                c["at"] = rnd.choice([0, 100, 300, 1000, 4000])
            cs.append(c)
        callers.append(cs)
    return {"callers": callers, "prof": {"script": script, "lat": rnd.choice([0, 10, 30]), "fmt": rnd.choice([0, 1])}, "sched": sched(rnd)}


if __name__ == "__main__":
    drvlib.main(globals())
