"""Waiting for network coverage with the real GsmModem (C16): registration and signal strength change while threads wait."""
import simsms
from simsms import *

HARD_EXIT = True
NOISE = ["+CREG: 1", "+CREG: 2", "^RSSI: 19", "+XYZ: 1,\"a\"", "+CREG: 5,\"00C3\",\"1A2B\""]
FORMS = ["+CREG: %d,%d", "+CREG: %d,%d", "+CREG:%d,%d", '+CREG: %d,%d,"1A2B","00C3"', '+CREG: %d,%d,"1A2B","00C3",7', '+CREG: %d,%d,00C3, 5F2A']


class SimCover(SimConn):
    """world: list of [from (ms), registration status, signal strength]; cannot: how registration queries fail"""
    def init(self):
        SimConn.init(self)
        self.world = [[0, 1, 20]]
        self.t0 = 0
        self.glitch = []

    def now(self):
        t = self.rec.at() - self.t0
        w = self.world[0]
        for x in self.world:
            if x[0] <= t:
                w = x
        return w

    def command(self, c):
        if c not in ("AT+CREG?", "AT+CSQ"):
            return SimConn.command(self, c)
        g = self.glitch.pop(0) if self.glitch else {}
        p = self.prof

        def creg():
            e = p.get("cannot")
            stat = self.now()[1]
            if g.get("busy"):
                self.rec.add("Creg", stat=-2, at=self.rec.at())
                return [g["busy"]]
            if e is not None:
                self.rec.add("Creg", stat=-1, at=self.rec.at())
                return [e] if e else ["OK"]
            self.rec.add("Creg", stat=stat, at=self.rec.at())
            f = p.get("cregfmt", FORMS[0])
            return [f % (2 if '"' in f else p.get("cregn", 0), stat), "OK"]

        def csq():
            e = g.get("err") or g.get("busy")
            if e:
                self.rec.add("Csq", ss=-3 if g.get("busy") else -2, line=e, at=self.rec.at())
                return [e]
            ss = self.now()[2]
            self.rec.add("Csq", ss=-1 if ss == 99 else ss, line="", at=self.rec.at())
            return [p.get("csqfmt", "+CSQ: %d,99") % ss, "OK"]
        if g.get("silent"):
            return Reply([], final=False)
        return Reply(d=g.get("d"), make=creg if c == "AT+CREG?" else csq)


def run(scn):
    w = World(scn, SimCover)
    rec = w.rec
    p = scn["prof"]
    m = gm.GsmModem("-")

    def caller(t, ops):
        for o in ops:
            w.point()
            if o["op"] == "sleep":
                w.sleep(o["ms"])
                continue
            tmo = o.get("tmo", -1)
            rec.add("Op", t=t, op=o["op"], cmd=o.get("cmd", ""), tmo=tmo, at=rec.at())
            try:
                if o["op"] == "wait":
                    v = m.waitForNetworkCoverage() if tmo < 0 else m.waitForNetworkCoverage(tmo / 1000.0 if o.get("frac", True) or tmo % 1000 else tmo // 1000)
                    rec.add("Ret", t=t, v=v if isinstance(v, int) and not isinstance(v, bool) else -9, at=rec.at())
                else:
                    m.write(o["cmd"])
                    rec.add("Ret", t=t, v=0, at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def main():
        m.connect()
        w.sim.glitch = [dict(x) for x in scn["glitch"]]
        for ph in scn["phases"]:
            del rec.ev[0 if ph is scn["phases"][0] else len(rec.ev):]
            n0 = sum(1 for t in w.s.threads if not t.done)
            w.sim.world, w.sim.t0 = ph["world"], rec.at()
            for n in ph["noise"]:
                w.sim.notify([n[1]], n[0])
            vts = w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(ph["ops"])])
            w.join(vts)
            w.sleep(200)
            rec.add("Look", n=sum(1 for t in w.s.threads if not t.done) - n0, at=rec.at())
        rec.skip.update(("Tx", "Rsp"))
        m.close()
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    single = all(len(ph["ops"]) == 1 for ph in scn["phases"])
    rough = not single or any("busy" in g or "silent" in g for g in scn["glitch"])
    return {"prof": {"threads": max(len(ph["ops"]) for ph in scn["phases"]), "slack": 9000 if rough else 100}, "ev": ev}


ERR = ["ERROR", "+CME ERROR: 30", "+CME ERROR: 3", "+CMS ERROR: 500", "COMMAND NOT SUPPORT", "+CME ERROR: 100"]
BUSYL = ["+CME ERROR: 515", "+CME ERROR: 14"]


def world(rnd, endless, b=None):
    """a history of registration and strength; with a waiter that never gives up it ends in coverage or refusal"""
    at, out = 0, []
    for x in b or [None] * rnd.choice([1, 1, 2, 3, 4, 6]):
        x = x or {}
        out.append([at, x.get("reg", rnd.choice([0, 1, 1, 1, 2, 2, 2, 2, 3, 4, 5, 5])), x.get("ss", rnd.choice([0, 99, 99, 1, 17, 31, 98]))])
        at += x.get("for", rnd.choice([1, 300, 1000, 1500, 2400, 5000, 20000]))
    if endless:
        out.append([at, rnd.choice([1, 5]), rnd.choice([1, 15, 31, 98])])
    return out


def gen(rnd, b=None):
    b = b or {}
    p = profile(rnd)
    p["user"] = {"pins": [""], "text": False, "smsc": ""}
    p["cregfmt"], p["cregn"] = rnd.choice(FORMS), rnd.choice([0, 1, 2])
    p["csqfmt"] = rnd.choice(["+CSQ: %d,99", "+CSQ: %d,0", "+CSQ:%d,99", "+CSQ: %d,7"])
    if b.get("cannot", rnd.random() < .2):
        p["cannot"] = rnd.choice(["", "ERROR", "ERROR", "+CME ERROR: 3", "+CME ERROR: 4", "COMMAND NOT SUPPORT", "+CMS ERROR: 302"])
    glitch = []
    q = rnd.random()
    for _ in range(30):
        g, x = {}, rnd.random()
        if q < .3 and x < .3:
            g["d"] = rnd.choice([0, 300, 900, 1500])
        elif .3 < q < .4 and x < .15:
            g["busy"] = rnd.choice(BUSYL)
        elif .4 < q < .5 and x < .1:
            g["err"] = rnd.choice(ERR)
        elif .5 < q < .53 and x < .1:
            g["silent"] = True
        glitch.append(g)
    phases = []
    for i in range(rnd.choice([1, 1, 2]) if "waits" not in b else 1):
        n = rnd.choice([1, 1, 1, 1, 2, 3])
        ops = []
        for t in range(n):
            o = {"op": "wait", "frac": rnd.random() < .5}
            if rnd.random() < .65:
                o["tmo"] = rnd.choice([0, 1, 500, 1000, 1001, 2500, 3000, 7000, 30000])
            l = [o]
            if rnd.random() < .15:
                l.insert(0, {"op": "sleep", "ms": rnd.choice([1, 500, 1700])})
            if t and rnd.random() < .4:
                l = [x for _ in range(rnd.choice([1, 4])) for x in ({"op": "cmd", "cmd": rnd.choice(["AT+CGMI", "AT", "AT+CIMI"])}, {"op": "sleep", "ms": rnd.choice([0, 10, 700])})]
            elif rnd.random() < .2:
                l.append({"op": "wait", "tmo": rnd.choice([500, 2000])})
            ops.append(l)
        if "waits" in b:
            ops = [[{"op": "wait", "tmo": x} if x >= 0 else {"op": "wait"} for x in l] for l in b["waits"]]
        endless = any(o["op"] == "wait" and "tmo" not in o for l in ops for o in l)
        phases.append({"ops": ops, "world": world(rnd, endless, b.get("world")), "noise": [[rnd.choice([1, 400, 1200, 2600]), rnd.choice(NOISE)] for _ in range(rnd.choice([0, 0, 1, 3]))]})
    return {"prof": p, "phases": phases, "glitch": glitch, "sched": sched(rnd)}


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("cover%s" % seed)
    n = {"quick": 900, "thorough": 12000}[tier]
    out = [dict(gen(rnd, b), src="tlc") for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
