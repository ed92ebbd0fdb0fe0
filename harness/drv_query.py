"""Queries and settings of the real GsmModem (C17): every response format, refusals, settings before and after connecting."""
import simsms
from simsms import *

HARD_EXIT = True
QUERIES = ["signalStrength", "manufacturer", "model", "revision", "imei", "imsi", "networkName", "supportedCommands"]
ERR = ["ERROR", "+CME ERROR: 30", "+CME ERROR: 3", "+CMS ERROR: 500", "COMMAND NOT SUPPORT", "+CME ERROR: 100", "+CMS ERROR: 330", "+CMS ERROR: 302"]
BUSYL = ["+CME ERROR: 515", "+CME ERROR: 14"]
NOISE = ["+CREG: 1", "^RSSI: 19", "+XYZ: 1,\"a\"", "+CSQ: 3,99", '+COPS: 0,0,"Other"']
COPS = ['+COPS: 0,0,"%s"', '+COPS: 0,0,"%s",2', '+COPS: 1,2,"%s",0', '+COPS:0,0,"%s"', '+COPS: 0,0,"%s",']
CMD = {"AT+CSQ": "signalStrength", "AT+CGMI": "manufacturer", "AT+CGMM": "model", "AT+CGMR": "revision", "AT+CGSN": "imei", "AT+CIMI": "imsi", "AT+COPS?": "networkName", "AT+CLAC": "supportedCommands"}


class SimQuery(SimConn):
    def init(self):
        SimConn.init(self)
        self.text_mode = False
        self.told = False          # connecting is over: answers follow the scenario
        self.plans = []

    def command(self, c):
        if c.startswith("AT+CMGF="):
            if self.told:
                g = self.glitch()
                if g is not None:
                    return g
            self.text_mode = c[8:] == "1"
            return Reply(["OK"])
        if not self.told:
            return SimConn.command(self, c)
        if c.startswith("AT+CSCA"):
            g = self.glitch()
            return SimConn.command(self, c) if g is None else g
        q = CMD.get(c)
        if q is None:
            return SimConn.command(self, c)
        g = self.glitch()
        if g is not None:
            return g
        a = self.plan.get(q) or {}

        def val(v, lines, d=None):
            def make():
                self.rec.add("Val", v=v)
                return lines
            return Reply(make=make, d=self.plan.get("d"))
        if q == "signalStrength":
            return val([str(-1 if a["v"] == 99 else a["v"])], [a["f"] % a["v"], "OK"])
        if q == "networkName":
            return val([], [a["f"], "OK"] if a["f"] else ["OK"]) if a["v"] is None else val([a["v"]], [a["f"] % a["v"], "OK"])
        if q == "supportedCommands":
            cs = a["v"]
            if cs is None:
                return val([], ["OK"])
            return val(cs, {"single": ["+CLAC: " + ",".join(cs)], "singlesp": ["+CLAC:" + ", ".join(cs)], "singlenp": [",".join(cs)],
                            "multi": list(cs), "multicr": [x + "\r" for x in cs]}[a["f"]] + ["OK"])
        if a["v"] is None:         # nothing to say
            return val([], ["OK"])
        return val([a["v"]], [a["v"]] + a.get("more", []) + ["OK"])

    def glitch(self):
        self.plan = self.plans.pop(0) if self.plans else dflt(self.rnd)
        e = self.plan.get("e")
        if e == "silent":
            return Reply([], final=False)
        return None if e is None else Reply([e], d=self.plan.get("d"))


def answers(rnd):
    cmds = rnd.sample(["&C", "D", "E", "S0", "+CGMI", "+CMGF", "+CPMS", "^DTMF", "+CREG", "\\S", "Z", "+VTS", "+CSQ", "*CSP", "%CPI"], rnd.choice([1, 2, 3, 9]))
    f = rnd.choice(["single", "singlesp", "singlenp", "multi", "multicr"])
    name = rnd.choice(["Vodacom-SA", "T-Mobile D", "65501", "A,B", "O2 - de", "E-Plus \"E\"", "Orange F", "X"])
    return {"signalStrength": {"v": rnd.choice([0, 1, 5, 10, 17, 31, 98, 99, 99]), "f": rnd.choice(["+CSQ: %d,99", "+CSQ: %d,0", "+CSQ:%d,99", "+CSQ: %d,7"])},
            "manufacturer": {"v": rnd.choice(["huawei", "WAVECOM MODEM", "Nokia", "SIERRA WIRELESS INC.", "ZTE CORPORATION", "a,b: 1"])},
            "model": {"v": rnd.choice(["K3715", "MULTIBAND  900E  1800", "E160", "Nokia N79", "+CGMM: \"x\",1"])},
            "revision": {"v": rnd.choice(["11.104.05.01.00", "R7.43.0.201003050914.GL6110 2131816", "x", None])},
            "imei": {"v": rnd.choice(["359010033005505", "010000000000001"])}, "imsi": {"v": rnd.choice(["655013958520132", "001010123456789"])},
            "networkName": {"v": None, "f": rnd.choice(["", "+COPS: 0", "+COPS: 2"])} if rnd.random() < .3 else {"v": name, "f": rnd.choice(COPS)},
            "supportedCommands": {"v": None} if rnd.random() < .15 else {"v": cmds, "f": f}}


def dflt(rnd):
    return answers(rnd)


def lst(v):
    if v is None:
        return []
    if isinstance(v, (list, tuple)):
        return [x if isinstance(x, str) else "?" + repr(x) for x in v]
    return [str(v)]


def run(scn):
    w = World(scn, SimQuery)
    rec = w.rec
    p = scn["prof"]
    m = gm.GsmModem("-")
    sim = w.sim

    def one(t, o):
        q = o["op"]
        v = o.get("v")
        rec.add("Op", t=t, q=q, v=[] if v is None else [str(int(v)) if q == "set mode" else v], at=rec.at())
        try:
            if q == "set smsc":
                m.smsc = v
                r = []
            elif q == "set mode":
                m.smsTextMode = v
                r = []
            elif q == "mode":
                x = m.smsTextMode
                r = [str(int(x))] if x in (0, 1) else lst(x)
            elif q == "smsc":
                r = lst(m.smsc)
            else:
                r = lst(getattr(m, q))
            rec.add("Ret", t=t, v=r, at=rec.at())
        except Exception as e:
            rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def caller(t, ops):
        for o in ops:
            w.point()
            if o["op"] == "sleep":
                w.sleep(o["ms"])
            else:
                one(t, o)

    def main():
        sim.plans = [dict(x) for x in scn["plans"]]
        for ph in scn["phases"]:
            caller(1, ph["pre"])
            sim.told = False
            rec.skip.update(("Tx", "Rsp", "Val"))
            m.connect()
            rec.skip.clear()
            rec.add("Connected", csca=[sim.csca] if sim.csca else [], mode=[str(int(sim.text_mode))])
            sim.told = True
            for n in ph["noise"]:
                sim.notify([n[1]], n[0])
            w.join(w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(ph["ops"])]))
            rec.add("Look", csca=[sim.csca] if sim.csca else [], mode=[str(int(sim.text_mode))])
            m.close()
            sim.buf = ""
            rec.add("Closed")
            sim.text_mode = False if ph.get("cycle") else sim.text_mode
    rec.skip.update(("Tx", "Rsp", "Val"))
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    return {"prof": {"threads": max(len(ph["ops"]) for ph in scn["phases"]), "readable": p["cscaform"] != "error"}, "ev": ev}


NUM = ["+27829135930", "+447785016005", "0830000", "+1"]


def gen(rnd, b=None):
    b = b or {}
    p = profile(rnd)
    p["user"] = {"pins": [""], "text": False, "smsc": ""}
    p["csca"] = rnd.choice(NUM + ["", ""])
    p["cscaform"] = b.get("csca") or rnd.choice(["ok", "ok", "ok", "330", "nothing", "error"])
    p["cscaerr"] = rnd.choice([302, 303, 500])
    p["cscafmt"] = rnd.choice(['+CSCA: "%s",145', '+CSCA: "%s",145', '+CSCA:"%s",129'])
    p["csmpdrops"] = p["cscaform"] != "error" and rnd.random() < .2
    wsmsc = [False]

    def op(dead=False):
        x = rnd.random()
        if x < .3:
            wsmsc[0] = wsmsc[0] or dead
            return {"op": "set smsc", "v": rnd.choice(NUM[:3])}
        if x < .55:
            return {"op": "set mode", "v": rnd.choice([True, False])}
        if x < .7:
            return {"op": "mode"}
        if not dead or wsmsc[0]:
            return {"op": "smsc"}
        return {"op": "mode"}
    phases = []
    if "phases" in b:
        for ph in b["phases"]:
            phases.append({"pre": [fill(rnd, o) for o in ph["pre"]], "ops": [[fill(rnd, o) for o in ph["ops"]]], "cycle": rnd.random() < .5, "noise": []})
    else:
        for i in range(rnd.choice([1, 1, 2, 3])):
            pre = [op(True) for _ in range(rnd.choice([0, 0, 1, 2, 4]))]
            ops = [[op() if rnd.random() < .5 else {"op": rnd.choice(QUERIES)} for _ in range(rnd.choice([2, 5, 10]))]]
            for _ in range(rnd.choice([0, 0, 0, 1, 2])):
                ops.append([x for _ in range(rnd.choice([2, 4])) for x in ([{"op": "sleep", "ms": rnd.choice([0, 5, 100])}, {"op": rnd.choice(QUERIES)}])])
            phases.append({"pre": pre, "ops": ops, "cycle": rnd.random() < .5, "noise": [[rnd.choice([1, 30, 60]), rnd.choice(NOISE)] for _ in range(rnd.choice([0, 0, 1, 3]))]})
    plans = []
    q = rnd.random()
    for i in range(60):
        a = answers(rnd)
        k = b["fails"][i] if i < len(b.get("fails", [])) else "err" if q < .7 and rnd.random() < .25 else "busy" if .6 < q < .8 and rnd.random() < .15 else "silent" if q > .93 and rnd.random() < .1 else ""
        if k == "err":
            a["e"] = rnd.choice(ERR)
        elif k == "busy":
            a["e"] = rnd.choice(BUSYL)
        elif k == "silent":
            a["e"] = "silent"
        if rnd.random() < .1:
            a["d"] = rnd.choice([0, 300, 1500])
        plans.append(a)
    return {"prof": p, "phases": phases, "plans": plans, "sched": sched(rnd, light=all(len(ph["ops"]) == 1 for ph in phases))}


def fill(rnd, o):
    if o["op"] == "set smsc":
        return {"op": "set smsc", "v": NUM[o["i"]]}
    if o["op"] == "set mode":
        return {"op": "set mode", "v": bool(o["i"] % 2)}
    if o["op"] == "query":
        return {"op": rnd.choice(QUERIES)}
    return {"op": o["op"]}


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("query%s" % seed)
    n = {"quick": 1500, "thorough": 15000}[tier]
    out = [dict(gen(rnd, b), src="tlc") for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
