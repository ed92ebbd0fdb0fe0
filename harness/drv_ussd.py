"""USSD requests, replies and cancellations from several threads with the real GsmModem (C12)."""
import simsms
from simsms import *

HARD_EXIT = True
NOISE = ["+CREG: 1", "^RSSI: 19", "+CSSU: 2", "+XYZ: 1,\"a\"", "^MODE: 5,4", "+CMTI: \"SM\",3", "+CDSI: \"SM\",5", "+CDSI: \"SM\",12"]


def fmt(m, text, f):
    """a +CUSD line as modems write it"""
    if text is None:
        return ["+CUSD: %d", "+CUSD:%d", "+CUSD: %d ", "+CUSD: %d,"][f["bare"] % 4] % m
    return ("+CUSD:" + ("" if f.get("nosp") else " ") + "%d," + (" " if f.get("sp") else "") + '"%s"' + ("" if f.get("nodcs") else "," + (" " if f.get("sp") else "") + str(f.get("dcs", 15)))) % (m, text)


class SimUssd(SimConn):
    def init(self):
        SimConn.init(self)
        self.gen = 0
        self.plans = []
        self.open = False

    def ans(self, pl):
        m, f = pl["m"], pl["f"]
        rel = pl.get("rel", "")
        main = fmt(m, pl["text"], f)
        extra = fmt(2, pl.get("reltext"), f)
        lines = [extra, main] if rel == "first" else [main, extra] if rel == "last" else [main]
        self.open = m == 1 and rel not in ("first", "last")
        self.rec.add("Ans", m=m, rel=rel in ("first", "last"), text=clean(pl["text"] or ""), at=self.rec.at())
        if rel == "later":
            g = self.gen

            def release():
                if g != self.gen:
                    return []
                self.open = False
                self.rec.add("Rel", at=self.rec.at())
                return [extra]
            self.notify(release, pl["reld"])
        return lines

    def command(self, c):
        if c == "AT+CUSD=2":
            if self.prof.get("cancelerr"):
                e = self.prof["cancelerr"].pop(0)
                if e:
                    return Reply([e])
            self.gen += 1
            self.open = False
            return Reply(["OK"])
        if not c.startswith("AT+CUSD=1,"):
            return SimConn.command(self, c)
        pl = self.plans.pop(0) if self.plans else {"k": "none"}
        k = pl["k"]
        self.gen += 1
        g = self.gen
        if k == "err":
            return Reply([pl["e"]])
        if k == "silent":
            return Reply([], final=False)
        if k == "none":
            return Reply(["OK"], d=pl.get("d"))
        if k == "before":
            return Reply(d=pl.get("d"), make=lambda: self.ans(pl) + ["OK"])

        def later():
            if g != self.gen:
                return []
            ls = self.ans(pl)
            n = pl.get("noise")
            if n:
                ls = [n[1]] + ls if n[0] == "pre" else ls + [n[1]]
            return ls
        return Reply(["OK"], d=pl.get("d"), then=[(pl["delay"], later)])


def run(scn):
    w = World(scn, SimUssd)
    rec = w.rec
    p = scn["prof"]
    m = gm.GsmModem("-")
    objs = []

    def caller(t, ops):
        mine = []
        for o in ops:
            w.point()
            op = o["op"]
            if op == "sleep":
                w.sleep(o["ms"])
                continue
            ref = 0
            if op in ("reply", "cancel"):
                c = objs if o.get("any") else [x for x in objs if x[2] == t]
                if not c:
                    continue
                ref = c[-1 - o.get("back", 0) % len(c)][0]
            tmo = o.get("tmo", 15000)
            if op == "reply":
                tmo = 15000
            rec.add("Op", t=t, op=op, o=ref, text=o.get("text", ""), tmo=tmo, at=rec.at())
            try:
                if op in ("send", "reply"):
                    if op == "send":
                        u = m.sendUssd(o["text"], responseTimeout=tmo / 1000.0) if "tmo" in o else m.sendUssd(o["text"])
                    else:
                        u = objs[ref - 1][1].reply(o["text"])
                    objs.append((len(objs) + 1, u, t))
                    rec.add("Ret", t=t, o=len(objs), active=bool(u.sessionActive), msg=clean(u.message) if isinstance(u.message, str) else "?" + str(u.message), at=rec.at())
                else:
                    if op == "cancel":
                        objs[ref - 1][1].cancel()
                    else:
                        m.write(o["text"])
                    rec.add("Done", t=t, at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def main():
        m.connect()
        w.sim.plans = [dict(x) for x in scn["plans"]]
        del rec.ev[:]
        for ph in scn["phases"]:
            w.join(w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(ph)]))
            w.sleep(2500)
            rec.add("Look", l=[{"o": o, "active": bool(u.sessionActive)} for o, u, _ in objs])
        rec.add("End")
        rec.skip.update(("Tx", "Rsp", "Ans", "Rel"))
        m.close()
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    busy = any(x.get("e") in BUSYL for x in scn["plans"])
    return {"prof": {"threads": max(len(ph) for ph in scn["phases"]), "slack": 3000 if busy else 100, "tol": 2}, "ev": ev}


ERR = ["ERROR", "+CME ERROR: 258", "+CME ERROR: 3", "+CMS ERROR: 500", "COMMAND NOT SUPPORT", "+CME ERROR: 30"]
BUSYL = ["+CME ERROR: 515", "+CME ERROR: 14"]
LINES = ["Your balance is R12.50", "1 Data", "2. \"Bundles\", 15 only", "OK then", "", "Dial *100#", "a,b,\"c\",1 foo", "(end", "x", "0: Back", "ERRORS", "Call +27821234567",
         "RING me back", "line with NO CARRIER", "19:00, 20:00", " padded "]


def answer_text(rnd):
    x = rnd.random()
    if x < .08:
        return None
    if x < .13:
        return ""
    n = rnd.choice([1, 1, 1, 2, 3, 4])
    ls = [rnd.choice([l for l in LINES if l]) for _ in range(n)]
    eol = rnd.choice(["\r\n", "\r\n", "\n"])
    return eol.join(ls)


def plan(rnd, b=None):
    b = b or {}
    k = b.get("k") or rnd.choice(["after"] * 6 + ["before"] * 3 + ["err", "none", "silent", "busy"])
    if k == "err":
        return {"k": "err", "e": rnd.choice(ERR)}
    if k == "busy":
        return {"k": "err", "e": rnd.choice(BUSYL)}
    if k in ("none", "silent"):
        return {"k": k}
    text = answer_text(rnd)
    f = {"bare": rnd.randrange(4), "nosp": rnd.random() < .2, "sp": rnd.random() < .2, "nodcs": rnd.random() < .15, "dcs": rnd.choice([0, 1, 15, 17, 68, 72])}
    if text == "" or (text and (f["nodcs"] and any(l.rstrip().endswith('"') or l.rstrip().endswith(",") for l in text.replace("\r", "").split("\n")))):
        f["nodcs"] = False
    if k == "before" and text:
        # lines that would end the response are not told from its text
        text = "\r\n".join(l for l in text.replace("\r", "").split("\n") if not l.startswith(("OK", "ERROR")))
    d = {"k": k, "m": b.get("m", rnd.choice([0, 0, 1, 1, 1, 2, 4, 5])), "text": text, "f": f}
    rel = b.get("rel", rnd.choice(["", "", "", "first", "last", "later"]))
    if d["m"] == 2 and rel in ("first", "last"):
        rel = ""
    d["rel"] = rel
    if rel:
        d["reltext"] = rnd.choice([None, None, "", "Session ended"])
        d["reld"] = rnd.choice([1, 20, 300, 1500])
        if d["reltext"] == "":
            d["f"]["nodcs"] = False
    if k == "after":
        d["delay"] = b.get("delay", rnd.choice([0, 0, 1, 5, 100, 900, 1500, 3000]))
        if rnd.random() < .25:
            n = rnd.choice(NOISE)
            d["noise"] = [rnd.choice(["pre", "post"]), n]
    if rnd.random() < .15:
        d["d"] = rnd.choice([0, 200, 900])
    return d


def gen(rnd, part="", b=None):
    b = b or {}
    p = profile(rnd)
    p["user"] = {"pins": [""], "text": False, "smsc": ""}
    phases = []
    for _ in range(rnd.choice([1, 2, 3])):
        ph = []
        for t in range(rnd.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rnd.choice([1, 2, 3, 4])):
                x = rnd.random()
                if x < .1:
                    ops.append({"op": "cmd", "text": rnd.choice(["AT+CSQ", "AT+CREG?"])})
                elif x < .3:
                    ops.append({"op": "sleep", "ms": rnd.choice([1, 10, 100, 1000, 2000])})
                y = rnd.random()
                txt = rnd.choice(["*100#", "*#06#", "1", "2", "*130*1#", "Hello, world", "*100*123456789012345#"])
                if y < .45:
                    o = {"op": "send", "text": txt}
                    if rnd.random() < .6:
                        o["tmo"] = rnd.choice([1000, 1000, 2000, 15000])
                elif y < .8:
                    o = {"op": "reply", "text": txt, "any": rnd.random() < .3, "back": rnd.choice([0, 0, 0, 1, 2])}
                else:
                    o = {"op": "cancel", "any": rnd.random() < .3, "back": rnd.choice([0, 0, 1])}
                ops.append(o)
            ph.append(ops)
        phases.append(ph)
    if rnd.random() < .15:
        p["cancelerr"] = [rnd.choice(["", "ERROR", "+CME ERROR: 3"]) for _ in range(3)]
    return {"prof": p, "phases": b.get("phases") or phases, "plans": b.get("plans") or [plan(rnd) for _ in range(30)], "sched": sched(rnd)}


def from_spec(b, rnd):
    phases = [[[dict(o, text="*1#") if o["op"] == "send" else dict(o, text="1") for o in ops] for ops in ph] for ph in b["phases"]]
    return dict(gen(rnd, "", {"phases": phases, "plans": [plan(rnd, x) for x in b["plans"]]}), src="tlc")


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("ussd%s" % seed)
    n = {"quick": 640, "thorough": 8000}[tier]
    out = [from_spec(b, rnd) for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
