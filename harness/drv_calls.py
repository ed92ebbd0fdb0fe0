"""Calls with the real GsmModem on modems of every family: outgoing (C13), incoming (C14), DTMF tones (C15)."""
import random
import simsms
from simsms import *

HARD_EXIT = True
NOISE = ["+CREG: 1", "^RSSI: 19", "+XYZ: 1,\"a\"", "^MODE: 5,4", "+CSSI: 1"]


class SimCalls(SimConn):
    def init(self):
        SimConn.init(self)
        self.fam = self.prof.get("fam", "poll")
        self.calls = {}            # id -> dict(dir, stat, num, type, ...)
        self.plans = []
        self.lastend = -10 ** 6
        self.atafail = list(self.prof.get("atafail", []))
        self.brief = list(self.prof.get("brief", []))
        self.athfail = list(self.prof.get("athfail", []))
        self.vts = list(self.prof.get("vts", []))
        self.clccfail = list(self.prof.get("clccfail", []))
        self.pending = None        # the call being set up, not announced yet
        self.stopped = False
        self.taken = lambda: set()  # identifiers of outgoing calls the library knows: not used again at once

    def now(self):
        return self.rec.at()

    def newid(self):
        i = 1
        while i in self.calls or self.fam == "poll" and i in self.taken():
            i += 1
        return i

    # -- outgoing ------------------------------------------------------------
    def atd(self, num):
        pl = self.plans.pop(0) if self.plans else {"k": "noinit"}
        k = pl["k"]
        if self.pending is not None:   # given up
            self.drop(self.pending)
            self.pending = None
        if self.fam == "poll":         # ... and so are calls nobody knows of
            for c in list(self.calls.values()):
                if c["dir"] == 0 and c["i"] not in self.taken():
                    self.drop(c)
        noans = self.fam in ("zte", "wavecom")
        if k == "err":
            return Reply([]) if noans else Reply([pl["e"]], d=pl.get("d"))
        if k == "silent" and not noans:
            return Reply([], final=False)
        if k == "noinit" and self.fam != "zte":
            return Reply([] if noans else ["OK"])
        i = self.newid()
        c = {"dir": 0, "stat": 2, "num": num, "type": pl.get("type", 0), "shown": False, "i": i}
        self.calls[i] = c
        self.pending = c
        init = pl.get("init", 0)
        r = Reply([] if noans else ["OK"], d=None if noans else pl.get("d"))
        base = pl.get("d") or self.lat

        def setup():
            if self.calls.get(i) is not c:
                return []
            c["shown"] = True
            if self.pending is c:
                self.pending = None
            self.after(c, pl)
            if self.fam == "huawei":
                self.rec.add("Setup", id=i, type=c["type"], at=self.now())
                return ["^ORIG:%d,%d" % (i, c["type"])]
            if self.fam == "wavecom":
                self.rec.add("Setup", id=i, type=1, at=self.now())
                return ["+WIND: 5,%d" % i] + (["+WIND: 2"] if pl.get("wind2") else [])
            return []
        c["setup"] = setup
        if self.fam == "zte":
            c["shown"] = True
            self.pending = None
            self.after(c, pl)
        elif self.fam == "poll":
            def appear():
                c["there"] = True
                self.after(c, pl)
            self.s.call_at((base + init) / 1000.0 + self.jitter(), appear)
        else:
            r.then = [(init, setup)]
        return r

    def after(self, c, pl):
        """the remote party answers and hangs up, or rejects the call"""
        t = 0
        if pl.get("conf") and self.fam == "huawei":
            self.notify(lambda: ["^CONF:%d" % c["i"]] if self.calls.get(c["i"]) is c else [], 5)
        if pl.get("ans") is not None:
            t = pl["ans"]
            self.notify(lambda: self.connect(c), t)
        if pl.get("end") is not None:
            self.notify(lambda: self.end(c, pl.get("reject", False)), t + pl["end"])

    def connect(self, c):
        if self.calls.get(c["i"]) is not c or c["stat"] == 0:
            return []
        c["stat"] = 0
        if self.fam == "poll":
            return []
        i = c["i"]
        if self.fam == "huawei":
            self.rec.add("Conn", id=i, at=self.now())
            return ["^CONN:%d,0" % i]
        if c["dir"] == 1:
            return []
        self.rec.add("Conn", id=0, at=self.now())
        return ["OK"] if self.fam == "wavecom" else ["CONNECT"]

    def end(self, c, reject=False):
        i = c["i"]
        if self.calls.get(i) is not c:
            return []
        del self.calls[i]
        self.lastend = self.now()
        if self.fam == "poll" or not c["shown"] or (c["dir"] == 1 and self.fam == "zte"):
            return []
        if self.fam == "huawei":
            self.rec.add("EndC", id=i, at=self.now())
            return ["^CEND:%d,%d,%d" % (i, self.rnd.choice([0, 7, 42, 3671]), self.rnd.choice([17, 104, 29])) + self.rnd.choice([",16", ",31", ""])]
        if self.fam == "wavecom":
            self.rec.add("EndC", id=i, at=self.now())
            return ["+WIND: 6,%d" % i]
        if c["stat"] == 2 and reject:
            self.rec.add("EndC", id=0, at=self.now())
            return ["OK"]
        self.rec.add("EndC", id=i, at=self.now())
        return [self.rnd.choice(["HANGUP: %d", "HANGUP:%d"]) % i]

    def drop(self, c):
        if self.calls.get(c["i"]) is c:
            del self.calls[c["i"]]
            self.lastend = self.now()

    def clcc(self):
        out, ls = [], []
        for i, c in sorted(self.calls.items()):
            if c["dir"] == 0 and not c.get("there"):
                continue
            f = self.prof.get("clccfmt", 0)
            out.append({"id": i, "dir": c["dir"], "stat": c["stat"], "type": c["type"]})
            base = "+CLCC: %d,%d,%d,%d,0" % (i, c["dir"], c["stat"], c["type"])
            n = (c["num"] or "")
            if f == 1:
                base = base.replace(": ", ":")
            if f == 2:
                ls.append(base + ',"%s",%d,"Bob"' % (n, 145 if n.startswith("+") else 129))
            elif f == 3:
                ls.append(base)
            elif f == 4:
                ls.append(base + ',"%s",%d,""' % (n, 129))
            else:
                ls.append(base + ',"%s",%d' % (n, 145 if n.startswith("+") else 129))
            if c["dir"] == 0:
                c["shown"] = True
                if self.pending is c:
                    self.pending = None
        self.rec.add("Clcc", l=out, at=self.now())
        return ls + ["OK"]

    # -- incoming ------------------------------------------------------------
    def ring(self, a, left, c=None):
        def go():
            if self.stopped:
                return []
            x = c
            if x is None:
                x = {"dir": 1, "stat": 4, "num": a["num"], "type": 0, "shown": True, "i": self.newid()}
                self.calls[x["i"]] = x
            elif self.calls.get(x["i"]) is not x or x["stat"] != 4:
                return []
            clip = "AT+CLIP" not in self.prof["unsup"]
            ext = a["ext"] and clip and "AT+CRC" not in self.prof["unsup"]
            first = ("+CRING:" + ("" if a.get("nosp") else " ") + a["type"]) if ext else "RING"
            num = a["num"] if clip else None
            lines = [first]
            if clip:
                if num is None:
                    if a.get("empty"):
                        lines.append('+CLIP: "",128,"",,"",1')
                else:
                    lines.append('+CLIP:%s"%s",%s%d%s' % ("" if a.get("nosp") else " ", num, " " if a.get("sp") else "", a["ton"], a.get("tail", "")))
            if a.get("noise"):
                lines = [a["noise"]] + lines if a.get("npre") else lines + [a["noise"]]
            self.rec.add("Ring", num=num or "", ton=str(a["ton"]) if num else "", type=a["type"] if ext else "", at=self.now())
            if left > 1:
                self.notify(self.ring(a, left - 1, x), a["gap"])
            elif a["end"]:
                self.notify(lambda: self.end(x) if x["stat"] == 4 else [], 700)
            if a.get("drop") and left <= 1:
                self.notify(lambda: self.end(x), 3000)
            return lines
        return go

    def command(self, c):
        ok = Reply(["OK"])
        if c.startswith("ATD"):
            return self.atd(c[3:].rstrip(";"))
        if c == "ATH":
            if self.athfail:
                e = self.athfail.pop(0)
                if e:
                    return Reply([e])

            def all_():
                for x in list(self.calls.values()):
                    if x is self.pending:
                        self.pending = None
                        self.drop(x)
                    else:
                        self.notify(lambda x=x: self.end(x), self.prof.get("endlag", 5))
                        if self.fam == "poll":
                            self.drop(x)
                return ["OK"]
            return Reply(make=all_)
        if c == "ATA":
            if self.atafail:
                e = self.atafail.pop(0)
                if e:
                    return Reply([e])
            for x in self.calls.values():
                if x["dir"] == 1 and x["stat"] == 4:
                    if self.fam == "huawei":
                        ok.then = [(3, lambda: self.connect(x))]
                    else:
                        x["stat"] = 0
                    d = self.brief.pop(0) if self.brief else None
                    if d is not None:           # the caller hangs up just then
                        ok.then = list(ok.then or []) + [(d, lambda x=x: self.end(x))]
                    break
            return ok
        if c == "AT+CLCC":
            if self.clccfail:
                e = self.clccfail.pop(0)
                if e:
                    return Reply([e])
            return Reply(make=self.clcc)
        if c.startswith(("AT+VTS", "AT^DTMF")):
            v = self.vts.pop(0) if self.vts else {}
            n = c.count("=")
            if v.get("silent"):
                return Reply([], final=False)
            return Reply([v.get("e", "OK")], d=None if "per" not in v else v["per"] * n + v.get("plus", 0))
        return SimConn.command(self, c)


FAM = {
    "huawei": [dict(clac="multi", commands=["+CMGF", "^DTMF", "+CREG"]), dict(clac="single", commands=["+CMGF", "^CVOICE", "^DTMF", "^USSDMODE"]),
               dict(clac="none", maker="huawei", unsup=["AT+WIND"]), dict(clac="single", commands=["+CMGF", "+VTS"], maker="Huawei")],
    "wavecom": [dict(clac="single", commands=["+CMGF", "+WIND", "+VTS"]), dict(clac="none")],
    "zte": [dict(clac="multi", commands=["+CMGF", "+ZPAS", "+VTS"]), dict(clac="none", unsup=["AT+WIND"], maker="ZTE CORPORATION"), dict(clac="single", commands=["+CMGF", "+VTS"], maker="ZTE")],
    "poll": [dict(clac="none", unsup=["AT+WIND", "AT+ZPAS"], maker="ACME"), dict(clac="multi", commands=["+CMGF", "+VTS", "+CLCC"], unsup=["AT+ZPAS"], maker="Nokia")],
}


def run(scn):
    w = World(scn, SimCalls)
    rec = w.rec
    p = scn["prof"]
    objs = []
    nth = max(len(ph) for ph in scn["phases"])
    cbops = [list(x) for x in scn.get("cbops", [])]
    pool = [nth + 1]
    holder = {}

    def num_of(c):
        for i, x in enumerate(objs):
            if x is c:
                return i + 1
        objs.append(c)
        return len(objs)

    def snap(c):
        d = {"id": int(c.id), "num": c.number or "", "active": bool(c.active), "answered": bool(c.answered), "type": -1 if c.type is None else c.type if isinstance(c.type, int) else 0,
             "tname": c.type if isinstance(c.type, str) else "", "inc": isinstance(c, gm.IncomingCall), "ringing": False, "rings": 0, "ton": ""}
        if d["inc"]:
            d.update(ringing=bool(c.ringing), rings=int(c.ringCount), ton=c.ton if isinstance(c.ton, str) else "" if c.ton is None else str(c.ton))
        return d

    def on_status(c):
        rec.add("Cb", o=num_of(c), c=snap(c), at=rec.at())

    def on_ring(c):
        rec.add("RingCb", o=num_of(c), c=snap(c), at=rec.at())
        if cbops:
            ops = cbops.pop(0)
            if ops:
                t = pool[0]
                pool[0] += 1
                rec.names[w.s.cur.name] = t
                try:
                    for op in ops:
                        act(t, dict(op, obj=c))
                finally:
                    del rec.names[w.s.cur.name]

    def act(t, o):
        m = holder["m"]
        op = o["op"]
        if op == "sleep":
            w.sleep(o["ms"])
            return
        if op == "dial":
            w.sleep(1)
            one = p["fam"] in ("zte", "wavecom")
            for _ in range(100):
                # modems that do not tell which call is meant, or use numbers again at once: one thing at a time
                free = True
                if one:
                    free = holder.setdefault("dialing", t) == t and not any(
                        c["dir"] == 0 and (c["stat"] != 0 or c["i"] not in w.sim.taken()) for c in list(w.sim.calls.values())) and not any(
                        x.active and not x.answered and not isinstance(x, gm.IncomingCall) for x in list(objs))
                if free and (p["fam"] == "poll" or rec.at() - w.sim.lastend >= 50 and not w.sim.busy):
                    break
                if holder.get("dialing") == t:
                    del holder["dialing"]
                w.sleep(100)
            else:
                return
            kw = {}
            if "tmo" in o:
                kw["timeout"] = o["tmo"] / 1000.0
            if o.get("cb"):
                kw["callStatusUpdateCallbackFunc"] = on_status
            rec.add("Op", t=t, op="dial", o=0, num=o["num"], tones=[], tmo=o.get("tmo", 5000), cb=bool(o.get("cb")), at=rec.at())
            try:
                c = m.dial(o["num"], **kw)
                rec.add("Ret", t=t, o=num_of(c), c=snap(c), at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())
                if w.sim.pending is not None:
                    w.sim.drop(w.sim.pending)
                    w.sim.pending = None
            finally:
                if holder.get("dialing") == t:
                    del holder["dialing"]
            return
        if op == "cmd":
            rec.add("Op", t=t, op="cmd", o=0, num=o["cmd"], tones=[], tmo=0, cb=False, at=rec.at())
            try:
                m.write(o["cmd"])
                rec.add("Done", t=t, at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())
            return
        c = o.get("obj")
        if c is None:
            cs = [x for x in objs if op != "answer" or isinstance(x, gm.IncomingCall)]
            if o.get("live"):
                cs = [x for x in cs if x.active] or cs
            if not cs:
                return
            c = cs[-1 - o.get("back", 0) % len(cs)]
        rec.add("Op", t=t, op=op, o=num_of(c), num="", tones=list(o.get("tones", "")), tmo=0, cb=False, at=rec.at())
        try:
            if op == "hangup":
                c.hangup()
            elif op == "answer":
                c.answer()
            else:
                c.sendDtmfTone(o["tones"])
            rec.add("Done", t=t, at=rec.at())
        except Exception as e:
            rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def caller(t, ops):
        for o in ops:
            w.point()
            act(t, o)

    def look():
        m = holder["m"]
        reg = [[int(k), num_of(c)] for k, c in sorted(m.activeCalls.items())]
        rec.add("Look", reg=reg, l=[snap(c) for c in objs], at=rec.at())

    def main():
        pr = scn.get("prior")
        if pr:
            old, w.sim.prof = w.sim.prof, pr
            w.sim.init()
            m0 = gm.GsmModem("-")
            m0.connect()
            m0.close()
            w.sim.prof = old
            w.sim.buf = ""
            w.sim.init()
        m = holder["m"] = gm.GsmModem("-", incomingCallCallbackFunc=on_ring)
        m.connect()
        w.sim.taken = lambda: set(x.id for x in list(m.activeCalls.values()) if not isinstance(x, gm.IncomingCall))
        del rec.ev[:]
        w.sim.plans = [dict(x) for x in scn["plans"]]
        t0 = rec.at()
        for a in scn.get("arrivals", []):
            w.sim.notify(w.sim.ring(a, a["rings"]), a["at"])
        for ph in scn["phases"]:
            w.join(w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(ph)]))
        last = max([a["at"] + a["rings"] * a["gap"] + 4000 for a in scn.get("arrivals", [])] + [0])
        w.until(t0 + last)
        w.sleep(scn.get("settle", 12000))
        look()
        rec.add("End", at=rec.at())
        w.sim.stopped = True
        rec.skip.update(("Tx", "Rsp", "Clcc", "Setup", "Conn", "EndC", "Ring", "Cb", "RingCb"))
        for c in list(m.activeCalls.values()):
            c.active = False
        w.sleep(700)
        m.close()
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    busy = any(x.get("e") in BUSYL for x in scn["plans"] + p.get("vts", []))
    return {"prof": {"fam": p["fam"], "threads": nth + 1 + len(scn.get("cbops", [])), "slack": 4000 if busy else 100, "dtmf": p["dtmf"]}, "ev": ev}


ERR = ["ERROR", "+CME ERROR: 30", "+CME ERROR: 3", "+CMS ERROR: 500", "COMMAND NOT SUPPORT", "+CME ERROR: 100", "+CME ERROR: 4", "+CME ERROR: 31", "+CME ERROR: 133", "+CMS ERROR: 30", "+CMS ERROR: 3"]
BUSYL = ["+CME ERROR: 515", "+CME ERROR: 14"]
NUMS = ["0123456789", "+27821234567", "112", "*100#", "+491701234567", "0829876543"]


def plan(rnd, b=None, easy=False):
    b = b or {}
    k = b.get("k") or rnd.choice(["ok"] * (30 if easy else 8) + ["err", "silent", "noinit", "busy"])
    if k == "err":
        return {"k": "err", "e": rnd.choice(ERR)}
    if k == "busy":
        return {"k": "err", "e": rnd.choice(BUSYL)}
    d = {"k": k, "type": rnd.choice([0, 0, 0, 1, 2]), "init": b.get("init", rnd.choice([0, 0, 1, 50, 600, 1500])), "conf": rnd.random() < .4, "wind2": rnd.random() < .5,
         "reject": rnd.random() < .5}
    if rnd.random() < .1:
        d["d"] = rnd.choice([0, 200, 900])
    a = b.get("ans", rnd.choice([None, 0, 1, 100, 1200, 2500] if not easy else [0, 1, 100, 1200]))
    e = b.get("end", rnd.choice([None, 0, 1, 300, 1800, 4000] if not easy else [None, None, 1800, 4000]))
    d["ans"] = None if a is not None and a < 0 else a
    d["end"] = None if e is not None and e < 0 else e
    return d


def arrival(rnd, at, b=None):
    b = b or {}
    num = b.get("num", rnd.choice(NUMS[:3] + ["+49123456789", None]))
    if num == "":
        num = None
    n = num or ""
    return {"at": at, "num": num, "ton": 145 if n.startswith("+") else rnd.choice([129, 161]), "type": rnd.choice(["VOICE"] * 5 + ["FAX", "ASYNC", "REL ASYNC", "SYNC"]),
            "ext": b.get("ext", rnd.random() < .75), "nosp": rnd.random() < .15, "sp": rnd.random() < .15, "empty": rnd.random() < .5, "tail": rnd.choice(["", ",,,,0", ',"",,"",0', ",,,\"Bob\",0"]),
            "gap": b.get("gap", rnd.choice([600, 1000, 3000])), "rings": b.get("rings", rnd.choice([1, 1, 2, 3, 5])), "end": b.get("end", rnd.random() < .6), "drop": rnd.random() < .3,
            "noise": rnd.choice(NOISE) if rnd.random() < .2 else "", "npre": rnd.random() < .5}


def family(rnd, p, fam):
    f = rnd.choice(FAM[fam])
    p.update(fam=fam, unsup=list(f.get("unsup", [])), **{k: v for k, v in f.items() if k != "unsup"})
    p["dtmf"] = "^DTMF=" if fam == "huawei" else "+VTS="
    return p


def gen(rnd, part, b=None):
    b = b or {}
    p = profile(rnd)
    p["user"] = {"pins": [""], "text": False, "smsc": ""}
    fam = b.get("fam") or rnd.choice(["huawei", "huawei", "wavecom", "zte", "poll", "poll"])
    family(rnd, p, fam)
    p["clccfmt"] = rnd.randrange(5)
    p["endlag"] = rnd.choice([1, 5, 200])
    p["brief"] = [rnd.choice([0, 1, 2, 6, None]) for _ in range(3)] if rnd.random() < .3 else []
    arr = []
    nops = {"out": [1, 2, 3, 4], "in": [0, 1, 2, 3], "dtmf": [2, 3, 4]}[part]
    ringing = part == "in" or bool(b.get("arrivals")) or (fam == "huawei" and rnd.random() < .2)
    if ringing:
        if rnd.random() < .15:
            p["unsup"] = p["unsup"] + [rnd.choice(["AT+CLIP", "AT+CRC"])]
        at = 0
        for _ in range(rnd.choice([1, 1, 2, 3, 4])):
            at += rnd.choice([1, 500, 1500, 5000])
            arr.append(arrival(rnd, at))
    phases = []
    for _ in range(rnd.choice([1, 1, 2])):
        ph = []
        for t in range(rnd.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rnd.choice(nops)):
                x = rnd.random()
                if x < .08:
                    ops.append({"op": "cmd", "cmd": rnd.choice(["AT+CSQ", "AT+CREG?"])})
                if rnd.random() < .5:
                    ops.append({"op": "sleep", "ms": rnd.choice([1, 10, 100, 700, 1500, 4000])})
                y = rnd.random()
                sel = {"back": rnd.choice([0, 0, 1, 2]), "live": rnd.random() < .7}
                dial = {"op": "dial", "num": rnd.choice(NUMS), "cb": rnd.random() < .75}
                if rnd.random() < .5:
                    dial["tmo"] = rnd.choice([2000, 2500, 5000])
                if part == "out":
                    o = dial if y < .5 else dict(sel, op="hangup") if y < .9 else dict(sel, op="dtmf", tones="1")
                elif part == "in":
                    o = dict(sel, op="answer") if y < .4 else dict(sel, op="hangup") if y < .75 else dict(sel, op="dtmf", tones="12") if y < .85 or fam in ("zte", "wavecom") else dial
                else:
                    o = dial if y < .3 else dict(sel, op="dtmf", tones="".join(rnd.choice("0123456789*#ABCDabcd") for _ in range(rnd.choice([1, 1, 2, 3, 8, 20])))) if y < .85 else dict(sel, op="hangup")
                ops.append(o)
            if part == "dtmf" and rnd.random() < .7:
                ops.insert(0, {"op": "dial", "num": rnd.choice(NUMS), "cb": False})
                ops.insert(1, {"op": "sleep", "ms": rnd.choice([100, 700, 2500])})
            ph.append(ops)
        phases.append(ph)
    if rnd.random() < .2:
        p["athfail"] = [rnd.choice(["", "ERROR", "+CME ERROR: 3"]) for _ in range(2)]
    if rnd.random() < .2:
        p["atafail"] = [rnd.choice(["", "ERROR", "+CME ERROR: 3"]) for _ in range(2)]
    if rnd.random() < .2:
        p["clccfail"] = [rnd.choice(["", "", "ERROR", "+CME ERROR: 3"]) for _ in range(5)]
    vts = []
    for _ in range(12):
        y = rnd.random()
        if y < (.6 if part == "dtmf" else .9):
            vts.append({"per": rnd.choice([0, 100, 1000]), "plus": rnd.choice([0, 10, 3500])} if rnd.random() < .6 else {})
        elif y < .95:
            vts.append({"e": rnd.choice(["+CME ERROR: 30", "+CME ERROR: 3"] * 4 + ERR + BUSYL[:1])})
        else:
            vts.append({"silent": True})
    p["vts"] = vts
    scn = {"prof": p, "phases": b.get("phases") or phases, "plans": b.get("plans") or [plan(rnd, easy=part == "dtmf") for _ in range(20)], "arrivals": b.get("arrivals", arr),
           "cbops": [], "sched": sched(rnd), "settle": 12000}
    if ringing:      # after a busy reply commands take longer, and whether a ring belongs to the call being hung up is anybody's guess
        for x in scn["plans"] + p["vts"]:
            if x.get("e") in BUSYL:
                x["e"] = "ERROR"
        scn["cbops"] = b.get("cbops") or [rnd.choice([[], [], [{"op": "answer"}], [{"op": "hangup"}], [{"op": "answer"}, {"op": "sleep", "ms": 300}, {"op": "hangup"}], [{"op": "answer"}, {"op": "dtmf", "tones": "5#"}]]) for _ in range(8)]
    if rnd.random() < (.4 if part == "dtmf" else .1):
        q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
        scn["prior"] = family(rnd, q, rnd.choice(["huawei", "poll", "wavecom", "zte"]))
    return scn


def from_spec(b, rnd, part):
    """b: the modem family, what the users do, how the network treats each call, who calls in"""
    phases = [[[dict(o, num=rnd.choice(NUMS), cb=True) if o["op"] == "dial" else o for o in ops] for ops in ph] for ph in b["phases"]]
    at, arr = 0, []
    for a in b["arrivals"]:
        at += a["gap0"]
        arr.append(arrival(rnd, at, a))
    if part == "out" and b["fam"] != "huawei" or part == "dtmf":
        arr = []
    if part == "in" and b["fam"] in ("zte", "wavecom"):
        phases = [[[o for o in ops if o["op"] != "dial"] for ops in ph] for ph in phases]
    return dict(gen(rnd, part, {"fam": b["fam"], "phases": phases, "plans": [plan(rnd, x) for x in b["plans"]], "arrivals": arr}), src="tlc")


def scenarios(tier, seed, extra, part="out"):
    rnd = random.Random("calls%s%s" % (seed, part))
    n = {"quick": 640, "thorough": 8000}[tier]
    out = [from_spec(b, rnd, part) for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd, part))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
