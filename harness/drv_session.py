"""Connections one after the other with one GsmModem object: to the same modem or to others (C29)."""
import random
import simsms
from simsms import *
from drv_calls import SimCalls, NUMS, family, arrival, plan
from drv_connect import gen as conn_profile

HARD_EXIT = True
TEXTS = ["hello", "Grüße {x}", "second line?", "0123456789" * 3, "@"]
PARTS = ["RING\r\n+CL", "+CRING: VOICE\r\n+CLIP: \"0", "+CMTI: \"%s\",%d\r\n+CM", "+CREG: 1\r\n^RS", "+XYZ: 1,2\r\nR", "+CUSD: 1,\"old", "RI", "OK\r\n+C", "^CONN:1,0\r\n^", "^CEND:1,0,29\r\n^", "HANGUP: 1\r\nH", "CONNECT\r\nx",
         "+WIND: 6,1\r\n+", "+CMGS: 7\r\nO", "+CMT"]


class EpRec(object):
    """what one modem's connection adds to the record: nothing any more once it has ended"""
    def __init__(self, rec, ep):
        self.rec, self.ep, self.dead = rec, ep, False

    def __getattr__(self, n):
        return getattr(self.rec, n)

    def add(self, k, **kw):
        if k == "Tx" or not self.dead:
            self.rec.add(k, ep=self.ep, **kw)


class EpDev(object):
    def __init__(self, dev):
        self.dev, self.port = dev, None

    @property
    def q(self):
        return self.dev.q


class Nowhere(object):
    def push(self, text):
        pass


class SimSession(SimCalls, SimSms):
    def init(self):
        SimSms.init(self)
        SimCalls.init(self)
        self.sel = self.prof["mems"][0]
        self.changed = -10 ** 6
        self.texts = list(self.prof["utexts"])

    def ring(self, a, left, c=None):
        f = SimCalls.ring(self, a, left, c)

        def go():
            if not self.rec.dead:
                self.changed = self.now()
            return [] if self.rec.dead else f()
        return go

    def connect(self, c):
        st = c["stat"]
        r = SimCalls.connect(self, c)
        if st != 0 and c["stat"] == 0:
            self.changed = self.now()
            self.rec.add("Answered", id=c["i"], dir=c["dir"], at=self.now())
        return r

    def end(self, c, reject=False):
        if self.calls.get(c["i"]) is c:
            self.changed = self.now()
            self.rec.add("Ended", id=c["i"], dir=c["dir"])
        return SimCalls.end(self, c, reject)

    def drop(self, c):
        if self.calls.get(c["i"]) is c:
            self.changed = self.now()
            self.rec.add("Ended", id=c["i"], dir=c["dir"])
        SimCalls.drop(self, c)

    def atd(self, num):
        r = SimCalls.atd(self, num)
        c = [x for x in self.calls.values() if x["dir"] == 0]
        if c:
            self.changed = self.now()
            self.rec.add("Made", id=c[-1]["i"], num=num)
        return r

    def command(self, c):
        p = self.prof
        if c == "AT+CSQ":
            return Reply(["+CSQ: %d,99" % p["csq"], "OK"])
        if c == "AT+CIMI":
            return Reply([p["imsi"], "OK"])
        if c == "AT+CGMM":
            return Reply([p["model"], "OK"])
        if c.startswith("AT+CUSD=1,"):
            t = self.texts.pop(0) if self.texts else "none"
            m = 1 if len(t) % 2 else 0
            self.rec.add("Ans", text=clean(t), m=m)
            lines = ['+CUSD: %d,"%s",15' % (m, t)]
            if p.get("uearly"):
                return Reply(lines + ["OK"])
            return Reply(["OK"], then=[(p["udelay"], lambda: lines)])
        if c == "AT+CUSD=2":
            return Reply(["OK"])
        if c == "ATZ":
            self.text_mode = bool(p.get("zmode"))
        if c.startswith(("AT+CMGF=", "AT+CMGS=", "AT+CMGR=", "AT+CMGL=", "AT+CMGD=", "AT+CPMS=")):
            r = SimSms.command(self, c)
            if c.startswith("AT+CMGD=") and r.lines[-1] == "OK":
                self.rec.add("Gone", mem=self.sel, i=int(c[8:].split(",")[0]))
            return r
        before = [x for x in self.calls.values() if x["stat"] != 0]
        r = SimCalls.command(self, c)
        for x in before:
            if c == "ATA" and x["stat"] == 0:
                self.changed = self.now()
                self.rec.add("Answered", id=x["i"], dir=x["dir"], at=self.now())
        return r

    def put_sms(self, mem, text, ann, index=None):
        m = {"kind": "deliver", "stat": 0 if ann else 1, "num": "+27831234567", "text": text, "time": T0}
        i = self.put(mem, m, index)
        self.rec.add("Put", mem=mem, i=i, text=cps(text), ann=ann)
        return i


def run(scn):
    w = World(scn)
    rec = w.rec
    s = w.s
    eps = scn["eps"]
    objs, uss = [], []
    cur = {"sim": None, "ep": 0}
    m = gm.GsmModem("-", baudrate=115200)

    def factory(*a, **k):
        sim = cur["sim"]
        p = fakeport.kind(scn)(rec, lambda d: sim.on_write(d), *a, **k)
        sim.dev.port = p
        w.ports.append(p)
        cur["port"] = p
        return p
    sc.serial = fakeport.Module(factory)

    def num_of(c):
        for i, x in enumerate(objs):
            if x is c:
                return i + 1
        objs.append(c)
        return len(objs)

    def snap(c):
        inc = isinstance(c, gm.IncomingCall)
        return {"id": int(c.id), "num": c.number or "", "active": bool(c.active), "answered": bool(c.answered), "inc": inc,
                "ringing": bool(c.ringing) if inc else False, "rings": int(c.ringCount) if inc else 0}

    def on_ring(c):
        rec.add("RingCb", o=num_of(c), c=snap(c), at=rec.at())

    def on_sms(x):
        rec.add("Sms", text=cps(getattr(x, "text", None) or ""), at=rec.at())

    def on_error(e):
        rec.add("Fatal", at=rec.at())
    m.incomingCallCallback = on_ring
    m.smsReceivedCallback = on_sms
    m.fatalErrorCallback = on_error

    def die(o, sim):
        """the device is gone"""
        port = sim.dev.port
        if sim.rec.dead or sim is not cur["sim"]:
            return
        if o.get("part"):
            t = o["part"]
            if "%" in t:
                t = t % (sim.prof["mems"][0], o.get("pi", 1))
            port.push(t)
            sim.dev.port = Nowhere()      # in the middle of a line, and nothing after it
            sim.rec.dead = True
        if o["kind"] == "close":
            return
        rec.add("Fail", at=rec.at())
        sim.rec.dead = True
        sim.dev.port = Nowhere()
        port.read_error = fakeport.SerialException("device gone")
        if o.get("wfail"):
            for i in range(port.writes, port.writes + 400):
                port.write_faults[i] = fakeport.SerialException("device gone")

    def act(o):
        op = o["op"]
        sim = cur["sim"]
        if op == "sleep":
            w.sleep(o["ms"])
            return
        if op == "ring":
            if sim.calls:
                return
            a = o["a"]
            sim.notify(sim.ring(a, a["rings"]), 1)
            w.sleep(o.get("wait", a["rings"] * a["gap"] + 3000))
            return
        if op == "sms":
            def fn():
                i = sim.put_sms(o["mem"], o["text"], True, o.get("index"))
                return ['+CMTI: "%s",%d' % (o["mem"], i)]
            sim.notify(fn, 1)
            w.sleep(o.get("wait", 3000))
            return
        if op == "look":
            w.sleep(100)
            while rec.at() - sim.changed < 2500:
                w.sleep(100)
            rec.add("Look", l=[snap(c) for c in objs], us=[bool(u.sessionActive) for u in uss], reg=sorted(num_of(c) for c in m.activeCalls.values()), at=rec.at())
            return
        a, obj = o.get("a", ""), 0
        f = None
        if op in ("hangup", "tone", "answer", "cancel", "ureply"):
            pool = uss if op in ("cancel", "ureply") else [c for c in objs if op != "answer" or isinstance(c, gm.IncomingCall)]
            if not pool:
                return
            x = pool[-1 - o.get("back", 0) % len(pool)]
            obj = (uss if op in ("cancel", "ureply") else objs).index(x) + 1
            f = {"hangup": lambda: x.hangup(), "tone": lambda: x.sendDtmfTone(a), "answer": lambda: (x.answer(), None)[1], "cancel": lambda: x.cancel(), "ureply": lambda: x.reply(a)}[op]
        elif op == "dial":
            if sim.calls:
                return
            sim.plans = [dict(o["plan"])]
            f = lambda: m.dial(a)
        elif op == "ussd":
            f = lambda: m.sendUssd(a)
        elif op == "csq":
            f = lambda: m.signalStrength
        elif op == "imsi":
            f = lambda: m.imsi
        elif op == "model":
            f = lambda: m.model
        elif op == "getsmsc":
            f = lambda: m.smsc
        elif op == "smsc":
            f = lambda: setattr(m, "smsc", a)
        elif op == "text":
            f = lambda: setattr(m, "smsTextMode", a == "1")
        elif op == "list":
            f = lambda: m.listStoredSms()
        elif op == "send":
            f = lambda: m.sendSms("+491710760000", a)
        if o.get("die"):
            s.call_at(o["die"]["in"] / 1000.0 + .0003, lambda: w.dev.q.append(lambda: die(o["die"], sim)))
        rec.add("Op", op=op, o=obj, a=clean(a), at=rec.at())
        try:
            v = f()
            d = {"o": 0, "c": {"id": 0, "num": "", "active": False, "answered": False, "inc": False, "ringing": False, "rings": 0}, "v": "", "n": 0, "b": False, "l": []}
            if op == "dial":
                d["o"] = num_of(v)
                d["c"] = snap(v)
            elif op in ("ussd", "ureply"):
                uss.append(v)
                d.update(o=len(uss), v=clean(v.message or ""), b=bool(v.sessionActive))
            elif op == "csq":
                d["n"] = v
            elif op in ("imsi", "model", "getsmsc"):
                d["v"] = str(v or "")
            elif op == "list":
                d["l"] = [cps(x.text) for x in v]
            elif op == "send":
                d["n"] = int(v.reference)
            elif obj and op in ("hangup", "tone", "answer"):
                d["c"] = snap(objs[obj - 1])
            rec.add("Done", at=rec.at(), **d)
        except Exception as e:
            rec.add("OpExc", x=exc(e), at=rec.at())

    def main():
        rec.names[s.cur.name] = 1
        if scn["user"]["text"]:
            m.smsTextMode = True
        if scn["user"]["smsc"]:
            m.smsc = scn["user"]["smsc"]
        for k, E in enumerate(eps):
            old = cur["sim"]
            p = E["prof"]
            er = EpRec(rec, k + 1)
            dv = EpDev(w.dev)
            sim = SimSession(s, er, p, random.Random(scn["sched"]["seed"] + k), dv)
            dv.sim = sim
            if E.get("same") and old is not None:
                sim.csca = old.csca
                sim.store = old.store
                sim.ref = old.ref
                for mem in sim.store:
                    for x in sim.store[mem].values():
                        x["stat"] = 1
            cur.update(sim=sim, ep=k + 1)
            rec.add("Attempt", ep=k + 1, csca=sim.csca, at=rec.at())
            for mem in sorted(sim.store):
                for i in sorted(sim.store[mem]):
                    er.add("Put", mem=mem, i=i, text=cps(sim.store[mem][i]["text"]), ann=False)
            if not (E.get("same") and old is not None):
                for x in E["stored"]:
                    sim.put_sms(x["mem"], x["text"], False, x["i"])
            sim.taken = lambda: set(x.id for x in list(m.activeCalls.values()) if not isinstance(x, gm.IncomingCall))
            try:
                m.connect()
                rec.add("Ret", alive=bool(m.alive), at=rec.at())
            except Exception as e:
                rec.add("Exc", x=exc(e), at=rec.at())
                return
            for o in E["ops"]:
                if sim.rec.dead:
                    break
                act(o)
                w.sleep(100)
            e = E["end"]
            if k == len(eps) - 1 or e["kind"] == "close":
                if k < len(eps) - 1:
                    die(e, sim)
                    if e.get("pause"):
                        w.sleep(e["pause"])
                rec.add("Close", at=rec.at())
                m.close()
                sim.rec.dead = True
                rec.add("Closed", at=rec.at())
            else:
                die(e, sim)
                w.sleep(e.get("pause") or 1)
                if e["kind"] == "failclose":
                    m.close()
            own = any(o["op"] == "sms" for o in E["ops"]) and any(o.get("die") for o in E["ops"])
            w.sleep(max(e["gap"], 15000 if own else 0))      # assumed: its own reading of a message is over
        rec.add("End", at=rec.at())
        w.sleep(700)
    ev = [e for e in w.run(main) if e["k"] not in ("Urc", "Rep", "Clcc", "Setup", "Conn", "EndC", "Fatal", "Sel", "Crash")]
    keep = ("sim", "pin", "reveal", "unsup", "clac", "commands", "cpms", "csca", "cscaform", "csmpdrops", "zmode", "wind", "cfun", "aim", "user", "cpin", "fam", "dtmf", "csq", "imsi", "model", "mems")
    return {"prof": {"eps": [dict({k: E["prof"][k] for k in keep}) for E in eps], "user": {"pins": [""], "text": scn["user"]["text"], "smsc": scn["user"]["smsc"]}}, "ev": ev}


def easyplan(rnd):
    d = {"k": "ok", "type": 0, "init": rnd.choice([0, 50, 600]), "conf": rnd.random() < .4, "wind2": rnd.random() < .5, "reject": False, "ans": rnd.choice([100, 100, 800, 1500, None]), "end": None}
    if d["ans"] is not None and rnd.random() < .2:
        d["end"] = 2500
    return d


def epoch(rnd, b=None):
    b = b or {}
    p = conn_profile(rnd, "conf", {"sim": "ready", "unsup": [], "busyp": rnd.choice([0, 0, .03]), "csca": rnd.choice(["ok", "ok", "330", "error"])})["prof"]
    fam = b.get("fam") or rnd.choice(["huawei", "wavecom", "zte", "poll"])
    p["maker"] = "ACME"
    family(rnd, p, fam)
    mems = rnd.choice([["ME", "SM"], ["SM"], ["SM", "ME", "SR"], ["MT", "BM"], ["ME"], ["SR", "SM"]])
    p["mems"], p["cpms"] = mems, [list(mems) for _ in range(rnd.choice([2, 3]))]
    p["cpmsfmt"] = "+CPMS: %s"
    if b.get("nocpms", rnd.random() < .12):
        p["cpms"] = []
        p["unsup"] = p["unsup"] + ["AT+CPMS"]
    for u in ("AT+CLIP", "AT+CRC", "AT+CNMI", "AT+CSMP"):
        if rnd.random() < .07:
            p["unsup"] = p["unsup"] + [u]
    p["user"] = {"pins": [""], "text": False, "smsc": ""}
    p.update(codes=True, csq=rnd.randrange(0, 32), imsi="%015d" % rnd.randrange(10 ** 15), model="M%d" % rnd.randrange(1000), ref=rnd.randrange(256), clccfmt=rnd.randrange(5), endlag=5,
             nostat=False, alpha="", utexts=["Balance %d%s" % (rnd.randrange(1000), "!" * rnd.randrange(2)) for _ in range(12)], udelay=rnd.choice([5, 100, 900]), uearly=rnd.random() < .2,
             errs={u: rnd.choice(["ERROR", "+CME ERROR: 3", "+CME ERROR: 100"]) for u in p["unsup"]}, lat=rnd.choice([0, 5, 20]), split=0)
    stored = [{"mem": rnd.choice(mems), "i": i + 1, "text": "%s (%d)" % (rnd.choice(TEXTS), rnd.randrange(100))} for i in range(rnd.choice([0, 0, 1, 2, 3]))]
    return {"prof": p, "stored": stored}


def ops_for(rnd, E, kinds, numbers):
    ops = []
    mem = E["prof"]["mems"][0]
    for kd in kinds:
        o = {"op": kd}
        if kd == "dial":
            o.update(a=rnd.choice(numbers), plan=easyplan(rnd))
            ops.append(o)
            ops.append({"op": "sleep", "ms": rnd.choice([200, 3500, 3500])})
            if rnd.random() < .5:
                ops += ops_for(rnd, E, [rnd.choice(["tone", "tone", "hangup"])], numbers)
            continue
        if kd == "ring":
            o["a"] = dict(arrival(rnd, 0, {"num": rnd.choice(numbers), "rings": rnd.choice([1, 1, 2, 3]), "end": rnd.random() < .25 and E["prof"]["fam"] == "huawei"}), noise="", drop=False, empty=False, gap=1000)
            f = rnd.choice(["", "answer", "hangup"])
            if f:
                o["a"]["rings"] = 3
                o["wait"] = rnd.choice([500, 1500])
            ops.append(o)
            if f:
                ops += ops_for(rnd, E, [f], numbers)
                if f == "answer" and rnd.random() < .7:
                    ops += [{"op": "sleep", "ms": 2500}] + ops_for(rnd, E, ["tone"], numbers)
            continue
        if kd == "sms":
            o.update(mem=rnd.choice(E["prof"]["mems"]), text="%s [%d]" % (rnd.choice(TEXTS), rnd.randrange(1000)))
            if "AT+CPMS" in E["prof"]["unsup"] or "AT+CNMI" in E["prof"]["unsup"]:
                continue
        if kd in ("hangup", "answer", "tone", "cancel", "ureply"):
            o["back"] = rnd.choice([0, 0, 0, 1, 2])
        if kd == "tone":
            o["a"] = rnd.choice("0123456789*#ABCD")
        if kd == "ureply":
            o["a"] = rnd.choice("123")
        if kd == "ussd":
            o["a"] = rnd.choice(["*100#", "*111*1#"])
            if rnd.random() < .4:
                ops.append(o)
                ops += ops_for(rnd, E, [rnd.choice(["ureply", "cancel"])], numbers)
                continue
        if kd == "smsc":
            o["a"] = rnd.choice(["+447785016005", "+1", "+49172"])
        if kd == "text":
            o["a"] = rnd.choice("01")
        if kd == "send":
            o["a"] = rnd.choice(["hi", "Grüße", "[ok]"])
        ops.append(o)
    return ops


KINDS = ["dial"] * 3 + ["ring"] * 3 + ["sms"] * 2 + ["ussd"] * 2 + ["hangup", "answer", "tone", "tone", "cancel", "ureply", "smsc", "text", "getsmsc", "list", "list", "send", "csq", "imsi", "model", "look", "look"]


def gen(rnd, b=None):
    b = b or {}
    n = len(b["eps"]) if "eps" in b else rnd.choice([2, 2, 2, 3, 3, 4])
    eps = []
    numbers = [rnd.choice(NUMS[:2])] if rnd.random() < .6 else NUMS[:2]
    user = {"text": b.get("text", rnd.random() < .3), "smsc": b.get("smsc", rnd.choice(["", "", "", "+447785016005"]))}
    for k in range(n):
        be = b["eps"][k] if "eps" in b else {}
        same = k > 0 and be.get("same", rnd.random() < .35)
        if same:
            pp = eps[-1]["prof"]
            E = {"prof": dict(pp, csq=rnd.randrange(0, 32), utexts=list(pp["utexts"])), "stored": [], "same": True}
        else:
            E = epoch(rnd, be)
        kinds = be.get("kinds") or [rnd.choice(KINDS) for _ in range(rnd.choice([0, 1, 2, 4, 6]))]
        ops = ops_for(rnd, E, kinds, numbers)
        if k:
            ops.append({"op": "look"})
        e = {"kind": be.get("end") or rnd.choice(["close", "close", "failclose", "fail"]), "gap": rnd.choice([1, 10, 300, 3000, 20000]), "pause": rnd.choice([0, 0, 5, 1500])}
        if be.get("part", rnd.random() < .35):
            e["part"] = rnd.choice(PARTS)
            e["pi"] = rnd.choice([1, 2, 3])
        if rnd.random() < .5:
            e["wfail"] = True
        long_ = False
        if e["kind"] != "close":
            if rnd.random() < .3 and ops and k < n - 1:       # lost in the middle of an operation
                c = [o for o in ops if o["op"] in ("dial", "ussd", "csq", "list", "send", "hangup", "answer", "tone")]
                if c:
                    o = rnd.choice(c)
                    o["die"] = dict(e)
                    o["die"]["in"] = rnd.choice([0, 1, 8, 30, 120, 700])
        elif rnd.random() < .3:                                   # closed soon after something arrived
            ops.append({"op": "ring", "a": dict(arrival(rnd, 0, {"num": rnd.choice(numbers), "rings": 5, "end": False, "ext": True}), noise="", drop=False, empty=False, gap=600), "wait": rnd.choice([1, 100, 1000, 2500])})
        E.update(ops=ops, end=e)
        eps.append(E)
    return {"prof": {}, "user": user, "eps": eps, "sched": sched(rnd, light=rnd.random() < .6)}


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("session%s" % seed)
    n = {"quick": 500, "thorough": 7000}[tier]
    out = [dict(gen(rnd, b), src="tlc") for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
