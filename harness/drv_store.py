"""Received messages (C10) and the storage operations (C11) of the real GsmModem against a modem with several storages."""
import random
from simsms import *
from drv_pdu import NONE
import drv_pdu

HARD_EXIT = True
SMSC_NUM = "+27831000015"
JUNK = [[0], [0, 4, 5], [1, 2, 3], [7, 0x91, 0x72, 0x38, 0x01], [0, 3, 0, 0], [0, 4, 10, 0x91, 0x72], deliver("+27831234567", "cut off", T0)[:-9], [0, 2, 5, 0x91]]


class SimStore(SimSms):
    def command(self, c):
        sel = self.sel
        f = [x for x in self.fails if x[0] == "CPMS"]
        if c.startswith('AT+CPMS="') and f and f[0][1] == "silent+":
            self.fails.remove(f[0])
            self.sel = c[9:11]
            r = Reply([], final=False)
        else:
            r = SimSms.command(self, c)
        if self.sel != sel:
            self.rec.add("Sel", mem=self.sel)
        return r

    def lines(self, m, head):
        if m["kind"] == "junk":
            return [head.split('","')[0] + '",,,"soon"' if m.get("odd") else head.split(",")[0] + ",strange", "strange text"]
        return [head] + m["text"].split("\n") if m["text"] != "" else [head]

    def cmgr(self, m):
        if not self.text_mode or m["kind"] == "report":
            return SimSms.cmgr(self, m)
        if m["kind"] == "submit":
            return self.lines(m, '+CMGR: "%s","%s",,' % (STATNAME[m["stat"]], m["num"]))
        return self.lines(m, '+CMGR: "%s","%s",,"%s"' % (STATNAME[m["stat"]], m["num"], ts(m["time"])))

    def cmgl(self, i, m):
        if not self.text_mode or m["kind"] == "report":
            return SimSms.cmgl(self, i, m)
        if m["kind"] == "submit":
            return self.lines(m, '+CMGL: %d,"%s","%s",,' % (i, STATNAME[m["stat"]], m["num"]))
        return self.lines(m, '+CMGL: %d,"%s","%s",%s,"%s"' % (i, STATNAME[m["stat"]], m["num"], self.prof.get("alpha", ""), ts(m["time"])))

    def store_msg(self, mem, m, ann, index=None):
        i = self.put(mem, m, index)
        self.rec.add("Put", mem=mem, i=i, stat=m["stat"], ann=ann, m=self.content(m))
        return i

    def content(self, m):
        k = m["kind"]
        return {"kind": k, "num": cps(m.get("num", "")), "text": cps(m["text"]) if k == "deliver" else [], "time": m["time"] if k in ("deliver", "report") else [],
                "ref": m.get("ref", 0), "st": m.get("st", 0), "dis": m.get("dis", []),
                "smsc": cps(SMSC_NUM) if k == "deliver" and not self.text_mode else []}

    def arrive(self, a):
        def fn():
            m = dict(a["m"])
            i = self.store_msg(a["mem"], m, True)
            return [self.prof.get("cmtifmt", '+CMTI: "%s",%d') % (a["mem"], i)]
        return fn


def shown(m):
    k = {"ReceivedSms": "deliver", "StatusReport": "report"}.get(type(m).__name__, type(m).__name__)
    return {"kind": k, "status": int(m.status), "num": cps(m.number), "text": cps(m.text) if k == "deliver" else [], "time": stamp(m.time if k == "deliver" else m.timeSent),
            "ref": m.reference if k == "report" else 0, "st": m.deliveryStatus if k == "report" else 0, "dis": stamp(m.timeFinalized) if k == "report" else [],
            "smsc": cps(m.smsc) if m.smsc is not None else []}


def run(scn):
    w = World(scn, SimStore)
    rec = w.rec
    p = scn["prof"]

    replies, raises = list(scn.get("replies", [])), list(scn.get("raises", []))
    kept, nrep = [], [0]

    def reply(x, text):
        nrep[0] += 1
        t, i = rec.th(), nrep[0]
        rec.add("Reply", t=t, id=i, num=cps(x.number), numstr=x.number, text=cps(text), raw=clean(text), at=rec.at())
        try:
            r = x.reply(text)
            rec.add("Replied", t=t, id=i, num=cps(r.number), text=cps(r.text), at=rec.at())
        except Exception as e:
            rec.add("ReplyExc", t=t, id=i, x=exc(e), at=rec.at())

    def on_sms(x):
        w.point()
        rec.add("Sms", t=rec.th(), m=shown(x), at=rec.at())
        if type(x) is gm.ReceivedSms and x.number:
            kept.append(x)
            text = replies.pop(0) if replies else None
            if text is not None:
                w.point()
                reply(x, text)
        if raises and raises.pop(0) and rec.th() == 0:
            raise ValueError("the application's callback fails")
    m = gm.GsmModem("-", smsReceivedCallbackFunc=on_sms)

    def caller(t, ops):
        for o in ops:
            w.point()
            if o["op"] == "sleep":
                w.sleep(o["ms"])
                continue
            if o["op"] == "reply":
                if kept:
                    reply(kept[-1 - o["back"] % len(kept)], o["text"])
                continue
            mem, i = o.get("mem", ""), o.get("i", 0)
            rec.add("Op", t=t, op=o["op"], status=o.get("status", 0), mem=mem, i=i, **{"del": o.get("del", False), "flag": o.get("flag", 0), "at": rec.at()})
            kw = {"memory": mem} if mem else {}
            l = []
            try:
                if o["op"] == "list":
                    l = m.listStoredSms(o["status"], delete=o["del"], **kw)
                elif o["op"] == "read":
                    l = [m.readStoredSms(i, **kw)]
                elif o["op"] == "del":
                    m.deleteStoredSms(i, **kw)
                elif o["op"] == "delmulti":
                    m.deleteMultipleStoredSms(o["flag"], **kw)
                else:
                    m.processStoredSms(*([True] if o["status"] == 0 else []))
                rec.add("Ret", t=t, l=[shown(x) for x in l], at=rec.at())
            except Exception as e:
                rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def main():
        m.smsTextMode = p["user"]["text"]
        m.connect()
        del rec.ev[:]
        sim = w.sim
        sim.fails = [list(x) for x in scn["fails"]]
        scn["sel0"] = sim.sel
        for x in scn["init"]:
            sim.store_msg(x["mem"], dict(x["m"]), False, x.get("i"))
        for a in scn["arrivals"]:
            sim.notify(sim.arrive(a), a["delay"])
        vts = w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(scn["callers"])])
        w.join(vts)
        w.sleep(max([a["delay"] for a in scn["arrivals"]] + [0]) + 2000)
        k = -1
        while k != len(rec.ev):
            k = len(rec.ev)
            w.sleep(12000)
        rec.add("End", left=[{"mem": a, "i": i} for a in sorted(sim.store) for i in sorted(sim.store[a])], at=rec.at())
        rec.skip.update(("Tx", "Rsp", "Sel"))
        del kept[:]
        m.close()
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    for e in ev:
        if e["k"] == "Tx" and e["term"] != "^M":
            h = e["c"]
            e["hex"] = not p["user"]["text"] and len(h) % 2 == 0 and all(x in "0123456789ABCDEFabcdef" for x in h)
            e["o"] = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)] if e["hex"] else []
    return {"prof": {"text": p["user"]["text"], "threads": len(scn["callers"]), "sel": scn.pop("sel0"), "nostat": p["nostat"]}, "ev": ev}


def num(rnd):
    return ("+" if rnd.random() < .7 else "") + "".join(rnd.choice("0123456789") for _ in range(rnd.choice([3, 5, 10, 11, 12])))


def time_(rnd):
    return [rnd.randint(10, 40), rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.choice([8, 4, 0, -20, 22, -1, 48])]


PLAIN = "".join(chr(c) for c in range(32, 127))


def text(rnd, tm):
    k = rnd.random()
    if k < .15:
        return ""
    if tm:
        t = "".join(rnd.choice(PLAIN) for _ in range(rnd.choice([1, 2, 10, 60])))
        if k < .3:
            t = t + "\n" + rnd.choice(["second line", "OKAY", "RING me", "+CMTI is not it", '"quoted",1', "1,2,3", "+CMGR: x"])
        if not t.strip():
            t = "x"
        return t
    return drv_pdu.text(rnd.choice(["gsm", "gsm", "ext", "ucs", "sup"]), rnd.choice([1, 2, 7, 8, 30, 60]), rnd)


def message(rnd, tm, kinds=("deliver",), stats=(0,)):
    k = rnd.choice(kinds)
    m = {"kind": k, "stat": rnd.choice(stats), "num": num(rnd), "text": text(rnd, tm) if k != "report" else "", "time": time_(rnd)}
    if k == "report":
        m.update(ref=rnd.randint(0, 255), st=rnd.choice([0, 64, 99]), dis=time_(rnd))
    elif k == "submit":
        m["stat"] = rnd.choice([2, 3])
    elif k == "junk":
        m.update(o=rnd.choice(JUNK), odd=rnd.random() < .5, num="", text="")
    return m


MIX = ("deliver", "deliver", "deliver", "deliver", "report", "submit", "junk")
ERR = ["ERROR", "+CMS ERROR: 500", "+CMS ERROR: 321", "+CMS ERROR: 320", "+CME ERROR: 3", "COMMAND NOT SUPPORT"]
BUSY = ["+CMS ERROR: 515", "+CME ERROR: 14"]


def gen(rnd, part, b=None):
    b = b or {}
    tm = b.get("text", rnd.random() < .45)
    mems = rnd.choice([["ME", "SM", "SR"], ["SM", "ME"], ["SM"], ["ME", "SM", "BM"]])
    p = profile(rnd, mems=list(mems))
    p["user"] = {"pins": [""], "text": tm, "smsc": ""}
    p["nostat"] = rnd.random() < .15
    p["cmtifmt"] = rnd.choice(['+CMTI: "%s",%d', '+CMTI: "%s",%d', '+CMTI:"%s",%d'])
    p["cmglfmt"] = rnd.choice(["+CMGL: %d,%d,%s,%d", "+CMGL: %d,%d,%s,%d", "+CMGL:%d,%d,%s,%d", "+CMGL: %d, %d,%s,%d"])
    p["first"] = rnd.choice([0, 1, 1, 10, 98, 253, 998, 12345])
    p["emptyok"] = rnd.random() < .3
    p["delerr"] = rnd.random() < .3
    if part == "recv":
        init = [{"mem": rnd.choice(mems), "m": message(rnd, tm, MIX, (0, 1))} for _ in range(rnd.choice([0, 0, 1, 3]))]
        arr, t = [], 0
        for _ in range(rnd.choice([1, 2, 3, 5, 8])):
            t += rnd.choice([0, 0, 0, 1, 3, 20, 100, 1000])
            kinds = ("deliver",) * 9 + (("junk", "submit") if rnd.random() < .3 else ("deliver", "deliver"))
            m = message(rnd, tm, kinds, (0, 0, 0, 1))
            m["stat"] = m["stat"] if m["stat"] < 2 else 0
            if rnd.random() < .07:
                m["fail"] = rnd.choice(ERR)
            arr.append({"delay": t, "mem": rnd.choice(mems), "m": m})
        nth = rnd.choice([0, 1, 1, 2, 3])
        mk = lambda: op(rnd, mems, p, rnd.choice(["list", "list", "read", "del", "process", "sleep", "sleep", "reply"]), safe=True, tm=tm)
    else:
        init = [{"mem": rnd.choice(mems), "m": message(rnd, tm, MIX, (0, 0, 1, 1))} for _ in range(rnd.choice([0, 1, 2, 4, 8, 12]))]
        arr = [{"delay": rnd.choice([0, 30, 200, 1500]), "mem": rnd.choice(mems), "m": message(rnd, tm)} for _ in range(rnd.choice([0, 0, 0, 1, 3]))]
        nth = rnd.choice([1, 1, 1, 2, 3])
        mk = lambda: op(rnd, mems, p, rnd.choice(["list", "list", "list", "read", "read", "del", "delmulti", "process", "process", "sleep"]))
        if rnd.random() < .15:
            for x in init:
                x["m"]["junk"] = rnd.choice(["AFSDLF SDKFJSK", "+XYZ: 1"]) if not tm else None
    callers = [[mk() for _ in range(rnd.choice([1, 2, 3, 5]))] for _ in range(nth)]
    if any(o["op"] == "process" for c in callers for o in c):
        init = [x for x in init if x["m"]["kind"] != "report"]
    fails = []
    if rnd.random() < .35:
        for _ in range(rnd.choice([1, 1, 2])):
            what = rnd.choice(["CMGR", "CMGD", "CPMS", "CMGL"])
            fails.append([what, rnd.choice(BUSY + BUSY + (ERR if part == "ops" or what == "CMGD" else []) + (["silent"] if part == "ops" or what == "CMGD" else []) + (["silent+"] * 4 + ["ERROR"] if what == "CPMS" and part == "ops" else []))])
    replies = [answer(rnd, tm) if rnd.random() < .5 else None for _ in range(12)] if rnd.random() < .5 else []
    raises = [rnd.random() < .4 for _ in range(12)] if rnd.random() < .2 else []
    return {"fails": fails, "replies": replies, "raises": raises, "prof": p, "init": b.get("init", init), "arrivals": b.get("arrivals", arr), "callers": b.get("callers", callers), "sched": sched(rnd)}


def answer(rnd, tm):
    if tm:
        return "".join(rnd.choice(PLAIN) for _ in range(rnd.choice([1, 5, 40, 160])))
    return drv_pdu.text(rnd.choice(["gsm", "gsm", "ext", "ucs", "sup"]), rnd.choice([0, 1, 7, 8, 30, 60, 161]), rnd)


def op(rnd, mems, p, k, safe=False, tm=False):
    mem = rnd.choice(mems + ["", "", ""])
    i = p["first"] + rnd.choice([0, 0, 1, 1, 2, 3, 5])
    if k == "reply":
        return {"op": k, "back": rnd.choice([0, 0, 1, 2]), "text": answer(rnd, tm)}
    if k == "sleep":
        return {"op": "sleep", "ms": rnd.choice([1, 10, 60, 300, 1000])}
    if k == "list":
        st = rnd.choice([4, 4, 0, 1, 2, 3])
        return {"op": k, "status": st, "mem": mem, "del": rnd.random() < .4 and not (safe and st == 4)}
    if k == "process":
        return {"op": k, "status": rnd.choice([0, 1])}
    if k == "delmulti":
        return {"op": k, "flag": rnd.choice([1, 2, 3, 4, 4, 0, 5, -1]), "mem": mem}
    return {"op": k, "i": i, "mem": mem}


def from_spec(b, rnd, part):
    """b: what is stored at first, what arrives when, and the user's operations, in terms of the specification"""
    tm = b["text"]
    e = {"text": tm, "init": [{"mem": x["mem"], "m": message(rnd, tm, (x["kind"],), (x["stat"],))} for x in b["init"]],
         "arrivals": [{"delay": x["delay"], "mem": x["mem"], "m": message(rnd, tm, (x["kind"],), (0,))} for x in b["arrivals"]]}
    e["callers"] = [[{k: v for k, v in o.items()} for o in c] for c in b["callers"]]
    s = gen(rnd, part, e)
    s["prof"].update(mems=["ME", "SM", "SR"], cpms=[["ME", "SM", "SR"]] * 3, first=1)
    for x in s["arrivals"]:
        x["m"]["stat"] = 0
    return dict(s, src="tlc")


def scenarios(tier, seed, extra, part="recv"):
    rnd = random.Random("store%s%s" % (seed, part))
    n = {"quick": 640, "thorough": 8000}[tier]
    out = [from_spec(b, rnd, part) for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd, part))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
