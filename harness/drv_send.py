"""Sending messages with the real GsmModem.sendSms() from several threads (C08) and tracking their delivery reports (C09)."""
import random
import simsms
from simsms import *
import drv_pdu

HARD_EXIT = True


class SimSend(SimSms):
    def report(self, ref, rp):
        return SimSms.report(self, ref, rp)


def run(scn):
    w = World(scn, SimSend)
    rec = w.rec
    p = scn["prof"]

    def on_report(r):
        rec.add("Cb", ref=int(r.reference), st=int(r.deliveryStatus), at=rec.at())
    m = gm.GsmModem("-", smsStatusReportCallback=on_report)
    kept = {}
    nid = [0]

    def caller(t, ops):
        for o in ops:
            w.point()
            if o["op"] == "sleep":
                w.sleep(o["ms"])
            elif o["op"] == "cmd":
                try:
                    m.write(o["cmd"])
                except Exception:
                    pass
                rec.add("CmdEnd", t=t)
            elif o["op"] == "drop":
                mine = [i for i in sorted(kept) if kept[i][0] == t]
                if mine:
                    rec.add("Drop", id=mine[0])
                    del kept[mine[0]]
            else:
                nid[0] += 1
                i = nid[0]
                rec.add("Send", t=t, id=i, dest=cps(o["dest"]), deststr=o["dest"], text=cps(o["text"]), raw=clean(o["text"]), flash=o.get("flash", False),
                        wait=o.get("wait", False), dtmo=o.get("dtmo", 15000), at=rec.at())
                kw = {}
                if o.get("wait"):
                    kw["waitForDeliveryReport"] = True
                    if "dtmo" in o:
                        kw["deliveryTimeout"] = o["dtmo"] / 1000.0
                if o.get("flash"):
                    kw["sendFlash"] = True
                try:
                    r = m.sendSms(o["dest"], o["text"], **kw)
                    rec.add("Ret", t=t, id=i, ref=int(r.reference), dest=cps(r.number), text=cps(r.text), status=int(r.status), at=rec.at())
                    kept[i] = (t, r)
                    del r
                except Exception as e:
                    rec.add("Exc", t=t, x=exc(e), at=rec.at())

    def main():
        m.smsTextMode = p["user"]["text"]
        m.connect()
        w.sim.fails = [list(x) for x in scn.get("fails", [])]
        del rec.ev[:]
        vts = w.threads([lambda i=i, cs=cs: caller(i + 1, cs) for i, cs in enumerate(scn["callers"])])
        w.join(vts)
        w.sleep(scn.get("settle", 3000))
        for i in sorted(kept):
            rec.add("Obs", id=i, status=int(kept[i][1].status))
        rec.add("End", at=rec.at())
        rec.skip.update(("Tx", "Rsp"))
        kept.clear()
        m.close()
    ev = [e for e in w.run(main) if e["k"] != "Urc"]
    for e in ev:
        if e["k"] == "Tx" and e["term"] != "^M":
            h = e["c"]
            e["hex"] = len(h) % 2 == 0 and all(x in "0123456789ABCDEFabcdef" for x in h)
            e["o"] = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)] if e["hex"] and not p["user"]["text"] else []
            if not p["user"]["text"]:
                e["c"] = ""
    return {"prof": {"text": p["user"]["text"], "threads": len(scn["callers"]), "sel": scn["sel0"], "parts": 1, "late": 12000 if scn.get("fails") else 3000}, "ev": ev}


ERR = ["ERROR", "+CMS ERROR: 500", "+CMS ERROR: 330", "+CMS ERROR: 38", "+CME ERROR: 11", "+CME ERROR: 3", "COMMAND NOT SUPPORT", "+CMS ERROR: 512"]
BUSY = ["+CME ERROR: 515", "+CMS ERROR: 515", "+CMS ERROR: 14", "+CME ERROR: 14"]


def behaviour(rnd, q):
    x = rnd.random()
    b = {}
    if rnd.random() < .1:
        b["pre"] = ["+XYZ: 7"]
    if x < q:
        b["a"] = rnd.choice(ERR + ["OK", "silent"] + BUSY * 2)
    elif x < 2 * q:
        b["b"] = rnd.choice(ERR + ["noack", "noack", "silent"] + BUSY * 2)
    if rnd.random() < .1:
        b["ackfmt"] = "+CMGS:%d"
    if rnd.random() < .15:
        b["d"] = rnd.choice([200, 2000])
    return b


def dest(rnd, text):
    n = rnd.choice([3, 5, 10, 11, 12, 15])
    return ("+" if rnd.random() < .6 else "") + "".join(rnd.choice("0123456789") for _ in range(n))


def body(rnd, text):
    if text:
        return "".join(rnd.choice(GSM.replace("\r", "").replace("\x1b", "")) for _ in range(rnd.choice([1, 5, 40, 160, 200])))
    k = rnd.choice(["gsm", "gsm", "ext", "ucs", "sup"])
    unit = 160 if k in ("gsm", "ext") else 70
    n = rnd.choice([0, 1, 7, 20, unit - 1, unit, unit + 1, rnd.randint(1, 2 * unit), 2 * unit, 3 * unit - 10])
    return drv_pdu.text(k, n, rnd)


def gen(rnd, part, b=None):
    b = b or {}
    text = b.get("text", rnd.random() < .35)
    p = profile(rnd, ref=rnd.choice([0, 1, 100, 253, 254, 255]))
    p["user"] = {"pins": [""], "text": text, "smsc": ""}
    nth = b.get("n") or rnd.choice([1, 1, 2, 2, 3] if part == "send" else [1, 1, 2, 3, 4])
    q = b.get("q", rnd.choice([0, 0, .08, .2, .35]) if part == "send" else rnd.choice([0, 0, .05]))
    callers = []
    for t in range(nth):
        ops = []
        for _ in range(rnd.choice([1, 2, 3, 4])):
            x = rnd.random()
            if x < .15:
                ops.append({"op": "cmd", "cmd": rnd.choice(["AT+CSQ", "AT+CREG?", "AT+CGMI"])})
            elif x < .25:
                ops.append({"op": "sleep", "ms": rnd.choice([1, 10, 100, 1000, 4000])})
            elif x < .32 and part == "report" and not p.get("sameref"):
                ops.append({"op": "drop"})
            o = {"op": "send", "dest": dest(rnd, text), "text": body(rnd, text) if part == "send" else rnd.choice(["Hi", "Report please", "x" * 170]), "flash": rnd.random() < .15 and not text}
            if part == "report" and rnd.random() < .55:
                o["wait"] = True
                if rnd.random() < .7:
                    o["dtmo"] = rnd.choice([50, 1000, 1000, 3000, 15000])
            ops.append(o)
        callers.append(ops)
    p["cmgs"] = b.get("cmgs") or [behaviour(rnd, q) for _ in range(14)]
    fails = []
    if part == "report":
        if rnd.random() < .25:
            p["sameref"] = True
            for ops in callers:
                ops[:] = [o for o in ops if o["op"] != "drop"]
        reps = []
        for _ in range(14):
            if rnd.random() < .2:
                reps.append(None)
                continue
            reps.append({"delay": rnd.choice([0, 0, 1, 5, 40, 300, 1000, 1000, 2500]), "st": rnd.choice([0, 0, 0, 64, 65, 68, 70, 99]),
                         "mem": rnd.choice(["SR", "SR", "SM", "ME"]), "fail": rnd.choice(["+CMS ERROR: 320", "ERROR"]) if rnd.random() < .06 else None})
        p["reports"] = b.get("reports", reps)
        # some messages are reported on twice (given up on by one centre, delivered by another)
        for r in p["reports"]:
            if r and rnd.random() < .2 and not p.get("sameref"):
                r["again"] = {"delay": rnd.choice([0, 1, 50, 700, 2000]), "st": rnd.choice([0, 64, 70]), "mem": rnd.choice(["SR", "SM", "ME"])}
        p["cdsifmt"] = rnd.choice(['+CDSI: "%s",%d', '+CDSI: "%s",%d', '+CDSI:"%s",%d'])
        p["first"] = rnd.choice([1, 1, 0, 9, 99, 250])
        if rnd.random() < .2:
            fails = [[rnd.choice(["CMGR", "CMGD", "CPMS"]), rnd.choice(["+CMS ERROR: 515", "+CME ERROR: 14"])] for _ in range(rnd.choice([1, 2]))]
    return {"fails": fails, "prof": p, "sel0": "ME", "callers": callers, "settle": 6000, "sched": sched(rnd)}


def from_spec(b, rnd, part):
    """b: per announcement what the modem does, per message its report"""
    p = {"cmgs": [{"a": e["a"], "b": e["b"]} for e in b["cmgs"]], "text": b["text"], "n": b["n"]}
    if part == "report":
        p["reports"] = [None if r["delay"] < 0 else dict(r, fail=None) for r in b["reports"]]
        p["cmgs"] = [{}]
    return dict(gen(rnd, part, p), src="tlc")


def scenarios(tier, seed, extra, part="send"):
    rnd = random.Random("send%s%s" % (seed, part))
    n = {"quick": 640, "thorough": 8000}[tier]
    out = [from_spec(b, rnd, part) for b in extra or []]
    while len(out) < n:
        out.append(gen(rnd, part))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
