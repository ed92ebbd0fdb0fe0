"""Runs of the real SerialComms (gsmmodem/serial_comms.py) under the virtual scheduler."""
import random, sys, json
import drvlib
drvlib.setup_path()
import logging
logging.disable(logging.CRITICAL)
import vsched
vsched.install()
import fakeport
import gsmmodem.serial_comms as sc
from gsmmodem.exceptions import TimeoutException
import serial as pyserial

HARD_EXIT = True


class Rec(object):
    def __init__(self, s):
        self.s, self.ev = s, []
        self.port = None
        self.handler = None           # the thread running a handler of the user
        s.idle_hooks.append(self.idle)
        self.names = {}

    def t(self):
        return self.names.get(self.s.cur.name, 0)

    def at(self, x=None):
        return int(round(((self.s.now if x is None else x) - 1000.0) * 1000))

    def add(self, **k):
        self.ev.append(k)

    def idle(self, to):
        if self.ev and self.ev[-1]["k"] == "Idle":
            self.ev[-1]["at"] = self.at(to)
        else:
            self.add(k="Idle", at=self.at(to), writing=bool(self.port and self.port.writing), handling=self.handler is not None)

    def read(self, s):
        if self.ev and self.ev[-1]["k"] == "Rd" and not self.ev[-1]["s"].endswith("\n"):
            self.ev[-1]["s"] += s
        else:
            self.add(k="Rd", s=s)

    def arrive(self, s):
        self.add(k="Arr", s=s)

    def readfail(self):
        self.add(k="RdFail")

    def write(self, data, ok):
        self.add(k="Tx", t=self.t(), data=data, ok=ok)

    def close(self, reading):
        self.add(k="PClose", reading=reading or self.handler not in (None, self.s.cur))


def mk(k, n):
    return {"random": pyserial.SerialException("device gone %d" % n), "timeout": pyserial.SerialTimeoutException("write timeout %d" % n),
            "os": OSError(5, "I/O error %d" % n)}[k]


def run(scn):
    sd = scn["sched"]
    s = vsched.Sched(seed=sd["seed"], strategy=sd.get("st", "random"), p=sd.get("p", .3), trace=sd.get("trace"),
                     trace_p=sd.get("tp", .05), depth=sd.get("depth", 3), horizon=sd.get("horizon", 1500))
    vsched.S = s
    rec = Rec(s)
    st = {"closed": 0}

    def factory(*a, **k):
        p = fakeport.kind(scn)(rec, on_write, *a, **k)
        rec.port = p
        dev.port = p
        for n, kind in scn.get("txfail", {}).items():
            p.write_faults[int(n)] = mk(kind, int(n))
        if scn.get("closefail"):
            p.close_error = mk(scn["closefail"], 99)
        p.write_delay = scn.get("wdelay", 0) / 1000.0
        return p
    replies = {k: list(v) for k, v in scn["replies"].items()}

    def on_write(data):
        for d, text in replies.pop(data, ()):
            if d < 0:
                dev.deliver(text)
            else:
                dev.later(d / 1000.0, text)
    dev = fakeport.Device(s, rec)

    def ntf(lines):
        rec.add(k="Ntf", lines=list(lines))
        rec.handler = s.cur
        try:
            s.point()
            if scn.get("ntfsleep"):
                s.block(lambda: False, scn["ntfsleep"] / 1000.0, "handler")
        finally:
            rec.handler = None

    def fatal(e):
        rec.add(k="Fatal", same=e is getattr(rec.port, "failed", None), alive=bool(comms.alive), open=rec.port.isopen)
        if scn.get("fatalclose"):
            rec.handler = s.cur
            try:
                close()
            finally:
                rec.handler = None

    def close():
        rec.add(k="Close", t=rec.t())
        try:
            comms.close()
        except Exception as e:
            rec.add(k="CloseExc", what=type(e).__name__ + str(e))
            return
        rec.add(k="CloseRet", t=rec.t(), alive=bool(comms.alive), open=rec.port.isopen)
    sc.serial = fakeport.Module(factory)
    comms = sc.SerialComms("/dev/fake", 9600, notifyCallbackFunc=ntf, fatalErrorCallbackFunc=fatal)

    def caller(t, cs):
        for c in cs:
            if c.get("at"):
                d = c["at"] / 1000.0 - (s.now - 1000.0)
                if d > 0:
                    s.block(lambda: False, d, "wait")
            s.point()
            if c["cmd"] == "!close":
                close()
                continue
            rec.add(k="Call", t=t, cmd=c["cmd"], wait=c.get("wait", True), tmo=c.get("tmo", 1000), prompt=c.get("prompt", ""))
            try:
                kw = {}
                if not c.get("wait", True):
                    kw["waitForResponse"] = False
                if c.get("prompt"):
                    kw["expectedResponseTermSeq"] = c["prompt"]
                r = comms.write(c["cmd"], timeout=c.get("tmo", 1000) / 1000.0, **kw)
                rec.add(k="Ret", t=t, lines=[] if r is None else [str(x) for x in r])
            except TimeoutException as e:
                rec.add(k="Tmo", t=t, lines=list(e.data) if e.data is not None else [])
            except Exception as e:
                if any(e is x for x in rec.port.injected):
                    rec.add(k="TxErr", t=t)
                else:
                    rec.add(k="Exc", t=t, what=repr(e))

    def main():
        comms.connect()
        vts = []
        for i, cs in enumerate(scn["callers"]):
            rec.names["caller%d" % (i + 1)] = i + 1
            vts.append(s.spawn("caller%d" % (i + 1), lambda t=i + 1, cs=cs: caller(t, cs)))
        for at, text in scn.get("unsol", []):
            dev.later(at / 1000.0, text)
        if "rdfail" in scn:
            def fail():
                rec.port.read_error = mk("random", 0)
            dev.later(scn["rdfail"] / 1000.0, fail)
        s.block(lambda: all(v.done for v in vts), None, "callers")
        s.block(lambda: False, scn.get("tail", 3000) / 1000.0, "tail")
        s.block(lambda: not dev.q, None, "drain")
        s.block(lambda: False, 1.5, "tail")
        while scn.get("ntfsleep") and (rec.handler is not None or (rec.port.rx and comms.alive)):
            s.block(lambda: False, 10, "handlers")
        own = [dev.vt] + vts + [s.cur]
        rec.add(k="End", threads=len([v for v in s.threads if not v.done and v not in own]))
    try:
        s.run(main)
    finally:
        vsched.S = None
    for c in s.crashes:
        rec.add(k="Crash", what=str(c))
    for d in s.deadlock:
        rec.add(k="Deadlock", what=str(d))
    return {"threads": len(scn["callers"]), "ev": rec.ev}


# ---- scenarios ------------------------------------------------------------------
UNSOL = ["+CREG: 1\r\n", "RING\r\n", "\r\n+CMTI: \"SM\",3\r\n", "^RSSI:20\r\n", "OK\r\n", "X OK\r\n", "ERROR 5\r\n", "> x\r\n", "a\rb\r\n", "A\r\nB\r\n",
         "NO CARRIER\r\n", "+CME ERROR: 5\r\n", "1\r\n\r\n\r\n2\r\n", "\r\n", "l1\r\nl2\r\nl3\r\n", "+CDS: 25\r\n0605\r\n", "q\nw\r\n", "\r\r\n"]
BODY = ["", "+CSQ: 20,99\r\n", "OKAY\r\n", "MY OK\r\n", "BOOK\r\n", "ERRORS\r\n", "NO ERROR\r\n", "+CME ERROR: x\r\n", "+CMS ERROR:5\r\n", "pre +CMS ERROR: 5\r\n",
        "COMMAND NOT SUPPORTED\r\n", "THIS COMMAND NOT SUPPORT\r\n", "+CME ERROR: 12 \r\n", "> \r\n", "ok\r\n", " OK\r\n", "OK \r\n", "+CMS ERROR: 5x\r\n", "a\r\n\r\nb\r\n",
        "\r\n", "x > y\r\n", "ERROR: 7\r\n", "OK\rOK\r\n", "+CMEERROR: 1\r\n", "+CMX ERROR: 1\r\n", "x+CME ERROR: 1\r\n", "CONNECT\r\n"]
FINAL = ["OK\r\n"] * 5 + ["ERROR\r\n", "+CME ERROR: 14\r\n", "+CMS ERROR: 500\r\n", "COMMAND NOT SUPPORT\r\n", "+CME ERROR: 0\r\n"]


def split(rnd, text, d, spread):
    """a reply in pieces: [[delay, piece]...]"""
    out = []
    n = rnd.choice([1, 1, 2, 3, len(text)])
    cuts = sorted(rnd.sample(range(1, len(text)), min(n - 1, max(0, len(text) - 1)))) if len(text) > 1 else []
    prev = 0
    for c in cuts + [len(text)]:
        out.append([d, text[prev:c]])
        if d >= 0:
            d += rnd.choice(spread)
        prev = c
    return out


def sched(rnd, tier):
    r = rnd.random()
    sd = {"seed": rnd.randrange(10 ** 6)}
    if r < .35:
        sd.update(st="random", p=rnd.choice([.05, .3, .6]))
    elif r < .6:
        sd.update(st="random", p=.3, trace="line", tp=rnd.choice([.02, .1, .4]))
    elif r < .75:
        sd.update(st="random", p=.2, trace="opcode", tp=rnd.choice([.01, .05, .2]))
    elif r < .88:
        sd.update(st="pct", trace="line", depth=rnd.choice([1, 2, 4]), horizon=rnd.choice([300, 1000, 2500]))
    else:
        sd.update(st="pct", depth=rnd.choice([1, 2, 4]), horizon=rnd.choice([100, 400]))
    return sd


def scenarios(tier, seed, extra, part):
    rnd = random.Random("%s%s" % (seed, part))
    n = {"quick": 1400, "thorough": 12000}[tier]
    out = []
    # environments chosen by the specification
    for b in extra or []:
        b = json.loads(json.dumps(b).replace("~", "\\r\\n"))
        if part != "close":
            b = [e for e in b if e["k"] not in ("rdfail", "txfail", "close")]
        out.append(from_spec(b, rnd, tier))
    while len(out) < n:
        out.append(gen(rnd, part, tier))
    return out


def from_spec(b, rnd, tier):
    """a behaviour of SerialLink's environment: commands, replies and unsolicited text with their times"""
    callers, replies, unsol, scn = {}, {}, [], {}
    for e in b:
        if "cmd" in e:
            e["cmd"] += "\r"
        if e["k"] == "call":
            callers.setdefault(e["t"], []).append({"at": e["at"], "cmd": e["cmd"], "tmo": e["tmo"], "prompt": e["prompt"], "wait": e["wait"]})
        elif e["k"] == "reply":
            replies.setdefault(e["cmd"], []).append([e["d"], e["s"]])
        elif e["k"] == "unsol":
            unsol.append([e["at"], e["s"]])
        elif e["k"] == "close":
            callers.setdefault(e["t"], []).append({"at": e["at"], "cmd": "!close"})
        elif e["k"] == "rdfail":
            scn["rdfail"] = e["at"]
        elif e["k"] == "txfail":
            scn.setdefault("txfail", {})[str(e["n"])] = "random"
    scn.update(callers=[callers[t] for t in sorted(callers)] or [[]], replies=replies, unsol=unsol, sched=sched(rnd, tier), tail=3000, src="tlc")
    return scn


def gen(rnd, part, tier):
    nthr = rnd.choice([1, 2, 2, 3]) if part != "tmo" else rnd.choice([1, 1, 2])
    callers, replies, unsol = [], {}, []
    k = 0
    tick = rnd.choice([0, 0, 10, 50])
    tmos = [100, 200, 500] if part == "tmo" else [300, 1000, 5000]
    for t in range(nthr):
        cs = []
        at = 0
        for _ in range(rnd.choice([1, 2, 3] if nthr > 1 else [2, 3, 4])):
            k += 1
            at += rnd.choice([0, 0, tick, 100])
            cmd = "C%d\r" % k
            c = {"cmd": cmd, "at": at, "tmo": rnd.choice(tmos)}
            if rnd.random() < .12 and part != "tmo":
                c["wait"] = False
                if rnd.random() < .5:
                    replies[cmd] = split(rnd, rnd.choice(FINAL), 0, [0])
                cs.append(c)
                continue
            body = "".join(rnd.choice(BODY) for _ in range(rnd.choice([0, 1, 1, 2, 3])))
            if rnd.random() < .15:
                body += rnd.choice(FINAL) + rnd.choice(["+LATE: 1\r\n", "", "OK\r\n"])
            pr = rnd.random() < .35
            if pr:
                c["prompt"] = rnd.choice(["> ", "> ", "> ", ">", "\r\n> "])
                fin = rnd.choice(["> ", "> ", "\r\n> ", "+CMS ERROR: 38\r\n", "OK\r\n", "x> ", ""]) + rnd.choice(["", "", "", "\r\n", "tail\r\n"])
            else:
                fin = rnd.choice(FINAL)
            text = ("\r\n" if rnd.random() < .4 else "") + body + fin
            d = rnd.choice([-1, 0, 0, 10, 50])
            if part == "tmo":
                q = rnd.random()
                if q < .35:       # completes exactly at, just before or just after the deadline
                    x = rnd.choice([0, 0, 0, -10, 10])
                    replies[cmd] = [[0, "\r\n" + body]] * (rnd.random() < .5) + split(rnd, fin, c["tmo"] + x, [0])
                elif q < .5:
                    replies[cmd] = []
                elif q < .62:
                    replies[cmd] = split(rnd, ("\r\n" + body) or "x\r\n", max(d, 0), [0, 20])
                elif q < .72:     # incomplete line or prompt at the deadline, rest afterwards
                    replies[cmd] = [[10, fin[:-1]], [c["tmo"] + rnd.choice([0, 30]), fin[-1:]]]
                elif q < .82:     # pieces around the deadline
                    replies[cmd] = split(rnd, text, c["tmo"] - 20, [0, 10, 20])
                else:
                    replies[cmd] = split(rnd, text, d, [0, 10])
            else:
                q = rnd.random()
                if q < .08:
                    replies[cmd] = []
                else:
                    replies[cmd] = split(rnd, text, d, [0, 0, 10, tick])
            replies[cmd] = [p for p in replies[cmd] if p[1]]
            cs.append(c)
        callers.append(cs)
    for _ in range({"ntf": rnd.choice([2, 4, 8])}.get(part, rnd.choice([0, 1, 3]))):
        u = rnd.choice(UNSOL)
        if rnd.random() < .3:
            u += rnd.choice(UNSOL)
        a = rnd.choice([0, 0, 10, 50, 100, 200, 500, rnd.randrange(0, 60) * 10])
        if rnd.random() < .4:
            unsol += split(rnd, u, a, [0, 10, 50])
        else:
            unsol.append([a, u])
    # an unfinished line must not be followed by someone else's text in the scenarios about notifications only
    scn = {"callers": callers, "replies": replies, "unsol": unsol, "sched": sched(rnd, tier)}
    if part == "close":
        q = rnd.random()
        if q < .4:
            scn["rdfail"] = rnd.choice([0, 10, 50, 100, 300, 1000])
            if rnd.random() < .4:
                scn["fatalclose"] = True
            if rnd.random() < .3:
                scn["closefail"] = rnd.choice(["random", "os"])
        elif q < .7:
            scn["txfail"] = {str(rnd.randrange(0, 3)): rnd.choice(["random", "timeout", "os"])}
            if rnd.random() < .3:
                scn["txfail"][str(rnd.randrange(0, 5))] = "random"
            if rnd.random() < .3:
                scn["wdelay"] = rnd.choice([10, 50])
        if rnd.random() < .8:
            cl = rnd.randrange(len(callers) + 1)
            at = rnd.choice([0, 0, 10, 50, 100, 300, 1200])
            if cl == len(callers):
                callers.append([{"cmd": "!close", "at": at}])
            else:
                callers[cl].insert(rnd.randrange(len(callers[cl]) + 1), {"cmd": "!close", "at": at})
            if rnd.random() < .3:
                callers.append([{"cmd": "!close", "at": rnd.choice([0, 10, 2500])}])
    if rnd.random() < {"ntf": .15, "close": .2, "tmo": .1}.get(part, 0):
        scn["ntfsleep"] = rnd.choice([10, 50, 200, 700, 2500, 6000])
    return scn


if __name__ == "__main__":
    drvlib.main(globals())
