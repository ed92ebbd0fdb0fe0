"""The real command line tools (C28), run from their arguments to their exit status against simulated modems."""
import os, sys
import drv_term                    # (looks at the console first)
from drv_term import gt, Os, KEYS, FD
import importlib.machinery, importlib.util
import simsms
from simsms import *
from drv_cover import SimCover
import drv_cover, drv_connect, drv_query, drv_send

HARD_EXIT = True
CONKEEP = ("sim", "pin", "reveal", "unsup", "clac", "commands", "cpms", "csca", "cscaform", "csmpdrops", "zmode", "wind", "cfun", "user", "cpin")
FILES = {"sendsms": "sendsms.py", "identify": "identify-modem.py", "gsmterm": "gsmterm.py"}
LOADED = {}


def tool(name):
    if name not in LOADED:
        l = importlib.machinery.SourceFileLoader("tool_" + name, os.path.join(drvlib.REPO, "tools", FILES[name]))
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader(l.name, l))
        l.exec_module(m)
        LOADED[name] = m
    return LOADED[name]


class SimTool(SimSms, SimCover):
    """told: the library has connected; from then on answers follow the scenario"""
    def init(self):
        SimSms.init(self)
        self.world, self.t0, self.glitch, self.told = [[0, 1, 20]], 0, [], False
        self.plan, self.tool = {}, ""

    def command(self, c):
        if not self.told:
            return SimSms.command(self, c)
        if self.tool == "sendsms":
            return SimCover.command(self, c) if c in ("AT+CREG?", "AT+CSQ") else SimSms.command(self, c)
        a = self.plan.get(c)
        if a is None:
            return SimSms.command(self, c)
        return Reply([], final=False) if a["l"] is None else Reply(a["l"], d=a.get("d"))


class Text(object):
    """stands for stdout and stderr"""
    encoding = "utf-8"

    def __init__(self):
        self.t = ""

    def write(self, x):
        self.t += x
        return len(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def lines(self):
        return [clean(x) for x in self.t.split("\n")]


class Stdin(object):
    """the user at the keyboard"""
    encoding = "utf-8"

    def __init__(self, w, typed):
        self.w, self.typed = w, typed

    def readline(self, n=-1):
        rec = self.w.rec
        rec.add("Ask", at=rec.at())
        t = self.typed.pop(0) if self.typed else {"k": "eof", "d": 0}
        self.w.sleep(t["d"])
        if t["k"] == "eof":
            return ""
        if t["k"] == "int":
            raise KeyboardInterrupt()
        rec.add("Line", text=cps(t["text"]), raw=clean(t["text"]), at=rec.at())
        return t["text"] + "\n"

    def __iter__(self):
        return self

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x

    def read(self, n=-1):
        return self.readline()

    def isatty(self):
        return False

    def flush(self):
        pass


def console(scn):
    """the terminal as a process of its own: a console to type at and a port, both of them pseudo terminals"""
    import select, signal, termios, time
    am, asl = os.openpty()
    bm, bsl = os.openpty()
    port = "/nosuchport" if scn["noport"] else os.ttyname(bsl)
    before = termios.tcgetattr(asl)
    argv = [port if x == scn["args"]["port"] else x for x in scn["argv"]]
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    env.update(PYTHONPATH=drvlib.REPO, PYTHONDONTWRITEBYTECODE="1", TERM="xterm")
    cmd = [sys.executable, os.path.join(drvlib.REPO, "tools", FILES["gsmterm"])] + argv
    pid = os.posix_spawn(cmd[0], cmd, env, setsid=True, file_actions=[(os.POSIX_SPAWN_DUP2, asl, i) for i in (0, 1, 2)])
    code = [None]

    def clock():                   # (the time module is in virtual time)
        return time.clock_gettime(time.CLOCK_MONOTONIC)

    def ended():
        if code[0] is None:
            q, st = os.waitpid(pid, os.WNOHANG)
            if q:
                code[0] = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 1
        return code[0] is not None
    ev, end, shown, queue, due = [], clock() + 13, "", [list(x) for x in scn["keys"]], None
    try:
        if scn["usage"]:
            ev.append({"k": "Open", "port": scn["args"]["port"], "baud": scn["args"].get("baud", "115200"), "at": 0})
        while clock() < end and not ended():
            r, _, _ = select.select([am, bm], [], [], .05)
            for fd in r:
                x = os.read(fd, 4096).decode("utf-8", "replace")
                if fd == am:
                    shown += x
                else:
                    ev.append({"k": "W", "x": [clean(c) for c in x], "at": 0})
            if "Press CTRL" in shown and due is None:
                due = clock() + .2
            if due and clock() >= due and queue:
                k = queue.pop(0)
                ev.append({"k": "Keys", "q": [x for x in k if x != "exit"], "at": 0})
                os.write(am, "".join(KEYS.get(x, x) for x in k).encode())
                due = clock() + .02
        if ended():
            while select.select([bm], [], [], .1)[0]:
                ev.append({"k": "W", "x": [clean(c) for c in os.read(bm, 4096).decode("utf-8", "replace")], "at": 0})
            while select.select([am], [], [], .1)[0]:
                shown += os.read(am, 4096).decode("utf-8", "replace")
            ev.append({"k": "Closed", "at": 0})
            ev.append({"k": "Exit", "code": code[0], "out": [], "err": ["shown"] if shown else [], "raised": False,
                       "restored": termios.tcgetattr(asl)[:4] == before[:4], "at": 0})
    finally:
        if not ended():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        for fd in (am, asl, bm, bsl):
            os.close(fd)
    ev.append({"k": "End", "at": 0})
    return ev


def run(scn):
    if scn.get("console"):
        ev = console(scn)
        return record(scn, ev)
    p = scn["prof"]
    name = scn["tool"]
    isterm = name == "gsmterm"
    w = World(scn, drv_term.SimTerm if isterm else SimTool)
    rec, sim = w.rec, w.sim
    out, err = Text(), Text()
    over = []
    queue = [list(x) for x in scn.get("keys", [])]
    factory = sc.serial.Serial

    def opened(*a, **k):
        port, baud = (list(a) + [None, None])[:2]
        rec.add("Open", port=str(k.get("port", port)), baud=str(k.get("baudrate", baud)), at=rec.at())
        if scn.get("noport"):
            raise fakeport.SerialException("could not open port")
        return factory(*a, **k)
    sc.serial.Serial = opened
    rec.close = lambda reading: rec.add("Closed", at=rec.at())
    if isterm:
        def on_write(data):
            data = data if isinstance(data, str) else bytes(data).decode("latin-1")
            rec.add("W", x=[clean(c) for c in data], at=rec.at())
        sim.on_write = on_write
    connect = gm.GsmModem.connect

    def connecting(self, *a, **k):
        try:
            r = connect(self, *a, **k)
        except BaseException:
            rec.add("NoCon", at=rec.at())
            raise
        rec.add("Con", at=rec.at())
        sim.told, sim.t0 = True, rec.at()
        return r

    def read(fd, n):
        if not queue:
            w.s.block(lambda: False, None, "no more keys")
        w.sleep(30)
        k = queue.pop(0)
        rec.add("Keys", q=[x for x in k if x != "exit"], at=rec.at())
        return "".join(KEYS.get(x, x) for x in k).encode("utf-8")

    def body():
        code, raised = 0, False
        try:
            tool(name).main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if code == 1 and not isinstance(e.code, int):
                err.write("%s\n" % e.code)
        except KeyboardInterrupt:
            code, raised = 130, True
        except Exception as e:
            code, raised = 1, True
            err.write("Traceback\n%s\n" % type(e).__name__)
        if isterm:
            w.sleep(500)
        if not over:
            over.append(1)
            rec.add("Exit", code=code, out=out.lines(), err=err.lines(), raised=raised, restored=True, at=rec.at())

    def main():
        old = sys.stdout, sys.stderr, sys.stdin, sys.argv
        if isterm:
            for a in list(gt.console.__dict__):
                if a not in FD:
                    del gt.console.__dict__[a]
            gt.console.__dict__.update({a: (type(v)(v) if isinstance(v, (str, list)) else v) for a, v in FD.items()})
            gt.os = Os(read)
        else:
            gm.GsmModem.connect = connecting
            sim.world = scn.get("world", sim.world)
            sim.glitch = [dict(x) for x in scn.get("glitch", [])]
            sim.plan, sim.tool = scn.get("plan", {}), name
        sys.stdout, sys.stderr, sys.stdin, sys.argv = out, err, Stdin(w, [dict(x) for x in scn.get("typed", [])]), [FILES[name]] + list(scn["argv"])
        try:
            vts = w.threads([body])
            w.s.block(lambda: all(v.done for v in vts), 120 if not isterm else 30, "tool")
        finally:
            sys.stdout, sys.stderr, sys.stdin, sys.argv = old
            gm.GsmModem.connect = connect
            gt.os = os
        rec.add("End", at=rec.at())
        for x in w.ports:
            x.close_error = None
            if x.isopen:
                rec.skip.add("Closed")
                x.close()
    ev, keep = w.run(main), []
    told = False
    for e in ev:
        if e["k"] in ("Urc", "Rx"):
            continue
        if e["k"] == "Con":
            told = True
        if e["k"] == "Rsp":
            a = scn.get("plan", {}).get(e["c"]) if told else None
            e["v"] = list(a["v"]) if a and a.get("v") is not None else []
        if e["k"] == "Tx" and e["term"] != "^M":
            h = e["c"]
            e["hex"] = len(h) % 2 == 0 and all(x in "0123456789ABCDEFabcdef" for x in h)
            e["o"] = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)] if e["hex"] else []
            e["c"] = ""
        keep.append(e)
        if e["k"] == "End":
            break
    ends = [i for i, e in enumerate(keep) if e["k"] == "Exit"]
    if ends:                       # what the modem does afterwards is of no interest
        keep = [e for i, e in enumerate(keep) if i <= ends[0] or e["k"] in ("End", "Tx", "Crash")]
    return record(scn, keep)


def record(scn, keep):
    p, a = scn["prof"], scn["args"]
    con = {k: p[k] for k in CONKEEP if k in p}
    con["aim"] = "pin"
    return {"prof": {"tool": scn["tool"], "noport": bool(scn.get("noport")), "usage": scn["usage"], "con": con, "snd": {"text": False, "threads": 1, "sel": "ME", "parts": 1, "late": 3000},
                     "argv": {"port": a.get("port", ""), "baud": a.get("baud", "115200"), "pin": a.get("pin", ""), "deliver": a.get("deliver", False), "debug": a.get("debug", False),
                              "raw": a.get("raw", False), "dest": cps(a.get("dest", "")), "deststr": a.get("dest", "")}}, "ev": keep}


# ---- scenarios ------------------------------------------------------------------------------------------
OPTS = {"sendsms": [("port", "-i", "--port"), ("baud", "-b", "--baud"), ("pin", "-p", "--pin"), ("deliver", "-d", "--deliver")],
        "identify": [("baud", "-b", "--baud"), ("pin", "-p", "--pin"), ("debug", "-d", "--debug")], "gsmterm": [("baud", "-b", "--baud"), ("raw", "-r", "--raw")]}
POS = {"sendsms": "dest", "identify": "port", "gsmterm": "port"}


def argv(rnd, name, a):
    """the arguments in any order and style"""
    parts = []
    for k, s, l in OPTS[name]:
        if k not in a or a[k] is False:
            continue
        v = a[k]
        if v is True:
            parts.append([rnd.choice([s, l])])
        else:
            parts.append(rnd.choice([[s, v], [l, v], [l + "=" + v], [s + v]]))
    if POS[name] in a:
        parts.append([a[POS[name]]])
    rnd.shuffle(parts)
    return [x for q in parts for x in q]


def usage(rnd, name, a):
    """something is missing or unknown"""
    k = rnd.choice(["pos", "unknown", "extra", "value"] + (["port", "port", "port"] if name == "sendsms" else []))
    b = dict(a)
    if k == "pos":
        b.pop(POS[name])
        return argv(rnd, name, b)
    if k == "port":
        b.pop("port")
        return argv(rnd, name, b)
    v = argv(rnd, name, b)
    if k == "extra":
        return v + ["surplus"]
    if k == "value":
        b.pop("baud", None)
        return argv(rnd, name, b) + [rnd.choice(["-b", "--baud"])]
    return v + [rnd.choice(["-x", "--unknown", "--nosuch=1"])]


def args(rnd, name, p):
    a = {"port": rnd.choice(["/dev/ttyUSB0", "COM4", "3", "/dev/ttyS1"])}
    if rnd.random() < .5:
        a["baud"] = rnd.choice(["9600", "57600", "115200", "460800"])
    return a


WORDS = ["Hello", "Hi there", "x", "Gr\xfc\xdfe", "\u4f60\u597d", "100% {sure}", "a" * 160, "b" * 161, "c" * 330, "\u20ac" * 80, "\u0434" * 71, "two  spaces ", " leading", "'quoted' \"text\"", "-d", "tab\tbed", "ends in \\"]
DBG = ["ATI", "AT+CGMI", "AT+CGMM", "AT+CGMR", "AT+CFUN=?", "AT+WIND=?", "AT+WIND?", "AT+CPMS=?", "AT+CNMI=?", "AT+CVHU=?", "AT+CSMP?", "AT+GCAP", "AT+CPIN?", "AT+CLAC"]


def connecting(rnd, p, name, b):
    """the SIM, its PIN and what the user knows of it"""
    p["sim"] = b.get("sim", rnd.choice(["ready"] * 9 + ["pin", "pin", "pin", "puk", "absent"]))
    p["reveal"] = rnd.choice(["later", "reset"])
    p["pin"] = rnd.choice(["1234", "0000", "98765432", "0042"])
    g = b.get("given", rnd.choice(["right", "right", "wrong", "none"]) if p["sim"] != "ready" else rnd.choice(["none", "none", "right", "wrong"]))
    pin = {"right": p["pin"], "wrong": rnd.choice(["9999", p["pin"][:-1], p["pin"] + "0"]), "none": ""}[g]
    p["cpin"] = rnd.choice(["ok", "ok", "nook", "nospace", "extra"])
    p["zmode"] = rnd.choice([0, 0, 1])
    p["absent"], p["absenterr"], p["noise"] = rnd.choice(["NOT READY", "NOT INSERTED"]), rnd.choice([10, 13]), "^RSSI: 12"
    p["unsup"] = [u for u in drv_connect.OPTIONAL if rnd.random() < .06 and u not in ("AT+CPMS=?", 'AT+CPMS="', "AT+CNMI")]
    if rnd.random() < .03:
        p["unsup"].append("AT+CMGF")
    p["errs"] = {u: rnd.choice(drv_connect.ERRS) for u in p["unsup"]}
    p["codes"] = rnd.random() < .7
    p["clac"] = rnd.choice(["none", "none", "single", "multi"])
    p["user"] = {"pins": [pin], "text": False, "smsc": ""}
    return pin


def gen(rnd, name, b=None):
    b = b or {}
    p = profile(rnd, ref=rnd.choice([0, 1, 200, 255]))
    a = args(rnd, name, p)
    scn = {"prof": p, "tool": name, "args": a, "usage": True, "sched": sched(rnd, light=True)}
    if name == "gsmterm":
        a["raw"] = b.get("raw", rnd.random() < .5)
        p.update(user={"pins": [""], "text": False, "smsc": ""})
        keys = []
        for _ in range(rnd.choice([1, 2, 3])):
            s = rnd.choice(["AT+CSQ", "at", "ATI3", "ATD0123;", "AT+CMGF=1"])
            for c in s:
                keys.append([c])
                if rnd.random() < .1:
                    keys += [[rnd.choice("xyz9")], ["bs"]] if not a["raw"] else [[rnd.choice("xyz9")]]
            keys.append(["enter"])
        scn["keys"] = keys + [["exit"]]
    else:
        pin = connecting(rnd, p, name, b)
        if pin:
            a["pin"] = pin
    if name == "sendsms":
        a["dest"] = b.get("dest") or ("+" if rnd.random() < .5 else "") + "".join(rnd.choice("0123456789") for _ in range(rnd.choice([3, 5, 10, 11, 12])))
        a["deliver"] = b.get("deliver", rnd.random() < .5)
        good = b.get("covered", rnd.random() < .75)
        scn["world"] = b.get("world") or ([[0, rnd.choice([1, 5]), rnd.choice([1, 15, 31])]] if good else drv_cover.world(rnd, False))
        if not good and rnd.random() < .3:
            scn["world"][-1][1:] = [rnd.choice([1, 2, 5]), rnd.choice([0, 99])]
        if rnd.random() < .1:
            p["cannot"] = rnd.choice(["", "ERROR", "+CME ERROR: 3"])
        p["cregfmt"], p["cregn"], p["csqfmt"] = rnd.choice(drv_cover.FORMS), rnd.choice([0, 1]), "+CSQ: %d,99"
        scn["glitch"] = [{"err": rnd.choice(drv_cover.ERR)} if rnd.random() < .02 else {} for _ in range(20)]
        x = rnd.random()
        scn["typed"] = [b.get("typed") or {"k": "eof" if x < .05 else "int" if x < .1 else "line", "d": rnd.choice([0, 20, 3000]), "text": rnd.choice(WORDS)}]
        q = rnd.choice([0, 0, 0, .2, .5])
        p["cmgs"] = b.get("cmgs") or [drv_send.behaviour(rnd, q) for _ in range(6)]
        p["reports"] = b.get("reports") or [None if rnd.random() < .25 else {"delay": rnd.choice([0, 1, 40, 1000, 5000, 14000, 20000]), "st": rnd.choice([0, 0, 0, 64, 70, 99]), "mem": rnd.choice(["SR", "SM", "ME"]), "fail": None} for _ in range(6)]
    if name == "identify":
        a["debug"] = b.get("debug", rnd.random() < .4)
        v = drv_query.answers(rnd)
        pl = {}
        for c in sorted(set(list(drv_query.CMD) + (DBG if a["debug"] else []))):
            x = rnd.random()
            if x < .04:
                pl[c] = {"l": None, "v": None}
            elif x < b.get("refused", .12) or (c == "AT+CGMR" and x < .35):
                pl[c] = {"l": [rnd.choice(drv_query.ERR)], "v": None}
            elif a["debug"]:
                pl[c] = {"l": rnd.sample(["ACME", "Revision: 1.0", "+GCAP: +CGSM,+FCLASS,+DS", "(0-5),(0,1)", '+CSMP: 49,167,0,0', "x=y"], rnd.choice([0, 1, 2, 3])) + ["OK"], "v": []}
            else:
                q = drv_query.CMD.get(c)
                if q == "supportedCommands":
                    continue
                if q == "signalStrength":
                    pl[c] = {"l": [v[q]["f"] % v[q]["v"], "OK"], "v": [str(-1 if v[q]["v"] == 99 else v[q]["v"])]}
                elif q == "networkName":
                    n = v[q]["v"]
                    pl[c] = {"l": ([v[q]["f"] % n] if n is not None else [v[q]["f"]] if v[q]["f"] else []) + ["OK"], "v": [n] if n is not None else []}
                else:
                    n = v[q]["v"] or "v1"
                    pl[c] = {"l": [n] + ["second line"] * (rnd.random() < .1) + ["OK"], "v": [n]}
            if rnd.random() < .1:
                pl[c]["d"] = rnd.choice([200, 1500])
        scn["plan"] = pl
    if rnd.random() < b.get("wrong", .06):
        scn["usage"] = False
        scn["argv"] = usage(rnd, name, a)
    else:
        scn["argv"] = argv(rnd, name, a)
        scn["noport"] = rnd.random() < .03
    if name == "gsmterm" and b.get("console"):
        scn["console"] = True
        scn["noport"] = scn["usage"] and rnd.random() < .2
        if scn["usage"]:
            scn["argv"] = [a["port"]] + [x for x in (["-r"] if a["raw"] else [])]
    return scn


def from_spec(b, rnd):
    c = dict(b["run"])
    name = c.pop("tool")
    at, c["world"] = 0, []
    for x in b["world"]:
        c["world"].append([at, x["reg"], x["ss"]])
        at += x["for"]
    c["cmgs"] = c["cmgs"] + [{}] * 6
    c["reports"] = [dict(x, mem="SM", fail=None) for x in c["reports"]] or [None]
    return dict(gen(rnd, name, c), src="tlc")


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("tools%s" % seed)
    n = {"quick": 900, "thorough": 10000}[tier]
    out = [from_spec(b, rnd) for b in extra or []]
    for i in range({"quick": 24, "thorough": 160}[tier]):
        out.append(gen(rnd, "gsmterm", {"console": True, "raw": i % 2 == 0}))
    while len(out) < n:
        out.append(gen(rnd, rnd.choice(["sendsms", "sendsms", "sendsms", "sendsms", "identify", "identify", "gsmterm"])))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
