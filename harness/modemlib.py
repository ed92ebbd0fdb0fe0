"""A simulated modem on the simulated port, and the recording of everything that happens between library, user and modem.

The modem is polite: it answers one command at a time and keeps unsolicited lines back while a command is in progress
(a serial line cannot tell the two apart).  Unsolicited lines come at times of their own, never in the middle of a reply.
"""
import json, random, sys
import drvlib
drvlib.setup_path()
import logging
logging.disable(logging.CRITICAL)
import vsched
vsched.install()
import fakeport
import gsmmodem.serial_comms as sc
import gsmmodem.modem as gm
import gsmmodem.exceptions as gx

CLASS_STATE = {}
for _c in (gm.Call, gm.IncomingCall, gm.GsmModem, gm.SentSms, gm.Ussd):
    CLASS_STATE[_c] = {k: v for k, v in vars(_c).items() if not k.startswith("__") and not callable(v) and not isinstance(v, property)}


def reset_classes():
    """undo what an earlier scenario left in class attributes"""
    for c, d in CLASS_STATE.items():
        for k, v in d.items():
            if vars(c).get(k) is not v:
                setattr(c, k, v)


class Rec(object):
    def __init__(self, s):
        self.s, self.ev, self.names = s, [], {}
        self.skip = set()

    def at(self, x=None):
        return int(round(((self.s.now if x is None else x) - 1000.0) * 1000))

    def th(self):
        return self.names.get(self.s.cur.name, 0) if self.s.cur else 0

    def add(self, k, **kw):
        if k not in self.skip:
            kw["k"] = k
            self.ev.append(kw)

    # port interface
    def arrive(self, s):
        pass
    read = arrive

    def readfail(self):
        pass

    def write(self, data, ok):
        pass

    def close(self, reading):
        pass


def exc(e):
    """what is observable of an exception"""
    d = {"cls": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__ if c.__name__ not in ("object", "BaseException", "Exception")],
         "code": -1, "type": "", "cmd": "", "cause": "", "causecode": -1, "data": []}
    for a, f in (("code", int), ("type", str), ("command", str)):
        v = getattr(e, a, None)
        if v is not None:
            d["cmd" if a == "command" else a] = f(v)
    if isinstance(e, gx.TimeoutException) and e.data is not None:
        d["data"] = [str(x) for x in e.data]
    c = getattr(e, "cause", None)
    if c is not None:
        d["cause"] = type(c).__name__
        d["causecode"] = int(getattr(c, "code", -1) or -1)
    return d


ESC = {"\x1a": "^Z", "\x1b": "^[", "\r": "^M", "\n": "^J", "\x00": "^@"}


def clean(s):
    return "".join(ESC.get(c, c if ord(c) >= 32 else "^?") for c in s)


class Reply(object):
    def __init__(self, lines=(), prompt=False, then=(), raw=None, d=None, final=True, make=None):
        self.lines, self.prompt, self.then, self.raw, self.d, self.final = list(lines), prompt, list(then), raw, d, final
        self.make = make           # gives the lines at the moment they are sent


class Sim(object):
    """the modem"""
    def __init__(self, s, rec, prof, rnd, dev):
        self.s, self.rec, self.prof, self.rnd, self.dev = s, rec, prof, rnd, dev
        self.buf = ""
        self.body = None           # what to do with the next message body
        self.busy = 0              # commands in progress
        self.held = []
        self.mute = False          # a command was left without a final result: still in progress until the next one
        self.script = {k: list(v) for k, v in prof.get("script", {}).items()}
        self.lat = prof.get("lat", 10)
        self.seq = 0
        self.nreleased = 0
        self.init()

    def init(self):
        pass

    # -- host to modem ------------------------------------------------------
    def on_write(self, data):
        self.buf += data
        while self.buf:
            if self.body is not None:
                i = min([x for x in (self.buf.find("\x1a"), self.buf.find("\x1b")) if x >= 0] or [-1])
                if i < 0:
                    return
                text, term, self.buf = self.buf[:i], self.buf[i], self.buf[i + 1:]
                f, self.body = self.body, None
                self.rec.add("Tx", t=self.rec.th(), c=clean(text), term="^Z" if term == "\x1a" else "^[", at=self.rec.at(), busy=self.busy > 0)
                self.answer(text, f(text, term == "\x1a"))
            else:
                i = self.buf.find("\r")
                if i < 0:
                    j = max(self.buf.find("\x1a"), self.buf.find("\x1b"))
                    if j < 0:
                        return
                    self.rec.add("Tx", t=self.rec.th(), c=clean(self.buf[:j]), term="^Z" if self.buf[j] == "\x1a" else "^[", at=self.rec.at(), busy=self.busy > 0)
                    self.buf = self.buf[j + 1:]
                    self.stray_body()
                    continue
                cmd, self.buf = self.buf[:i], self.buf[i + 1:]
                if cmd.startswith("\n"):
                    cmd = cmd[1:]
                self.rec.add("Tx", t=self.rec.th(), c=clean(cmd), term="^M", at=self.rec.at(), busy=self.busy > 0)
                self.answer(cmd, self.handle(cmd))

    def stray_body(self):
        self.answer("", Reply(["ERROR"]))

    def handle(self, cmd):
        if cmd in self.script and self.script[cmd]:
            r = self.script[cmd].pop(0)
            return Reply(r["l"], prompt=r.get("prompt", False), d=r.get("d"), final=r.get("final", True)) if isinstance(r, dict) else Reply(r)
        return self.command(cmd)

    def command(self, cmd):
        return Reply(["OK"])

    # -- modem to host ------------------------------------------------------
    def text(self, lines, prompt=False):
        pre = "\r\n" if self.prof.get("fmt", 0) == 1 else ""
        out = "".join(pre + l + "\r\n" for l in lines)
        if prompt:
            out += pre + "> "
        return out

    def answer(self, cmd, r):
        if self.mute:
            self.mute = False
            self.busy -= 1
        if r is None:
            r = Reply([], final=False)
        if r.make:
            self.busy += 1

            def go():
                r.lines = r.make()
                self.send(self.text(r.lines, r.prompt), cmd, r)
            self.s.call_at((self.lat if r.d is None else r.d) / 1000.0, lambda: self.dev.q.append(go))
            return
        text = r.raw if r.raw is not None else self.text(r.lines, r.prompt)
        if self.prof.get("echo") and getattr(self, "echo", False):
            text = cmd + "\r\r\n" + text
        d = self.lat if r.d is None else r.d
        pieces = [text]
        if len(text) > 1 and self.prof.get("split") and self.rnd.random() < self.prof["split"]:
            c = self.rnd.randrange(1, len(text))
            pieces = [text[:c], text[c:]]
        self.busy += 1
        for i, p in enumerate(pieces):
            last = i == len(pieces) - 1
            self.s.call_at((d + i * 10) / 1000.0, lambda p=p, last=last: self.dev.q.append(lambda: self.send(p, cmd if last else None, r)))

    def send(self, text, cmd, r):
        self.dev.port.push(text)
        if cmd is not None:
            if r.final:
                self.busy -= 1
            else:
                self.mute = True
            self.rec.add("Rsp", c=clean(cmd), l=[clean(x) for x in r.lines] + (["> "] if r.prompt else []), at=self.rec.at(), final=r.final)
            for delay, what in r.then:
                self.notify(what, delay)
            self.release()

    def jitter(self):
        self.seq += 1
        return self.rnd.uniform(0.11, 0.79) / 1000.0

    def notify(self, what, delay=0):
        """unsolicited lines (or a function returning them) after `delay` ms"""
        self.s.call_at(delay / 1000.0 + self.jitter(), lambda: self.dev.q.append(lambda: self.emit(what)))

    def emit(self, what):
        if self.busy or self.body is not None:
            self.held.append(what)
            return
        lines = what() if callable(what) else what
        if lines:
            self.rec.add("Urc", l=[clean(x) for x in lines], at=self.rec.at())
            self.dev.port.push(self.text(lines))

    def release(self):
        if not self.busy and self.held:
            held, self.held = self.held, []
            if self.prof.get("batch"):
                def both():
                    return [l for w in held for l in (w() if callable(w) else w)]
                self.notify(both, 1)
            else:
                for i, w in enumerate(held):
                    self.notify(w, i + 1)


class World(object):
    """one scenario: scheduler, port, modem, library object, user threads"""
    def __init__(self, scn, simclass=Sim):
        sd = scn["sched"]
        self.scn = scn
        reset_classes()
        s = self.s = vsched.Sched(seed=sd["seed"], strategy=sd.get("st", "random"), p=sd.get("p", .3), trace=sd.get("trace"),
                                  trace_p=sd.get("tp", .05), depth=sd.get("depth", 3), horizon=sd.get("horizon", 1500))
        vsched.S = s
        self.rec = Rec(s)
        self.dev = fakeport.Device(s, self.rec)
        self.dev.arr = None
        self.sim = simclass(s, self.rec, scn.get("prof", {}), random.Random(sd["seed"]), self.dev)
        self.dev.sim = self.sim
        self.ports = []

        def factory(*a, **k):
            p = fakeport.kind(scn)(self.rec, self.sim.on_write, *a, **k)
            self.dev.port = p
            self.ports.append(p)
            return p
        sc.serial = fakeport.Module(factory)

    def point(self):
        self.s.point()

    def sleep(self, ms):
        self.s.block(lambda: False, ms / 1000.0, "sleep")

    def until(self, at):
        d = at / 1000.0 - (self.s.now - 1000.0)
        if d > 0:
            self.s.block(lambda: False, d, "wait")

    def threads(self, fns):
        vts = []
        for i, fn in enumerate(fns):
            n = "caller%d" % (i + 1)
            self.rec.names[n] = i + 1
            vts.append(self.s.spawn(n, fn))
        return vts

    def join(self, vts):
        self.s.block(lambda: all(v.done for v in vts), None, "callers")

    def run(self, main):
        try:
            self.s.run(main)
        finally:
            vsched.S = None
        for c in self.s.crashes:
            self.rec.add("Crash", what=str(c))
        for d in self.s.deadlock:
            self.rec.add("Deadlock", what=str(d))
        return self.rec.ev


def sched(rnd, light=False):
    r = rnd.random()
    sd = {"seed": rnd.randrange(10 ** 6)}
    if light or r < .45:
        sd.update(st="random", p=rnd.choice([.02, .1, .3, .6]))
    elif r < .72:
        sd.update(st="random", p=.2, trace="line", tp=rnd.choice([.02, .1, .3]))
    elif r < .8:
        sd.update(st="random", p=.2, trace="opcode", tp=rnd.choice([.01, .05]))
    elif r < .92:
        sd.update(st="pct", trace="line", depth=rnd.choice([1, 2, 4]), horizon=rnd.choice([500, 2000, 6000]))
    else:
        sd.update(st="pct", depth=rnd.choice([1, 2, 4]), horizon=rnd.choice([100, 600]))
    return sd
