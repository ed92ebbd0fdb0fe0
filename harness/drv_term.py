"""The real interactive terminal (C25-C27): keys go in at os.read, what it transmits is seen at the port, its screen by a small emulator."""
import os, pty, re, shutil, sys, tempfile
_m, _s = pty.openpty()
os.dup2(_s, 0)                     # the module looks at the console when it is imported
from modemlib import *
import gsmtermlib.terminal as gt
from gsmtermlib.atcommands import ATCOMMANDS, CATEGORIES

HARD_EXIT = True
NAMED = {"enter": "\n", "tab": "\t", "up": "\x1b[A", "down": "\x1b[B", "right": "\x1b[C", "left": "\x1b[D", "del": "\x1b[3~", "home": "\x1bOH", "end": "\x1bOF",
         "^Z": "\x1a", "esc": "\x1b", "bs": "\x7f", "exit": "\x1d", "exit2": "\x04"}
ODD = {"odd1": "\x01", "odd2": "\x1bOP", "odd3": "\x1b[15~", "odd4": "\x1b[2~", "odd5": u"\xe9", "odd6": "\x03", "odd7": "\x1b[5~", "odd8": "\x08", "odd9": u"\u4e2d", "odda": u"\xe0"}
KEYS = dict(NAMED, **ODD)
STDOUT = sys.stdout


class Screen(object):
    """what a terminal shows (endless width)"""
    SGR = re.compile("\x1b\\[[0-9;]*m")
    MOVE = re.compile("\x1b\\[([0-9]*)([CD])")

    def __init__(self):
        self.rows, self.row, self.col, self.pend = [[]], 0, 0, ""

    def write(self, text):
        text = self.pend + text
        self.pend = ""
        i = 0
        while i < len(text):
            c = text[i]
            if c == "\x1b":
                m = self.SGR.match(text, i)
                if m:
                    i = m.end()
                    continue
                m = self.MOVE.match(text, i)
                if m:
                    n = int(m.group(1) or 1)
                    self.col = max(0, self.col + (n if m.group(2) == "C" else -n))
                    i = m.end()
                    continue
            if c == "\r":
                self.col = 0
            elif c == "\n":
                self.row += 1
                self.col = 0
                if self.row == len(self.rows):
                    self.rows.append([])
            elif c == "\b":
                self.col = max(0, self.col - 1)
            else:
                r = self.rows[self.row]
                while len(r) <= self.col:
                    r.append(" ")
                r[self.col] = c
                self.col += 1
            i += 1
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return True

    def text(self, a):
        return ["".join(r).rstrip() for r in self.rows[a:]]


class SimTerm(Sim):
    """answers commands; message entry after a prompt"""
    def init(self):
        self.inbody = False
        self.cmgs = list(self.prof.get("cmgs", []))
        self.answers = list(self.prof.get("answers", []))

    def on_write(self, data):
        if not isinstance(data, str):
            data = bytes(data).decode("latin-1")
        self.rec.add("W", x=clean(data), at=self.rec.at())
        self.buf += data
        while self.buf:
            if self.inbody:
                i = min([x for x in (self.buf.find("\x1a"), self.buf.find("\x1b")) if x >= 0] or [-1])
                if i < 0:
                    return
                sent, self.buf, self.inbody = self.buf[i] == "\x1a", self.buf[i + 1:], False
                if self.prof.get("bodyans", True):
                    self.reply(["+CMGS: 5", "OK"] if sent else ["OK"], 40)
            else:
                i = self.buf.find("\r")
                if i < 0:
                    return
                cmd, self.buf = self.buf[:i].lstrip("\n"), self.buf[i + 1:]
                if cmd.upper().startswith("AT+CMGS="):
                    a = self.cmgs.pop(0) if self.cmgs else ["prompt", 20]
                    if a[0] in ("prompt", "echo"):
                        self.inbody = True
                        self.reply([cmd + "\r"] if a[0] == "echo" else [], a[1], prompt=True)
                    elif a[0] != "silent":
                        self.reply(a[0].split("|"), a[1])
                else:
                    a = self.answers.pop(0) if self.answers else [["OK"], 15]
                    if a[0]:
                        self.reply(a[0], a[1])

    def reply(self, lines, d, prompt=False):
        self.s.call_at(d / 1000.0 + self.jitter(), lambda: self.dev.q.append(lambda: self.rxd(lines, prompt)))

    def rxd(self, lines, prompt=False):
        self.rec.add("Rx", l=[x for x in lines if not x.endswith("\r")], prompt=prompt, final=bool(lines) and re.match(r"^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))$", lines[-1]) is not None, at=self.rec.at())
        self.dev.port.push(self.text(lines, prompt))


class Os(object):
    """stands for the module os inside the terminal: reading the console gives the keys of the scenario"""
    def __init__(self, read):
        self.read = read

    def __getattr__(self, n):
        return getattr(os, n)


def run(scn):
    p, part = scn["prof"], scn["part"]
    w = World(scn, SimTerm)
    rec = w.rec
    screen = Screen()
    queue = list(scn["keys"])
    st = {"row": 0, "idle": False}
    tmp = tempfile.mkdtemp(prefix="verifterm") if p["files"] else None
    real_close = fakeport.Port.close

    def sub(x):
        return x.replace("@", tmp or "@")
    if tmp:
        for f in p["files"]:
            n = os.path.join(tmp, f["f"])
            if f["kind"] == "dir":
                os.mkdir(n)
            elif f["kind"] == "bin":
                open(n, "wb").write(b"\xff\xfeAT\x00")
            elif f["kind"] == "text":
                with open(n, "w") as h:
                    h.write("".join(sub(l) + "\n" for l in f["l"]))

    def read(fd, n):
        e = {"at": rec.at(), "row": "", "col": 0, "rows": [], "words": []}
        if p["screen"]:
            t = screen.text(st["row"])
            e["row"], e["col"] = "".join(screen.rows[screen.row]).rstrip(), screen.col
            if len(t) > 1:
                e["rows"] = [clean(x) for x in t[:-1]]
                e["words"] = sorted(set(y for x in e["rows"] for y in x.split() if len(y) < 20 and y[:1] == "A"))
            st["row"] = screen.row
        rec.add("Ready", **e)
        if not queue:
            st["idle"] = True
            w.s.block(lambda: False, None, "no more keys")
        k = queue.pop(0)
        if k["d"]:
            w.sleep(k["d"])
        ks = [c for x in k["q"] for c in ([x] if x in KEYS or len(x) == 1 or x == "kbint" else list(sub(x)))]
        if ks == ["kbint"]:
            rec.add("Keys", q=["kbint"])
            raise KeyboardInterrupt()
        rec.add("Keys", q=ks)
        data = "".join(KEYS.get(x, x) for x in ks).encode("utf-8")
        assert n >= len(data) or n < 16
        if len(data) > n:          # a small read: the rest stays for the next one
            rec.ev.pop()
            rec.add("Keys", q=ks)
            pending.append(data[n:])
        return data[:n]
    pending = []

    def read2(fd, n):
        if pending:
            d = pending.pop(0)
            if len(d) > n:
                pending.insert(0, d[n:])
            return d[:n]
        return read(fd, n)

    def main():
        old = sys.stdout
        sys.stdout = screen
        gt.os = Os(read2)
        gt.console.__dict__.pop("keys", None)
        for a in list(gt.console.__dict__):
            if a not in FD:
                del gt.console.__dict__[a]
        gt.console.__dict__.update({a: (type(v)(v) if isinstance(v, (str, list)) else v) for a, v in FD.items()})
        try:
            t = gt.RawTerm("-", 9600) if p["raw"] else gt.GsmTerm("-", 9600, useColor=scn["color"])
            for n in scn["noise"]:
                w.s.call_at(n[0] / 1000.0 + .0003, lambda n=n: w.dev.q.append(lambda: w.sim.rxd(n[1])))
            t.start()
            w.s.block(lambda: st["idle"] or not t.inputThread.is_alive() or "closed" in st, None, "keys")
            w.sleep(2500)
            rows = [clean(x) for x in screen.text(0)] if p["screen"] else []
            rec.add("Look", rows=[x for x in rows if x in allrx()], at=rec.at())
        finally:
            sys.stdout = old
            gt.os = os

    def allrx():
        return set(x for e in rec.ev if e["k"] == "Rx" for x in e["l"])

    def close(reading):
        st["closed"] = 1
        rec.add("Closed", at=rec.at())
    rec.close = close
    try:
        ev = w.run(main)
    finally:
        if tmp:
            shutil.rmtree(tmp)
    ks = set(k for e in ev if e["k"] == "Keys" for k in e["q"])
    used = " ".join("".join(k["q"]) for k in scn["keys"]).upper() + " ".join(l for f in p["files"] for l in f["l"]).upper()
    need = p["screen"] and re.search(r"\?|HELP|LS", used)
    prof = {"raw": p["raw"], "screen": p["screen"] and part == "screen", "show": p["screen"] and part != "line", "prompt": "GSM> ", "cats": list(CATEGORIES),
            "cmds": sorted(set(c for c, h in ATCOMMANDS)) if not p["raw"] else [], "info": [{"n": c, "t": h[1], "c": h[0]} for c, h in ATCOMMANDS] if need else [],
            "files": [{"n": os.path.join(tmp, f["f"]), "l": [sub(l) for l in f["l"]] if f["kind"] == "text" else []} for f in p["files"]],
            "chars": {k: clean(KEYS.get(k, "\x03" if k == "kbint" else k)) for k in ks}}
    return {"prof": prof, "ev": ev}


FD = dict((a, (type(v)(v) if isinstance(v, (str, list)) else v)) for a, v in vars(gt.console).items())
NAMES = sorted(set(c for c, h in ATCOMMANDS))
ERR = ["ERROR", "+CMS ERROR: 302", "+CME ERROR: 30"]


def case(rnd, x):
    return rnd.choice([x, x.lower(), x, "".join(rnd.choice([c, c.lower()]) for c in x)])


def word(rnd):
    r = rnd.random()
    if r < .25:
        return case(rnd, rnd.choice(["AT", "AT+CSQ", "ATI", "AT+COPS?", "ATD0123;", "AT+CUSD=1,\"*100#\"", "A/", "AT+CLAC", "AT+CMGF=1", "ATS0=2"]))
    if r < .4:
        c = rnd.choice(NAMES)
        return case(rnd, c[:rnd.randint(1, len(c))])
    if r < .5:
        return rnd.choice(["xyz", "#comment", "loa", "l", "s", "hel", "?", "=", "AT+CMGS", "quit"])
    return "".join(rnd.choice("abAT+0 =?\"é~!z" .replace("é", "")) for _ in range(rnd.randint(1, 6)))


EDIT = ["left", "left", "right", "home", "end", "bs", "bs", "del", "left"]


def edits(rnd, n):
    out = []
    for _ in range(n):
        r = rnd.random()
        if r < .45:
            out.append(rnd.choice(EDIT))
        elif r < .6:
            out.append(rnd.choice(["up", "up", "down"]))
        elif r < .85:
            out.append(rnd.choice("aT+1 x?"))
        elif r < .92:
            out.append("tab")
        else:
            out.append(rnd.choice(list(ODD)))
    return out


def cmgs(rnd):
    return case(rnd, "AT+CMGS=") + rnd.choice(['"+123"', "23", '"0830000"', "?", ""])


REPEAT = [1] * 20 + [7, 16, 41]


def program(rnd, part):
    """chunks of keys"""
    ks = []

    def line(x):
        ks.extend(list(x))
        if rnd.random() < .4:
            ks.extend(edits(rnd, rnd.choice([1, 2, 5, 9])))
        if rnd.random() < .15:
            ks[-len(x):-len(x)] = [" "] * rnd.choice([1, 2])
        if rnd.random() < .1:
            ks.extend([" "] * rnd.choice([1, 3]))
        ks.append("enter")
    n = rnd.choice([1, 3, 6, 12])
    for _ in range(n):
        r = rnd.random()
        if part == "sms" and r < .3:
            ks.extend(list(cmgs(rnd)) + ["enter"])
            for _ in range(rnd.choice([0, 1, 3])):
                ks.extend(list(word(rnd)) * rnd.choice(REPEAT) + edits(rnd, rnd.choice([0, 0, 2, 4])))
                if rnd.random() < .4:
                    ks.append("enter")
            ks.append(rnd.choice(["^Z", "^Z", "^Z", "esc", "esc", "up", "tab"]))
        elif part == "sms" and r < .55:
            c = case(rnd, rnd.choice(NAMES))
            ks.extend(["home"] * 0 + [" "] * rnd.choice([0, 0, 0, 1, 5]) + list(rnd.choice([c, c[:rnd.randint(0, len(c))], c[:-1], c + "=", c[:4], "XYZ=", "AT+", "at+w", "=", c + "=1", c + " "])))
            ks.extend(rnd.choice([[], [], ["left"], [" "], ["home"]]) + ["tab"] * rnd.choice([1, 1, 2]))
            ks.extend(rnd.choice([["enter"], [], ["end"] + ["bs"] * rnd.choice([4, 12])]))
        elif part == "sms" and r < .75:
            c = case(rnd, rnd.choice(NAMES + ["AT+XYZ", "AT"]))
            line2 = rnd.choice(["?" + c, c + "??", c + "=??", "help " + c, "HELP", "help", "ls", "LS", "lscat", "ls " + case(rnd, rnd.choice(CATEGORIES)), "ls foo", "lsx", "??", "?", "?D", "???", "? " + c])
            ks.extend(list(line2) + ["enter"])
        elif r < .85:
            line(word(rnd) * rnd.choice(REPEAT))
        elif r < .93:
            ks.extend(edits(rnd, rnd.choice([2, 6, 12])))
        elif r < .96:
            ks.extend([rnd.choice(["^Z", "esc", "odd1", "odd3", "odd2"])])
        else:
            ks.extend(rnd.choice([["enter"], [" ", "enter"], ["up"] * 3 + ["down"] * 4]))
    return ks


def chunks(rnd, ks, burst):
    out, i = [], 0
    while i < len(ks):
        n = 1 if not burst or rnd.random() < .5 else rnd.choice([2, 3, 4, 5, 9])
        q = []
        while i < len(ks) and len(q) < n:
            q.append(ks[i])
            i += 1
            if q[-1] in ("esc", "odd2", "odd3", "odd4", "odd7", "kbint") and q[-1] in ("esc", "kbint"):
                if q[-1] == "kbint" and len(q) > 1:
                    q.pop()
                    i -= 1
                break
        out.append({"d": rnd.choice([0, 0, 0, 0, 5, 60, 300]), "q": q})
    return out


def files(rnd):
    out = [{"f": "a", "kind": "text", "l": rnd.choice([["AT", "# no", "", "  AT+CSQ  "], ["AT#BND?  # x", "ATD*#06#;", "#"], ["AT+CSQ", "?AT+CSQ", "ATI"], [], ["#x"], ["at+cmgf=1", "load @/b", "ATZ"]])},
           {"f": "b", "kind": "text", "l": rnd.choice([["AT+CREG?"], ["load @/zz", "AT"], ["ls lines", "ATE0"]][:2])}]
    if rnd.random() < .3:
        out.append({"f": "c", "kind": "dir", "l": []})
    if rnd.random() < .3:
        out.append({"f": "d", "kind": "bin", "l": []})
    return out


def gen(rnd, part, b=None):
    b = b or {}
    real = part
    if part == "screen":
        part = rnd.choice(["line", "sms"])
    s = gen1(rnd, part, b, real == "screen")
    s["part"] = real
    return s


def gen1(rnd, part, b, screen):
    raw = "keys" not in b and part != "sms" and rnd.random() < .12
    p = {"raw": raw, "screen": screen or rnd.random() < .5, "files": [], "fmt": rnd.choice([0, 1]), "lat": 10}
    p["cmgs"] = [rnd.choice([["prompt", 20], ["prompt", 2500], ["echo", 20], [rnd.choice(ERR), 20], ["OK", 20], ["+CMGS: 5|OK", 30], ["silent", 0], ["prompt", 3600]])
                 if rnd.random() < .45 else ["prompt", 20] for _ in range(12)]
    if "answers" in b:
        p["cmgs"] = [{"prompt": ["prompt", 20], "error": [rnd.choice(ERR), 20], "silent": ["silent", 0], "late": ["prompt", 3600]}[x] for x in b["answers"]]
    p["answers"] = [rnd.choice([[["OK"], 15], [["OK"], 15], [["ERROR"], 5], [["+CSQ: 17,99", "OK"], 30], [[], 0], [["a line", "another one", "OK"], 200]]) for _ in range(30)]
    p["bodyans"] = rnd.random() < .8
    if raw:
        ks = [rnd.choice(list("aT+1 x") + ["enter", "tab", "up", "del", "^Z", "esc", "bs", "odd1", "odd6", "exit2"]) for _ in range(rnd.choice([3, 10, 30]))]
    elif "keys" in b:
        ks = [rnd.choice(list(ODD)) if k == "odd" else k for k in b["keys"]]
        ks = [c for k in ks for c in ([k] if k in KEYS or len(k) == 1 else list(k))]
    else:
        ks = program(rnd, part)
        if part == "line" and rnd.random() < .2:
            p["files"] = files(rnd)
            for _ in range(rnd.choice([1, 2])):
                i = [j for j in range(len(ks) + 1) if j == 0 or ks[j - 1] == "enter"]
                j = rnd.choice(i)
                ks[j:j] = list(rnd.choice(["load ", "LOAD ", "load  "])) + [rnd.choice(["@/a", "@/a", "@/b", "@/c", "@/d", "@/zz"]), "enter"]
        if part == "line" and rnd.random() < .02:
            ks = [c for i in range(rnd.choice([99, 103, 130])) for c in ["x"] + list(str(i)) + ["enter"]] + ["up"] * rnd.choice([1, 99, 100, 120]) + ["enter"] + ks
    if rnd.random() < .03:
        ks.insert(rnd.randrange(len(ks) + 1), "kbint")
    if rnd.random() < .7:
        ks.append("exit" if raw or rnd.random() < .6 else "exit2")
    lines = [["RING"], ["+CREG: 1"], ["^RSSI: 19"], ["+CMTI: \"SM\",3"], ["+CUSD: 2,\"Hello\"", "more text"]]
    noise = [[rnd.choice([1, 30, 100, 400, 1500]), rnd.choice(lines)] for _ in range(rnd.choice([0, 0, 1, 3]))]
    sd = {"seed": rnd.randrange(10 ** 6), "st": "random", "p": 0} if p["screen"] else sched(rnd, light=True)
    return {"prof": p, "keys": chunks(rnd, ks, rnd.random() < .5), "noise": noise, "color": rnd.random() < .5, "sched": sd}


def scenarios(tier, seed, extra, part=""):
    rnd = random.Random("term%s%s" % (seed, part))
    n = {"quick": 1000, "thorough": 10000}[tier]
    out = [dict(gen(rnd, part, b), src="tlc") for b in extra or []]
    if part != "line":            # help on every command, in every form
        forms = ["?%s", "%s??", "help %s"]
        for i in range(0, len(NAMES), 10):
            s = gen(rnd, part)
            s["prof"]["screen"], s["noise"] = True, []
            s["sched"] = {"seed": 1, "st": "random", "p": 0}
            s["keys"] = [{"d": 0, "q": list(rnd.choice(forms) % case(rnd, x)) + ["enter"]} for x in NAMES[i:i + 10]] + [{"d": 0, "q": list(case(rnd, x)) + ["tab"] + ["end"] + ["bs"] * 20} for x in NAMES[i:i + 10]]
            out.append(s)
    while len(out) < n:
        out.append(gen(rnd, part))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
