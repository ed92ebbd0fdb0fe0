"""A simulated modem with message storages, sending and delivery reports; and the octets of messages it receives."""
from modemlib import *
from drv_connect import SimConn, BASE
from drv_pdu import cps, stamp, GSM, EXT
from gsmmodem.util import SimpleOffsetTzInfo

GSM7 = {c: i for i, c in enumerate("@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà")}
EXT7 = {"\x0c": 0x0A, "^": 0x14, "{": 0x28, "}": 0x29, "\\": 0x2F, "[": 0x3C, "~": 0x3D, "]": 0x3E, "|": 0x40, "€": 0x65}


def semi(d):
    d = d + ("F" if len(d) % 2 else "")
    return [int(d[i], 16) + 16 * int(d[i + 1], 16) for i in range(0, len(d), 2)]


def addr(num):
    d = num.lstrip("+")
    return [len(d), 0x91 if num.startswith("+") else 0x81] + semi(d)


def scts(t):
    z = t[6]
    return [(x // 10) + 16 * (x % 10) for x in t[:6]] + [(abs(z) // 10) + 16 * (abs(z) % 10) + (8 if z < 0 else 0)]


def ud(text):
    """(dcs, user data with its length)"""
    if all(c in GSM7 and c != "\x1b" or c in EXT7 for c in text):
        s = []
        for c in text:
            s += [27, EXT7[c]] if c in EXT7 else [GSM7[c]]
        v, out = 0, []
        for i, x in enumerate(s):
            v |= x << (7 * i)
        for i in range((7 * len(s) + 7) // 8):
            out.append(v >> (8 * i) & 255)
        return 0, [len(s)] + out
    b = list(text.encode("utf-16-be"))
    return 8, [len(b)] + b


SMSC = [[0], [7, 0x91, 0x72, 0x38, 0x01, 0x00, 0x10, 0xF5]]


def deliver(num, text, t, smsc=1):
    dcs, u = ud(text)
    return SMSC[smsc] + [4] + addr(num) + [0, dcs] + scts(t) + u


def submit(num, text):
    dcs, u = ud(text)
    return SMSC[0] + [1, 0] + addr(num) + [0, dcs] + u


def report(ref, num, t, d, st, smsc=1):
    return SMSC[smsc] + [6, ref] + addr(num) + scts(t) + scts(d) + [st]


def hexa(o):
    return "".join("%02X" % x for x in o)


def tpdulen(o):
    return len(o) - o[0] - 1


def ts(t):
    return "%02d/%02d/%02d,%02d:%02d:%02d%s%02d" % (tuple(t[:6]) + ("-" if t[6] < 0 else "+", abs(t[6])))


T0 = [26, 11, 18, 19, 43, 12, 8]
STATNAME = ["REC UNREAD", "REC READ", "STO UNSENT", "STO SENT"]


class SimSms(SimConn):
    """storage: mem -> {index: message}; message: dict(kind deliver/report/submit/junk, stat, + fields)"""
    def init(self):
        SimConn.init(self)
        self.store = {m: {} for m in self.prof["mems"]}
        self.size = self.prof.get("size", 30)
        self.sel = None
        self.text_mode = bool(self.prof.get("zmode"))
        self.ref = self.prof.get("ref", 0)
        self.cmgs = list(self.prof.get("cmgs", []))
        self.reports = list(self.prof.get("reports", []))
        self.outstanding = set()
        self.fails = list(self.prof.get("fails", []))

    # -- storage ---------------------------------------------------------
    def put(self, mem, msg, index=None):
        i = index
        if i is None:
            i = self.prof.get("first", 1)
            while i in self.store[mem]:
                i += 1
        self.store[mem][i] = msg
        return i

    def octets(self, m):
        if m["kind"] == "deliver":
            return deliver(m["num"], m["text"], m["time"])
        if m["kind"] == "report":
            return report(m["ref"], m["num"], m["time"], m["dis"], m["st"])
        if m["kind"] == "submit":
            return submit(m["num"], m["text"])
        return m["o"]

    def cmgr(self, m):
        o = None if self.text_mode else self.octets(m)
        if not self.text_mode:
            stat = "" if self.prof.get("nostat") else str(m["stat"])
            return ["+CMGR: %s,%s,%d" % (stat, self.prof.get("alpha", ""), tpdulen(o)), hexa(o)]
        if m["kind"] == "report":
            st = '"%s"' % STATNAME[m["stat"]] if not self.prof.get("nostat") else ""
            return ["+CMGR: %s,6,%d,\"%s\",145,\"%s\",\"%s\",%d" % (st, m["ref"], m["num"], ts(m["time"]), ts(m["dis"]), m["st"])]
        return ['+CMGR: "%s","%s",,"%s"' % (STATNAME[m["stat"]], m["num"], ts(m["time"]))] + ([m["text"]] if m["text"] != "" else [])

    def cmgl(self, i, m):
        if not self.text_mode:
            o = self.octets(m)
            return [self.prof.get("cmglfmt", "+CMGL: %d,%d,%s,%d") % (i, m["stat"], self.prof.get("alpha", ""), tpdulen(o)), hexa(o)]
        if m["kind"] == "report":
            return ["+CMGL: %d,\"%s\",6,%d,\"%s\",145,\"%s\",\"%s\",%d" % (i, STATNAME[m["stat"]], m["ref"], m["num"], ts(m["time"]), ts(m["dis"]), m["st"])]
        if m["kind"] == "submit":
            return ['+CMGL: %d,"%s","%s",,' % (i, STATNAME[m["stat"]], m["num"])] + ([m["text"]] if m["text"] != "" else [])
        return ['+CMGL: %d,"%s","%s",,"%s"' % (i, STATNAME[m["stat"]], m["num"], ts(m["time"]))] + ([m["text"]] if m["text"] != "" else [])

    def fail(self, what):
        """an error planned for this operation (also counts busy replies)"""
        for f in self.fails:
            if f[0] == what:
                self.fails.remove(f)
                if f[1] == "silent":
                    return Reply([], final=False)
                return Reply([f[1]])

    def command(self, c):
        if c == "ATZ":
            self.text_mode = bool(self.prof.get("zmode"))
        if c.startswith("AT+CMGF="):
            self.text_mode = c[8:] == "1"
        if c.startswith("AT+CMGS="):
            return self.announce(c)
        if c.startswith("AT+CMGR="):
            f = self.fail("CMGR")
            if f:
                return f
            m = self.store[self.sel].get(int(c[8:]))
            if m is None:
                return Reply(["+CMS ERROR: 321"]) if not self.prof.get("emptyok") else Reply(["OK"])
            if m.get("fail"):
                return Reply([m["fail"]])
            lines = self.cmgr(m) + ["OK"]
            if m["stat"] == 0:
                m["stat"] = 1
            return Reply(lines)
        if c.startswith("AT+CMGL="):
            f = self.fail("CMGL")
            if f:
                return f
            return self.listing(c[8:])
        if c.startswith("AT+CMGD="):
            f = self.fail("CMGD")
            if f:
                return f
            a = c[8:].split(",")
            i, flag = int(a[0]), int(a[1]) if len(a) > 1 else 0
            st = self.store[self.sel]
            if flag == 0:
                if i not in st and self.prof.get("delerr"):
                    return Reply(["+CMS ERROR: 321"])
                st.pop(i, None)
            else:
                gone = {1: (1,), 2: (1, 3), 3: (1, 2, 3), 4: (0, 1, 2, 3)}[flag]
                for k in [k for k, m in st.items() if m["stat"] in gone]:
                    del st[k]
            return Reply(["OK"])
        if c.startswith('AT+CPMS="'):
            f = self.fail("CPMS")
            if f:
                return f
            r = SimConn.command(self, c)
            if r.lines[-1] == "OK":
                self.sel = c[9:11]
            return r
        if c == "AT+CSQ":
            return Reply(["+CSQ: 17,99", "OK"])
        return SimConn.command(self, c)

    def listing(self, a):
        try:
            want = {'"REC UNREAD"': 0, '"REC READ"': 1, '"STO UNSENT"': 2, '"STO SENT"': 3, '"ALL"': 4}[a] if self.text_mode else int(a)
        except (KeyError, ValueError):
            return Reply(["+CMS ERROR: 302"])
        lines = []
        for i in sorted(self.store[self.sel]):
            m = self.store[self.sel][i]
            if want == 4 or m["stat"] == want:
                lines += self.cmgl(i, m)
                if m.get("junk"):
                    lines.insert(len(lines) - 1, m["junk"])
                if m["stat"] == 0:
                    m["stat"] = 1
        return Reply(lines + ["OK"])

    # -- sending -----------------------------------------------------------
    def announce(self, c):
        b = self.cmgs.pop(0) if self.cmgs else {}
        a = b.get("a", "prompt")
        if a == "prompt":
            self.body = lambda text, good: self.accept(b, good)
            return Reply(b.get("pre", []), prompt=True)
        if a == "silent":
            return Reply(b.get("pre", []), final=False)
        return Reply([a])

    def accept(self, b, good):
        if not good:
            return Reply(["OK"])
        x = b.get("b", "ok")
        if x == "silent":
            return Reply([], final=False)
        if x == "noack":
            return Reply(["+XYZ: 1", "OK"] if b.get("pre") else ["OK"])
        if x != "ok":
            return Reply([x])
        ref = self.ref
        while ref in self.outstanding:
            ref = (ref + 1) % 256
        if self.prof.get("sameref") is None:
            self.ref = (ref + 1) % 256
        lines = [b.get("ackfmt", "+CMGS: %d") % ref, "OK"]
        if b.get("pre"):
            lines.insert(0, "+XYZ: 2")
        rp = self.reports.pop(0) if self.reports else None
        then = []
        if rp:
            self.outstanding.add(ref)
            then = [(rp["delay"], lambda: self.report(ref, rp))]
            if rp.get("again"):
                rq = rp["again"]
                then.append((rp["delay"] + rq["delay"], lambda: self.report(ref, rq)))
        return Reply(lines, then=then, d=b.get("d"))

    def report(self, ref, rp):
        m = {"kind": "report", "stat": 0, "ref": ref, "num": "+491710760000", "time": T0, "dis": T0, "st": rp["st"], "fail": rp.get("fail")}
        i = self.put(rp["mem"], m)
        self.rec.add("Rep", mem=rp["mem"], i=i, ref=ref, st=rp["st"], fail=bool(rp.get("fail")), at=self.rec.at())
        self.outstanding.discard(ref) if rp.get("dup") else None
        return [self.prof.get("cdsifmt", '+CDSI: "%s",%d') % (rp["mem"], i)]


def profile(rnd, **kw):
    p = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    p["codes"] = True
    mems = kw.pop("mems", ["ME", "SM", "SR"])
    p["mems"] = mems
    p["cpms"] = [mems, mems, mems]
    p["lat"] = rnd.choice([0, 0, 5, 10, 40])
    p["fmt"] = rnd.choice([0, 1, 1])
    p["split"] = rnd.choice([0, 0, .3])
    p["batch"] = rnd.random() < .5
    p["nostat"] = rnd.random() < .1
    p["alpha"] = rnd.choice(["", "", '""', '"Bob"'])
    p.update(kw)
    return p
