"""Uses of the real codecs of gsmmodem/pdu.py and gsmmodem/util.py."""
import random, itertools, pickle, copy
from datetime import datetime, timedelta
import drvlib
drvlib.setup_path()
from gsmmodem import pdu as P, util as U
from gsmmodem.exceptions import EncodingError
import drv_pdu as D


def sc_prim(tier, seed):
    rnd = random.Random(seed * 17 + 5)
    big = tier == "thorough"
    out = []
    top = 0x110000 if big else 0x3000
    for a in range(0, top, 256):
        out.append({"k": "chars", "from": a, "n": 256})
    if not big:
        for a in (0xD700, 0xDF00, 0xE000, 0xFF00, 0x10000, 0x1F600, 0x10FF00) + tuple(256 * rnd.randint(0x30, 0x10FF) for _ in range(30)):
            out.append({"k": "chars", "from": a, "n": 256})
    for kind in ("gsm", "ext", "ucs", "sup"):
        for n in list(range(0, 20)) + [rnd.randint(20, 200) for _ in range(80 if big else 12)]:
            out.append({"k": "text", "text": D.cps(D.text(kind, n, rnd))})
    for n in (0, 1, 2):
        for c in itertools.product([0, 10, 27, 20, 0x5F, 0x7F, 101, 1], repeat=n):
            out.append({"k": "dec7", "codes": list(c)})
    for a in range(128):
        out.append({"k": "dec7", "codes": [27, a, 65]})
    for _ in range(800 if big else 120):
        out.append({"k": "dec7", "codes": [rnd.choice([27, rnd.randint(0, 127)]) for _ in range(rnd.randint(0, 40))]})
    for _ in range(800 if big else 150):
        o = [rnd.choice([0, 0xD8, 0xDC, 0x30, 0xFF, rnd.randint(0, 255)]) for _ in range(rnd.randint(0, 24))]
        out.append({"k": "ucs", "octs": o, "n": rnd.choice([len(o), len(o), 2 * rnd.randint(0, 14), 1000])})
    for n in range(0, 34 if big else 26):
        for fill in range(7):
            for v in ("zero", "last0", "max", "rnd", "rnd"):
                s = [rnd.randint(0, 127) for _ in range(n)]
                if v == "zero":
                    s = [0] * n
                if v == "max":
                    s = [127] * n
                if v == "last0" and n:
                    s[-1] = 0
                out.append({"k": "pack", "septs": s, "fill": fill, "as": rnd.choice(["ba", "str", "iter"])})
    for _ in range(400 if big else 60):
        n = rnd.randint(30, 161)
        out.append({"k": "pack", "septs": [rnd.randint(0, 127) for _ in range(n)], "fill": rnd.randint(0, 6), "as": rnd.choice(["ba", "str", "iter"])})
    for n in range(0, 30):
        for v in range(4 if big else 3):
            o = [rnd.randint(0, 255) for _ in range(n)]
            if v == 0 and o:
                o[-1] = rnd.choice([0, 1])
            out.append({"k": "unpack", "octs": o, "limit": -1, "as": rnd.choice(["ba", "str", "iter"])})
            if n:
                out.append({"k": "unpack", "octs": o, "limit": rnd.randint(1, n), "as": rnd.choice(["ba", "str", "iter"])})
    for n in range(0, 31):
        for _ in range(3):
            out.append({"k": "semi", "digits": [48 + rnd.randint(0, 9) for _ in range(n)]})
    for ref in [0, 1, 255, 256, 257, 65535] + [rnd.randint(0, 65535) for _ in range(60 if big else 20)]:
        for parts, num in ((1, 1), (255, 255), (rnd.randint(1, 255), rnd.randint(1, 255))):
            out.append({"k": "ie", "cls": "concat", "a": [ref, parts, num], "follow": [rnd.randint(0, 255) for _ in range(rnd.randint(0, 3))]})
    for a, b in [(0, 0), (255, 255), (256, 0), (0, 256), (65535, 65535), (2948, 9200), (255, 256)] + [(rnd.randint(0, 65535), rnd.randint(0, 300)) for _ in range(30)]:
        out.append({"k": "ie", "cls": "port", "a": [a, b], "follow": []})
    for i in list(range(0x20, 0x30)) + [0x70, 0x7F, 0xFF, 0x0A, 0x24]:
        out.append({"k": "ie", "cls": "raw", "a": [i] + [rnd.randint(0, 255) for _ in range(rnd.randint(0, 12))], "follow": [1, 2]})
    for iei, ln in ((0, 3), (8, 4), (4, 2), (5, 4)):
        for _ in range(20):
            out.append({"k": "ie", "cls": "rawknown", "a": [iei] + [rnd.choice([0, rnd.randint(0, 255)]) for _ in range(ln)], "follow": [rnd.randint(0, 255)]})
    for s in out:
        if s["k"] == "ie":
            s["then"] = [rnd.choice([0, 7, 255, 256, rnd.randint(0, 65535)]), rnd.choice([1, 2, 255]), rnd.choice([1, 2, 255])]
    return out


def sc_time(tier, seed):
    rnd = random.Random(seed * 17 + 6)
    big = tier == "thorough"
    out = [{"k": "rel"}]
    dates = [(y, m, d) for y in (0, 3, 4, 26, 68, 69, 70, 99) for m in range(0, 14) for d in (0, 1, 28, 29, 30, 31, 32)]
    for d in dates:
        if not big and rnd.random() > .5:
            continue
        out.append({"k": "btime", "t": list(d) + [rnd.choice([0, 12, 23, 24]), rnd.choice([0, 59, 60]), rnd.choice([0, 59, 60, 61])] + [rnd.randint(-79, 79)]})
        out.append({"k": "btime", "t": list(d) + [rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.randint(-79, 79)]})
        out.append({"k": "ttime", "t": list(d) + [rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.randint(-79, 79)]})
    for q in range(-79, 80):
        t = [rnd.randint(0, 99), rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), q]
        for k in ("btime", "ttime"):
            out.append({"k": k, "t": t})
        out.append({"k": "etime", "t": t, "tz": rnd.choice(["simple", "std", "pdu"])})
    for y in range(100):
        for k in ("btime", "ttime", "etime"):
            out.append({"k": k, "t": [y, 2, 29 if y % 4 == 0 else 28, 23, 59, 59, rnd.randint(-79, 79)], "tz": "simple"})
    for h in range(24):
        for k in ("btime", "ttime", "etime"):
            out.append({"k": k, "t": [rnd.randint(0, 99), 12, 31, h, rnd.randint(0, 59), rnd.randint(0, 59), rnd.randint(-79, 79)], "tz": "std"})
    for h in range(60):
        for k in ("btime", "ttime", "etime"):
            out.append({"k": k, "t": [rnd.randint(0, 99), rnd.randint(1, 12), 1, 0, h, 59 - h, rnd.randint(-79, 79)], "tz": "pdu"})
    for i in range(7):                     # digits that are none
        for v in range(0, 256, 1 if big else 3):
            o = D.own_deliver(rnd)[-7:]
            o[i] = v
            out.append({"k": "btime", "octs": o})
    for _ in range(6000 if big else 500):
        t = [rnd.randint(0, 99), rnd.randint(1, 12), rnd.randint(1, 31), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.randint(-79, 79)]
        out.append({"k": rnd.choice(["btime", "ttime"]), "t": t})
    for s in ("", "x", "26/02/30,00:00:00+00", "26/13/01,00:00:00+00", "26/01/01,24:00:00+00", "26/01/01,00:60:00+00", "26/00/10,00:00:00-08",
              "26-01-01,00:00:00+00", "26/01/01,00:00:00", "99/12/31,23:59:59-79", "00/02/29,00:00:00+79"):
        out.append({"k": "ttime", "s": s})
    return out


def scenarios(tier, seed, extra, part):
    return sc_prim(tier, seed) if part == "prim" else sc_time(tier, seed)


def form(septs, how):
    b = bytearray(septs)
    return b if how == "ba" else "".join(map(chr, b)) if how == "str" else iter(b)


def call(f, *a, **k):
    try:
        return f(*a, **k), ""
    except Exception as e:
        return None, type(e).__name__


def lst(x):
    return [-1] if x is None else [ord(c) for c in x] if isinstance(x, str) else list(bytearray(x))


def bcd(v):
    return (v // 10) | ((v % 10) << 4)


def envelope(octs, where):
    if where == "deliver":
        return [0, 4, 2, 0x81, 0x21, 0, 0] + octs + [0]
    if where == "report1":
        return [0, 2, 9, 2, 0x81, 0x21] + octs + [0x62, 0x11, 0x81, 0x91, 0x10, 0x52, 0x80] + [0]
    if where == "report2":
        return [0, 2, 9, 2, 0x81, 0x21] + [0x62, 0x11, 0x81, 0x91, 0x10, 0x52, 0x80] + octs + [0]
    return [0, 0x19, 9, 2, 0x81, 0x21, 0, 0] + octs + [0]


KEY = {"deliver": "time", "report1": "time", "report2": "discharge", "submit": "validity"}


def run(s):
    k = s["k"]
    r = dict(s)
    r["exc"] = ""
    if k == "chars":
        r.update(gsm=[], ucs=[], back=[], gback=[])
        for c in range(s["from"], s["from"] + s["n"]):
            g, e = call(P.encodeGsm7, chr(c))
            r["gsm"].append(lst(g) if not e else [-1] if e == "ValueError" else [-2])
            gb, _ = call(P.decodeGsm7, g) if g is not None else (None, "")
            r["gback"].append(lst(gb))
            u, e = call(P.encodeUcs2, chr(c))
            r["ucs"].append(lst(u) if not e else [-2])
            b, _ = call(P.decodeUcs2, iter(u), len(u)) if u is not None else (None, "")
            r["back"].append(lst(b))
    elif k == "text":
        t = "".join(map(chr, s["text"]))
        g, r["exc"] = call(P.encodeGsm7, t)
        r["gsm"] = lst(g)
        r["gback"] = lst(call(P.decodeGsm7, g)[0]) if g is not None else [-1]
        r["disc"] = lst(call(P.encodeGsm7, t, discardInvalid=True)[0])
        u, _ = call(P.encodeUcs2, t)
        r["ucs"] = lst(u)
        r["uback"] = lst(call(P.decodeUcs2, iter(u), len(u))[0]) if u is not None else [-1]
    elif k == "dec7":
        o, r["exc"] = call(P.decodeGsm7, form(s["codes"], "str" if sum(s["codes"]) % 2 else "ba"))
        r["out"] = lst(o)
    elif k == "ucs":
        it = iter(bytearray(s["octs"]))
        o, r["exc"] = call(P.decodeUcs2, it, s["n"])
        r["out"] = lst(o)
        n, m = len(s["octs"]), min(s["n"], len(s["octs"]))
        left = len(list(it))
        r["used"] = n - left if s["n"] <= n and s["n"] % 2 == 0 else 2 * (m // 2)
    elif k == "pack":
        f = s["fill"]
        kw = {"padBits": 7 - f} if f else {}
        o, r["exc"] = call(P.packSeptets, form(s["septs"], s["as"]), **kw)
        r["out"] = lst(o)
        r["back"] = lst(call(P.unpackSeptets, form(o, s["as"]))[0]) if o is not None and not f else []
    elif k == "unpack":
        a = [form(s["octs"], s["as"])] + ([s["limit"]] if s["limit"] >= 0 else [])
        o, r["exc"] = call(P.unpackSeptets, *a)
        r["out"] = lst(o)
    elif k == "semi":
        d = "".join(map(chr, s["digits"]))
        o, r["exc"] = call(P.encodeSemiOctets, d)
        r["out"] = lst(o)
        if o is not None:
            h = "".join("%02X" % b for b in bytearray(o))
            r["back"] = lst(call(P.decodeSemiOctets, o)[0])
            r["backhex"] = lst(call(P.decodeSemiOctets, h)[0])
            r["backlim"] = lst(call(P.decodeSemiOctets, iter(bytearray(o) + bytearray([0x21, 0x43])), len(o))[0]) if d else []
        else:
            r["back"] = r["backhex"] = r["backlim"] = [-1]
    elif k == "ie":
        run_ie(s, r)
    elif k == "rel":
        r["minutes"] = []
        for v in range(256):
            d, e = call(P.decodeSmsPdu, bytearray([0, 0x11, 9, 2, 0x81, 0x21, 0, 0, v, 0]))
            x = d.get("validity") if d else None
            r["minutes"].append(int(x.total_seconds() // 60) if isinstance(x, timedelta) and x.total_seconds() % 60 == 0 else -1)
    elif k == "btime":
        if "octs" not in s:
            t = s["t"]
            q = abs(t[6])
            r["octs"] = [bcd(v) for v in t[:6]] + [bcd(q) | (8 if t[6] < 0 else 0)]
        r.update(t=[], tp=[], utc=[], t2utc=[])
        where = ("deliver", "report1", "report2", "submit")[sum(r["octs"]) % 4]
        d, r["exc"] = call(P.decodeSmsPdu, bytearray(envelope(r["octs"], where)))
        if d is not None:
            x = d.get(KEY[where])
            r["t"] = D.stamp(x)
            try:
                y = pickle.loads(pickle.dumps(x)) if sum(r["octs"]) % 2 else copy.deepcopy(x)
                r["tp"] = D.stamp(y)
                a = x.replace(tzinfo=None) - x.utcoffset()
                r["utc"] = [a.year % 100, a.month, a.day, a.hour, a.minute]
                from datetime import timezone
                b = x.astimezone(timezone.utc)
                r["t2utc"] = [b.year % 100, b.month, b.day, b.hour, b.minute]
            except Exception as e:
                r["exc"] = type(e).__name__
    elif k == "ttime":
        if "s" in s:
            txt = s["s"]
        else:
            t = s["t"]
            txt = "%02d/%02d/%02d,%02d:%02d:%02d%s%02d" % (t[0], t[1], t[2], t[3], t[4], t[5], "-" if t[6] < 0 else "+", abs(t[6]))
        x, r["exc"] = call(U.parseTextModeTimeStr, txt)
        r["text"] = D.cps(txt)
        r["t"] = []
        if x is not None:
            r["t"], e = call(D.stamp, x)
            r["exc"] = r["exc"] or e
            r["t"] = r["t"] or []
    elif k == "etime":
        t = s["t"]
        v = datetime(2000 + t[0], *t[1:6], tzinfo=D.tzinfo(s["tz"], t[6]))
        r["want"] = t
        r.update(octs=[], t=[])
        p, r["exc"] = call(P.encodeSmsSubmitPdu, "12", "", validity=v)
        if p:
            o = list(bytearray(p[0].data))
            i = 1 + o[0] + 2
            i += 2 + (o[i] + 1) // 2 + 2
            r["octs"] = o[i:i + 7]
            d, _ = call(P.decodeSmsPdu, bytearray(o))
            r["t"] = D.stamp(d.get("validity")) if d else []
    return r


def attrs(b):
    if isinstance(b, P.Concatenation):
        return [b.reference, b.parts, b.number]
    return [b.destination, b.source] if isinstance(b, P.PortAddress) else [-1]


def run_ie(s, r):
    a = s["a"]
    r.update(enc=[], bid=-1, bdata=[], blen=-1, battrs=[-1], aattrs=[-1], tattrs=[], rest=[], wantid=0, wantdata=[])
    try:
        if s["cls"] == "concat":
            ie = P.Concatenation()
            ie.reference, ie.parts, ie.number = a
            r["wantid"], r["wantdata"] = (0, a) if a[0] < 256 else (8, [a[0] >> 8, a[0] & 255] + a[1:])
        elif s["cls"] == "port":
            ie = P.PortAddress()
            ie.destination, ie.source = a
            r["wantid"], r["wantdata"] = (4, a) if max(a) < 256 else (5, [a[0] >> 8, a[0] & 255, a[1] >> 8, a[1] & 255])
        else:
            ie = P.InformationElement(a[0], len(a) - 1, a[1:])
            r["wantid"], r["wantdata"] = a[0], a[1:]
        e = list(bytearray(ie.encode()))
        r["enc"] = e
        if s["cls"] == "rawknown":      # re-encoding a decoded element may choose the shorter form; what counts is the content
            r["enc"] = [a[0], len(a) - 1] + a[1:]
            e = r["enc"]
        it = iter(bytearray(e + s["follow"]))
        b = P.InformationElement.decode(it)
        r["bid"], r["bdata"], r["blen"] = b.id, list(b.data), len(b)
        r["rest"] = list(it)
        if isinstance(b, P.Concatenation):
            r["battrs"] = [b.reference, b.parts, b.number]
        elif isinstance(b, P.PortAddress):
            r["battrs"] = [b.destination, b.source]
        c = P.InformationElement.decode(iter(bytearray(b.encode())))      # once more, the decoded element itself
        r["aattrs"] = attrs(c)
        if r["battrs"] != [-1]:                                            # and as an element for other values
            for x in (s["then"], s["a"]) if s["cls"] != "rawknown" else (s["then"],):
                if isinstance(b, P.Concatenation):
                    b.reference, b.parts, b.number = x[:3]
                else:
                    b.destination, b.source = x[:2]
                c = P.InformationElement.decode(iter(bytearray(b.encode())))
                r["tattrs"].append({"want": x[:3 if isinstance(b, P.Concatenation) else 2], "got": attrs(c)})
    except Exception as x:
        r["exc"] = type(x).__name__


if __name__ == "__main__":
    drvlib.main(globals())
