"""Uses of the real SMS encoder and decoder (gsmmodem/pdu.py), public entry points only."""
import random, sys
from datetime import datetime, timedelta, timezone
import drvlib
drvlib.setup_path()
from gsmmodem import pdu as P
from gsmmodem.exceptions import EncodingError
from gsmmodem.util import SimpleOffsetTzInfo

GSM = "".join(c for c in "@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞÆæßÉ !\"#¤%&'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà")
EXT = "\x0c^{}\\[~]|€"
OTHER = "\"`çÀ漢字あЖ\u2028\x00\x7f\u0100\uffff\ud7ff\ue000ˆ“”’\u0141\u20ab\u20ad\u00a0\u00a6"
SUPPL = "\U0001F600\U00010000\U0010FFFF\U0001F4A9\U0002070E"
NONE = [-1]


def cps(s):
    return NONE if s is None else [ord(c) for c in s]


def text(kind, n, rnd):
    """a text of about n septets / UTF-16 units"""
    if kind == "gsm":
        return "".join(rnd.choice(GSM) for _ in range(n))
    if kind == "ext":
        out, k = [], 0
        while k < n:
            c = rnd.choice(EXT) if rnd.random() < .5 and k + 2 <= n else rnd.choice(GSM)
            out.append(c)
            k += 2 if c in EXT else 1
        return "".join(out)
    if kind == "ucs":
        return "".join(rnd.choice(GSM + EXT + OTHER) for _ in range(max(n - 1, 0))) + (rnd.choice("漢Ж") if n else "")
    if kind == "sup":
        out, k = [], 0
        while k < n:
            c = rnd.choice(SUPPL) if rnd.random() < .6 and k + 2 <= n else rnd.choice(GSM + OTHER)
            out.append(c)
            k += 2 if c in SUPPL else 1
        return "".join(out)


ALNUM = GSM.replace("+", "")


def number(rnd):
    k = rnd.choice("lliia")
    n = rnd.choice([1, 2, 3, 7, 10, 11, 12, 15, 19, 20])
    d = "".join(rnd.choice("0123456789") for _ in range(n))
    if k == "l":
        return d
    if k == "i":
        return "+" + d
    while True:
        s, k = "", rnd.randint(1, 11)
        while True:
            c = rnd.choice(EXT if rnd.random() < .15 else (ALNUM if rnd.random() < .5 else "ABCXYZabc019"))
            if k < (2 if c in EXT else 1):
                break
            s += c
            k -= 2 if c in EXT else 1
        if s and not s.isdigit() and s[0] != "+" and any(c not in "0123456789*#" for c in s):
            return s


def rnd_abs(rnd):
    y, mo = rnd.choice([1999, 2000, 2004, 2010, 2026, 2068, 2099]), rnd.randint(1, 12)
    d = rnd.randint(1, 28) if rnd.random() < .8 else 29
    try:
        datetime(y, mo, d)
    except ValueError:
        d = 28
    return [y, mo, d, rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59), rnd.choice([0, 1, -1, 4, -4, 8, 14, 22, 23, -37, 47, 48, -48, 79, -79, rnd.randint(-79, 79)])]


REL = [0, 1, 60, 299, 300, 301, 599, 600, 43199, 43200, 43201, 44999, 45000, 45001, 86399, 86400, 86401, 172799, 172800,
       2591999, 2592000, 2592001, 2678400, 3023999, 3024000, 3024001, 38102399, 38102400, 38102401, 38188799, 38188800, 40000000, 400000000]


def base(rnd, t):
    r = {"k": "enc", "num": cps(number(rnd)), "text": cps(t), "ref": rnd.choice([0, 1, 255, rnd.randint(0, 255)]), "vk": "none", "vs": 0,
         "vabs": [], "smsc": NONE, "srr": rnd.random() < .5, "rd": rnd.random() < .5, "flash": rnd.random() < .3}
    v = rnd.random()
    if v < .3:
        r["vk"] = "rel"
        r["vs"] = rnd.choice(REL) if rnd.random() < .5 else int(10 ** rnd.uniform(0, 7.6))
    elif v < .55:
        r["vk"] = "abs"
        r["vabs"] = rnd_abs(rnd)
        r["tz"] = rnd.choice(["simple", "std", "pdu"])
    elif v < .6:
        r["vk"] = rnd.choice(["naive", "other"])
        r["vabs"] = rnd_abs(rnd)
    if rnd.random() < .5:
        r["smsc"] = cps(("+" if rnd.random() < .6 else "") + "".join(rnd.choice("0123456789") for _ in range(rnd.randint(1, 18))))
    return r


def sc_enc(tier, seed):
    rnd = random.Random(seed * 31 + 1)
    out = []
    N = 3500 if tier == "thorough" else 420
    for i in range(N):
        kind = rnd.choice(["gsm", "ext", "ucs", "sup"])
        n = rnd.choice([0, 1, 2, 6, 7, 8, 9, 15, 20, 40])
        out.append(base(rnd, text(kind, n, rnd)))
    for s in REL + [k * 300 for k in range(1, 145, 7 if tier == "quick" else 1)] + [43200 + k * 1800 for k in range(24)] + \
            [k * 86400 + o for k in range(1, 32) for o in ((0,) if tier == "quick" else (-1, 0, 1))] + [k * 604800 + o for k in range(4, 64, 5 if tier == "quick" else 1) for o in (-1, 0, 1)]:
        r = base(rnd, "x")
        r.update(vk="rel", vs=s)
        out.append(r)
    for q in range(-79, 80):
        r = base(rnd, "x")
        a = rnd_abs(rnd)
        a[6] = q
        r.update(vk="abs", vabs=a, tz=rnd.choice(["simple", "std", "pdu"]))
        out.append(r)
    # every character of the alphabets, alone and in context
    for c in GSM + EXT + OTHER + SUPPL:
        for t in (c, c + c, "a" + c, c + "a"):
            out.append(dict(base(rnd, t)))
    for ref in range(0, 256, 1 if tier == "thorough" else 16):
        r = base(rnd, "ref")
        r["ref"] = ref
        out.append(r)
    # all flag combinations
    for srr in (False, True):
        for rd in (False, True):
            for fl in (False, True):
                for vk in ("none", "rel", "abs"):
                    for t in ("hi", "漢"):
                        r = base(rnd, t)
                        r.update(srr=srr, rd=rd, flash=fl, vk=vk, vs=3600, vabs=[2026, 1, 2, 3, 4, 5, -4], tz="simple")
                        out.append(r)
    return out


def sc_seg(tier, seed):
    rnd = random.Random(seed * 31 + 2)
    out = []
    big = tier == "thorough"
    for kind, one, part in (("gsm", 160, 153), ("ext", 160, 153), ("ucs", 70, 67), ("sup", 70, 67)):
        lens = {one + d for d in range(-3, 4)} | {k * part + d for k in range(1, 8 if big else 5) for d in range(-2, 3)} | {0, 1}
        for n in sorted(lens):
            for rep in range(4 if big else 2):
                r = base(rnd, text(kind, n, rnd))
                r["vk"] = rnd.choice(["none", "none", "rel"])
                out.append(r)
        for rep in range(120 if big else 14):
            out.append(base(rnd, text(kind, rnd.randint(one, part * (20 if big and rep % 20 == 0 else 8)), rnd)))
    # a pair at every position around each boundary, everything else of size one
    for ch, fill, one, part in (("€", "a", 160, 153), ("\U0001F600", "漢", 70, 67)):
        for total in (one - 1, one, one + 1, 2 * part - 1, 2 * part, 2 * part + 1, 2 * part + 2):
            for pos in {0, 1, part - 3, part - 2, part - 1, part, part + 1, one - 2, one - 1, total - 1, total - 2}:
                if pos < total - 1:
                    t = fill * pos + ch + fill * (total - pos - 2)
                    if fill == "漢" or True:
                        out.append(base(rnd, t))
        for n in (part // 2, part // 2 + 1, one // 2, one // 2 + 1, part, part + 1, 2 * part):
            out.append(base(rnd, ch * n))
            out.append(base(rnd, fill + ch * n))
    # many parts
    for k in (9, 10, 11, 15, 16, 17, 31, 32, 33) + ((64, 99, 100, 101, 127, 128, 129, 254) if big else (rnd.choice([64, 100, 128, 129]),)):
        for d in (0, 1):
            out.append(base(rnd, text("ucs", 67 * k + d, rnd)))
        if k < 18:
            out.append(base(rnd, text("gsm", 153 * k + 1, rnd)))
    # the largest messages
    if big:
        for kind, n in (("gsm", 153 * 255), ("ucs", 67 * 255), ("ext", 153 * 60), ("sup", 67 * 60)):
            out.append(base(rnd, text(kind, n - 1, rnd)))
    for r in out:
        if r["vk"] in ("naive", "other") or (r["vk"] == "rel" and r["vs"] > 38000000):
            r["vk"] = "none"
    return out


def gen_octets(extra, seed):
    return [list(o) for o in extra or []]


def own_deliver(rnd, txt=None):
    """messages put together in the driver, in addition to the specification's"""
    sm = rnd.choice([[0], [7, 0x91, 0x72, 0x38, 0x01, 0x00, 0x10, 0xF5], [1 + 2, 0x81, 0x21, 0xF3]])
    ad = rnd.choice([[0, 0x81], [0x0B, 0x91, 0x72, 0x38, 0x12, 0x34, 0x56, 0xF7], [4, 0xA1, 0x21, 0x43], [0x0E, 0xD0, 0x46, 0x69, 0xD0, 0x39, 0x7C, 0x26, 0xA7]])
    return sm + [0x04] + ad + [0, 0] + [0x62, 0x11, 0x81, 0x91, 0x10, 0x52, 0x80]


def sc_dec(tier, seed, extra):
    rnd = random.Random(seed * 31 + 3)
    out = []
    for o in gen_octets(extra, seed):
        out.append({"k": "dec", "form": rnd.choice(["bytes", "text", "text", "lower"]), "input": o})
    # texts of every length, plain and after headers of every length, ending in @ or an extension pair
    for hl in [None] + list(range(0, 12)):
        for n in (list(range(0, 25)) + [80, 150, 151, 152, 153, 154, 159, 160]) if hl is None or tier == "thorough" else [0, 1, 2, 3, 6, 7, 8, 9, 13, 14, 15, 16, 80, 138]:
            for last in (0, None):
                sept = [rnd.choice([c for c in range(128) if c != 27]) for _ in range(n)]
                if n and last is not None:
                    sept[-1] = last
                hdr = [] if hl is None else ([hl] + ([0x70, hl - 2] + [rnd.randint(0, 255) for _ in range(hl - 2)] if hl >= 2 else []))
                if hl == 1:
                    continue
                fill = (7 - (8 * len(hdr)) % 7) % 7
                bits, v, octs = 0, 0, []
                val = 0
                pos = fill
                for s in sept:
                    val |= s << pos
                    pos += 7
                octs = [(val >> (8 * i)) & 255 for i in range((pos + 7) // 8)] if n else []
                udl = (8 * len(hdr) + fill) // 7 + n if hdr else n
                if len(hdr) + len(octs) > 140:
                    continue
                d = own_deliver(rnd)
                if hdr:
                    i = 1 + d[0]
                    d[i] |= 0x40
                out.append({"k": "dec", "form": "bytes", "input": d + [udl] + hdr + octs})
    # what the encoder produces
    for e in sc_enc("quick", seed + 7)[:: 1 if tier == "thorough" else 4] + sc_seg("quick", seed + 7)[:: 2 if tier == "thorough" else 9]:
        e["k"] = "encdec"
        out.append(e)
    return out


def sc_mal(tier, seed, extra):
    rnd = random.Random(seed * 31 + 4)
    out = []
    pool = gen_octets(extra, seed)
    pool.sort(key=len)
    short = [p for p in pool if len(p) < 90]
    big = tier == "thorough"
    for p in short[:: max(1, len(short) // (150 if big else 28))]:     # every truncation
        for n in range(len(p)):
            out.append({"k": "dec", "form": rnd.choice(["bytes", "text"]), "input": p[:n]})
    for _ in range(12000 if big else 1300):      # corruptions
        p = list(rnd.choice(pool))
        for _ in range(rnd.choice([1, 1, 2, 4])):
            op = rnd.random()
            i = rnd.randrange(len(p)) if p else 0
            if op < .5 and p:
                p[i] = rnd.choice([0, 255, rnd.randint(0, 255), p[i] ^ (1 << rnd.randint(0, 7))])
            elif op < .7 and p:
                del p[i]
            elif op < .85:
                p.insert(i, rnd.randint(0, 255))
            else:
                p = p[:i]
        out.append({"k": "dec", "form": "bytes", "input": p})
    for _ in range(3000 if big else 300):
        out.append({"k": "dec", "form": "bytes", "input": [rnd.randint(0, 255) for _ in range(rnd.randint(0, 40))]})
    for a in range(256):                           # all short octet strings of length <= 1, many of 2 and 3
        out.append({"k": "dec", "form": "bytes", "input": [a]})
        for b in (0, 1, 145, 255):
            out.append({"k": "dec", "form": "bytes", "input": [0, a, b]})
    for p in short[:: max(1, len(short) // 30)]:   # text forms
        h = "".join("%02X" % b for b in p)
        for bad in (h[:-1], h + "0", h[:5] + "G" + h[6:], h[:4] + " " + h[4:], h + "\r", "0x" + h, h[:6] + "\u0660" + h[7:], h[:3] + "é" + h[4:], " ", "zz", "", "0"):
            out.append({"k": "dec", "form": "raw", "input": cps(bad)})
    return out


def scenarios(tier, seed, extra, part):
    return {"enc": lambda: sc_enc(tier, seed), "seg": lambda: sc_seg(tier, seed), "dec": lambda: sc_dec(tier, seed, extra),
            "mal": lambda: sc_mal(tier, seed, extra)}[part]()


def tzinfo(kind, q):
    if kind == "std":
        return timezone(timedelta(minutes=15 * q))
    if kind == "pdu":
        a = abs(q)
        return P.SmsPduTzInfo("%X%d" % ((a // 10) | (8 if q < 0 else 0), a % 10))
    return SimpleOffsetTzInfo(q / 4.0)


def validity(s):
    vk = s["vk"]
    if vk == "none":
        return None
    if vk == "rel":
        return timedelta(seconds=s["vs"])
    if vk == "abs":
        a = s["vabs"]
        return datetime(*a[:6], tzinfo=tzinfo(s.get("tz", "simple"), a[6]))
    if vk == "naive":
        return datetime(*s["vabs"][:6])
    return "12 hours"


def encode(s):
    r = dict(s)
    r.update(exc="", out=[])
    t = lambda l: "".join(map(chr, l))
    if s["vk"] == "abs":
        r["vabs"] = [s["vabs"][0] % 100] + s["vabs"][1:]
    try:
        kw = dict(reference=s["ref"], validity=validity(s), smsc=None if s["smsc"] == NONE else t(s["smsc"]),
                  requestStatusReport=s["srr"], rejectDuplicates=s["rd"], sendFlash=s["flash"])
        pdus = P.encodeSmsSubmitPdu(t(s["num"]), t(s["text"]), **kw)
        for p in pdus:
            h = str(p)
            r["out"].append({"octs": list(bytearray(p.data)), "tplen": p.tpduLength,
                             "hexok": h == "".join("%02X" % b for b in bytearray(p.data))})
    except Exception as e:
        r["exc"] = type(e).__name__
        r["out"] = []
    return r


def stamp(t):
    if t is None or not isinstance(t, datetime):
        return []
    off = t.utcoffset()
    if off is None:
        return [t.year % 100, t.month, t.day, t.hour, t.minute, t.second, 9998]
    m = off.total_seconds() / 60.0
    return [t.year % 100, t.month, t.day, t.hour, t.minute, t.second, int(m // 15) if m % 15 == 0 else 9999]


def result(d):
    r = {"keys": sorted(d.keys()), "type": d.get("type", ""), "smsc": cps(d.get("smsc")), "tplen": d.get("tpdu_length", -1),
         "number": cps(d.get("number")), "pid": d.get("protocol_id", -1), "time": stamp(d.get("time")), "discharge": stamp(d.get("discharge")),
         "status": d.get("status", -1), "ref": d.get("reference", -1), "text": cps(d.get("text", "")), "udh": [],
         "vk": "none", "vminutes": 0, "vstamp": []}
    v = d.get("validity")
    if isinstance(v, timedelta):
        r["vk"], r["vminutes"] = "rel", int(v.total_seconds() // 60) if v.total_seconds() % 60 == 0 else -1
    elif isinstance(v, datetime):
        r["vk"], r["vstamp"] = "abs", stamp(v)
    for ie in d.get("udh", []):
        a = [-1]
        if isinstance(ie, P.Concatenation):
            a = [ie.reference, ie.parts, ie.number]
        elif isinstance(ie, P.PortAddress):
            a = [ie.destination, ie.source]
        r["udh"].append({"id": ie.id, "len": ie.dataLength, "data": list(ie.data), "attrs": a})
    return r


def decode(s):
    f, o = s["form"], s["input"]
    r = {"k": "dec", "form": f, "input": o, "exc": "", "res": {}}
    if f == "raw":
        arg = "".join(map(chr, o))
        r["form"] = "text"
    elif f == "bytes":
        arg = bytearray(o)
    else:
        arg = "".join(("%02X" if f == "text" else "%02x") % b for b in o)
        r["form"], r["input"] = "text", cps(arg)
    try:
        r["res"] = result(P.decodeSmsPdu(arg))
    except EncodingError:
        r["exc"] = "EncodingError"
    except Exception as e:
        r["exc"] = type(e).__name__
    return r


def run(s):
    if s["k"] == "enc":
        return encode(s)
    if s["k"] == "encdec":
        e = encode(s)
        rnd = random.Random(len(s["text"]))
        if not e["out"]:
            e["k"] = "enc"
            return e
        return decode({"form": "bytes", "input": rnd.choice(e["out"])["octs"]})
    return decode(s)


if __name__ == "__main__":
    drvlib.main(globals())
