"""Connecting the real GsmModem to simulated modems of every kind (C06: SIM PIN; C07: configuration)."""
import random
import modemlib
from modemlib import *

HARD_EXIT = True
NOPIN = ("ATZ", "AT")
NOPINP = ("ATE", "AT+CFUN", "AT+CMEE", "AT+CPIN")


class SimConn(Sim):
    def init(self):
        p = self.prof
        self.simst = p["sim"]
        self.tries = 3
        self.cfun = p["cfun"]
        self.csca = p["csca"]
        self.wind = p["wind"]
        self.left = {k: list(v) for k, v in p.get("busy", {}).items()}
        self.reset()

    def reset(self):
        self.echo, self.cmee = True, 0

    def err(self, code, typ="CME"):
        """an error reply: with a code if the modem has been told to give codes (or always does)"""
        return Reply(["+%s ERROR: %d" % (typ, code)] if self.cmee or self.prof.get("codes") else ["ERROR"])

    def locked(self):
        return Reply(["+CME ERROR: 11"]) if self.prof.get("codes") or self.cmee else Reply(["ERROR"])

    def command(self, c):
        p = self.prof
        for k, v in self.left.items():
            if c.startswith(k) and v:
                return Reply([v.pop(0)])
        if self.simst != "ready" and not ((c in NOPIN and not (c == "ATZ" and p["reveal"] == "reset")) or c.startswith(NOPINP)):
            return self.locked()
        for u in p["unsup"]:
            if c.startswith(u):
                e = p.get("errs", {}).get(u, "ERROR")
                return Reply([e])
        ok = Reply(["OK"])
        if c == "ATZ":
            if self.simst != "ready" and p["reveal"] == "reset":
                return self.locked()
            self.reset()
        elif c == "ATE0":
            self.echo = False
            self.echo_last = True
        elif c.startswith("AT+CMEE="):
            self.cmee = int(c[8:])
        elif c == "AT+CFUN?":
            return Reply(([p.get("cfunform", "+CFUN: %d") % self.cfun] if p.get("cfunform") != "" else []) + ["OK"])
        elif c.startswith("AT+CFUN="):
            self.cfun = int(c[8:])
        elif c == "AT+CPIN?":
            if p.get("cpin") == "silent":
                return Reply([], final=False)
            if p.get("cpin") == "noise":
                return Reply([p["noise"]], final=False)
            v = {"ready": "READY", "pin": "SIM PIN", "puk": "SIM PUK", "absent": p.get("absent")}[self.simst]
            l = ["+CPIN:" + ("" if p.get("cpin") == "nospace" else " ") + v]
            if p.get("cpin") == "extra":
                l = ["+XYZ: 1"] + l
            return Reply(l, final=False) if p.get("cpin") == "nook" else Reply(l + ["OK"])
        elif c.startswith("AT+CPIN="):
            if self.simst == "puk":
                return self.err(12)
            if self.simst == "absent":
                return self.err(p["absenterr"])
            if c != 'AT+CPIN="%s"' % p["pin"]:
                self.tries -= 1
                if self.tries == 0:
                    self.simst = "puk"
                return self.err(16)
            self.simst = "ready"
        elif c == "AT+CLAC":
            if p["clac"] == "none":
                return self.err(3)
            cs = p["commands"]
            return Reply({"single": ["+CLAC: " + ",".join(cs)], "singlesp": ["+CLAC:" + ", ".join(cs)], "singlenp": [",".join(cs)],
                          "multi": list(cs), "multicr": [x + "\r" for x in cs]}[p["clac"]] + ["OK"])
        elif c == "AT+CGMI":
            return Reply([p.get("maker", "ACME")] + ["OK"])
        elif c == "AT+WIND?":
            return Reply((["+WIND: %d" % self.wind] if p.get("windline", True) else []) + ["OK"])
        elif c.startswith("AT+WIND="):
            self.wind = int(c[8:])
        elif c == "AT+CSCA?":
            f = p["cscaform"]
            if f == "error":
                return self.err(p.get("cscaerr", 302), "CMS")
            if self.csca == "":
                return Reply(["+CMS ERROR: 330"]) if f == "330" else Reply(["OK"]) if f == "nothing" else Reply(['+CSCA: "",129', "OK"])
            return Reply([p.get("cscafmt", '+CSCA: "%s",145') % self.csca, "OK"])
        elif c.startswith("AT+CSCA="):
            self.csca = c[8:].split(",")[0].strip('"')
        elif c.startswith("AT+CSMP="):
            if p["csmpdrops"]:
                self.csca = ""
        elif c == "AT+CPMS=?":
            if p["cpms"] == []:
                return Reply(["ERROR"]) if p.get("nocpms", "err") == "err" else Reply(([p["nocpms"]] if p["nocpms"] else []) + ["OK"])
            l = ",".join("(" + ",".join('"%s"' % m for m in g) + ")" for g in p["cpms"])
            return Reply([p.get("cpmsfmt", "+CPMS: %s") % l, "OK"])
        elif c.startswith("AT+CPMS=") :
            ms = c[8:].split(",")
            good = len(ms) <= len(p["cpms"]) and all(m.strip('"') in g for m, g in zip(ms, p["cpms"])) and ms != [""]
            return Reply(["+CPMS: " + ",".join(["0,20"] * len(ms)), "OK"]) if good else self.err(302, "CMS")
        return ok


def run(scn):
    w = World(scn, SimConn)
    rec = w.rec
    p = scn["prof"]
    m = gm.GsmModem("-")

    def main():
        u = p["user"]
        if u["text"]:
            m.smsTextMode = True
        if u["smsc"]:
            m.smsc = u["smsc"]
        for i, pin in enumerate(u["pins"]):
            rec.add("Attempt", at=rec.at())
            try:
                m.connect(pin if pin else None)
                rec.add("Ret", alive=bool(m.alive), at=rec.at())
                w.sleep(50)
            except Exception as e:
                rec.add("Exc", x=exc(e), at=rec.at())
                w.sleep(50)
            try:
                m.close()
            except Exception as e:
                rec.add("CloseExc", x=exc(e), at=rec.at())
            w.sim.buf = ""
    ev = w.run(main)
    keep = ("sim", "pin", "reveal", "unsup", "clac", "commands", "cpms", "csca", "cscaform", "csmpdrops", "zmode", "wind", "cfun", "aim", "user", "cpin")
    return {"prof": {k: p[k] for k in keep}, "ev": [e for e in ev if e["k"] not in ("Urc",)]}


BASE = {"sim": "ready", "pin": "1234", "reveal": "later", "unsup": [], "clac": "none", "commands": ["+CMGF"], "cpms": [["ME", "SM"], ["ME", "SM"], ["ME", "SM"]],
        "csca": "+2782913593", "cscaform": "ok", "csmpdrops": False, "zmode": 0, "wind": 0, "cfun": 1, "aim": "conf", "cpin": "ok",
        "user": {"pins": [""], "text": False, "smsc": ""}}
OPTIONAL = ["AT+CFUN?", "AT+CFUN", "AT+WIND", "AT+WIND=50", "AT^CVOICE", "AT^USSDMODE", "AT+COPS=3,0", "AT+CSMP", "AT+CPMS=?", "AT+CPMS=\"", "AT+CNMI", "AT+CLIP", "AT+CRC",
            "AT+CVHU", "AT+ZPAS", "AT+CGMI", "AT+CLAC"]
ERRS = ["ERROR", "ERROR", "+CME ERROR: 3", "+CME ERROR: 4", "COMMAND NOT SUPPORT", "+CMS ERROR: 302", "+CME ERROR: 100", "+CMS ERROR: 500"]
CMDS = ["&C", "+CGMI", "+CMGF", "+CPMS", "+CLAC", "+CREG"]
MEMS = ["ME", "SM", "SR", "MT", "BM", "TA"]


def gen(rnd, part, b=None):
    p = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    b = b or {}
    p["aim"] = part
    p["codes"] = rnd.random() < .5
    p["sim"] = b.get("sim", rnd.choice(["ready", "pin", "pin", "pin", "puk", "absent"] if part == "pin" else ["ready", "ready", "ready", "pin"]))
    p["reveal"] = b.get("reveal", rnd.choice(["later", "reset"]))
    p["pin"] = rnd.choice(["1234", "0000", "98765432", "0042"])
    good = p["pin"] if (p["sim"] == "pin" or rnd.random() < .3) else ""
    if part == "pin":
        n = rnd.choice([1, 1, 1, 2, 2, 4])
        p["user"]["pins"] = [rnd.choice([good, good, p["pin"], "", "9999", p["pin"][:-1], p["pin"] + "0"]) for _ in range(n)]
        if rnd.random() < .5:
            p["user"]["pins"][-1] = p["pin"]
    else:
        p["user"]["pins"] = [good]
    p["cpin"] = b.get("cpin", rnd.choice(["ok", "ok", "ok", "nook", "nospace", "extra"] + (["silent", "noise"] if part == "pin" else [])))
    p["absent"], p["absenterr"], p["noise"] = rnd.choice(["NOT READY", "NOT INSERTED", "SIM not ready"]), rnd.choice([10, 13, 3]), rnd.choice(["^RSSI: 12", "+CREG: 0", "READY"])
    if part == "conf" and p["cpin"] == "noise":
        p["cpin"] = "ok"
    unsup = b.get("unsup")
    if unsup is None:
        unsup = [u for u in OPTIONAL if rnd.random() < rnd.choice([0, .1, .1, .4])]
        if part == "pin" and rnd.random() < .05:
            unsup.append(rnd.choice(["AT+CPIN?", "AT+CMGF", "ATE0", "AT+CMEE"]))
    p["unsup"] = unsup
    p["errs"] = {u: rnd.choice(ERRS) for u in unsup}
    for u in unsup:
        if u == "AT+CPIN?":
            p["errs"][u] = "+CME ERROR: %d" % rnd.choice([10, 13, 15])
    if p["reveal"] == "reset" and "AT+CMEE" in unsup:
        pass
    cl = b.get("clac", rnd.choice(["none", "single", "singlesp", "singlenp", "multi", "multicr"]))
    cmds = list(CMDS)
    for x in ("+VTS", "^DTMF", "^CVOICE", "^USSDMODE", "+WIND", "+ZPAS"):
        if rnd.random() < .35:
            cmds.insert(rnd.randrange(len(cmds) + 1), x)
    p["clac"], p["commands"] = cl, cmds
    if "cpms" in b:
        p["cpms"] = b["cpms"]
    else:
        k = rnd.choice([1, 2, 3, 3, 3])
        p["cpms"] = [rnd.sample(MEMS, rnd.choice([1, 2, 3])) for _ in range(k)]
        q = rnd.random()
        if q < .1:
            p["cpms"] = []
        elif q < .2:
            p["cpms"] = [[] for _ in range(3)]
        elif q < .3:
            p["cpms"] = [rnd.choice([["MT"], ["BM", "TA"], ["TA"]])] + p["cpms"][1:]
    p["nocpms"] = rnd.choice(["err", "err", "", "+CPMS:", "+CPMS: ", "+CPMS: ,,,,"])
    p["cpmsfmt"] = rnd.choice(["+CPMS: %s", "+CPMS: %s", "+CPMS:%s", "+CPMS: (%s)"])
    p["csca"] = rnd.choice(["+2782913593", "+1", "", "0830000", "+491710760000"])
    p["cscaform"] = b.get("csca", rnd.choice(["ok", "ok", "ok", "330", "nothing", "error"]))
    p["cscaerr"] = rnd.choice([302, 303, 500])
    p["cscafmt"] = rnd.choice(['+CSCA: "%s",145', '+CSCA: "%s",145', '+CSCA:"%s",129'])
    p["csmpdrops"] = b.get("csmpdrops", rnd.random() < .4)
    p["zmode"] = rnd.choice([0, 0, 1])
    p["user"]["smsc"] = rnd.choice(["", "", "+447785016005", "+1"])
    p["user"]["text"] = b.get("text", rnd.random() < .4)
    p["wind"] = rnd.choice([0, 5, 50, 63, 150, 1506])
    p["windline"] = rnd.random() < .9
    if not p["windline"]:
        p["wind"] = -1
    p["cfun"] = rnd.choice([1, 1, 0, 4])
    p["cfunform"] = rnd.choice(["+CFUN: %d", "+CFUN: %d", "+CFUN:%d", "+CFUN: %d,0"])
    p["maker"] = rnd.choice(["huawei", "HUAWEI", "ZTE CORPORATION", "WAVECOM MODEM", "Nokia", "ACME"])
    p["busy"] = {}
    for pre in ("AT+CSCA", "AT+CPIN=", "AT+CPIN?", "AT+CNMI", "AT+CSMP", "AT+COPS", "AT+CVHU", "AT^", "AT+CLIP", "AT+CPMS", "ATZ", "AT+CMEE", "AT+CFUN"):
        if rnd.random() < b.get("busyp", .06):
            p["busy"][pre] = ["+CME ERROR: 14" if rnd.random() < .6 else "+CME ERROR: 515"] * rnd.choice([1, 1, 2])
    p["lat"] = rnd.choice([0, 10, 60])
    p["fmt"] = rnd.choice([0, 1, 1])
    p["split"] = rnd.choice([0, 0, .3])
    p["echo"] = rnd.random() < .6 and p["reveal"] != "never"
    return {"prof": p, "sched": sched(rnd, light=True)}


def scenarios(tier, seed, extra, part="conf"):
    rnd = random.Random("conn%s%s" % (seed, part))
    n = {"quick": 1100, "thorough": 12000}[tier]
    out = []
    if part == "conf":                # every optional command missing, alone and in pairs; every error style
        for i, u in enumerate(OPTIONAL):
            for v in OPTIONAL[i:]:
                out.append(gen(rnd, part, {"unsup": [u] if u == v else [u, v]}))
    for b in extra or []:
        if part == "conf" and b["sim"] in ("puk", "absent"):
            b = dict(b, sim="ready")
        out.append(dict(gen(rnd, part, b), src="tlc"))
    while len(out) < n:
        out.append(gen(rnd, part))
    return out


if __name__ == "__main__":
    drvlib.main(globals())
