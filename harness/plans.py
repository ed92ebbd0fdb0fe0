"""One plan per property: which specifications are model checked and which conformance runs decide it."""
PLANS = {}


def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


@plan("C24")
def c24(c):
    q = c.tier == "quick"
    c.design("Trie", "MCTrie.cfg" if q else "MCTrieBig.cfg", workers=3 if q else 8)
    beh, _ = c.generate("TrieGen", 60 if q else 400, 26)
    c.conform("drv_trie", "TrieTrace", extra=beh)


@plan("C18")
def c18(c):
    c.design("MCCodec", "MCCodec.cfg" if c.tier == "quick" else "MCCodecBig.cfg", workers=2)
    c.conform("drv_pdu", "PduTrace", part="enc")


@plan("C19")
def c19(c):
    c.design("MCCodec", "MCCodec.cfg" if c.tier == "quick" else "MCCodecBig.cfg", workers=2)
    c.conform("drv_pdu", "PduTrace", part="seg")


@plan("C20")
def c20(c):
    f, _ = c.generate("SmsGen", 40 if c.tier == "quick" else 400, 41)
    c.conform("drv_pdu", "PduTrace", part="dec", extra=f)


@plan("C21")
def c21(c):
    f, _ = c.generate("SmsGen", 10 if c.tier == "quick" else 60, 41)
    c.conform("drv_pdu", "PduTrace", part="mal", extra=f)


@plan("C22")
def c22(c):
    c.design("MCCodec", "MCCodec.cfg" if c.tier == "quick" else "MCCodecBig.cfg", workers=2)
    c.conform("drv_codec", "CodecTrace", part="prim")


@plan("C23")
def c23(c):
    c.design("MCCodec", "MCCodec.cfg" if c.tier == "quick" else "MCCodecBig.cfg", workers=2)
    c.conform("drv_codec", "CodecTrace", part="time")


def serial(part):
    def f(c):
        q = c.tier == "quick"
        c.design("MCSerial", "MCSerial.cfg" if q else "MCSerialBig.cfg", workers=2 if q else 8)
        c.design("MCSerial", "MCSerialFault.cfg" if part == "close" else "MCSerialLive.cfg", workers=2)
        f, _ = c.generate("SerialGen", 25 if q else 250, 400)
        c.conform("drv_serial", "SerialTrace", part=part, extra=f)
    return f


for _p, _part in (("C01", "resp"), ("C02", "ntf"), ("C03", "tmo"), ("C04", "close")):
    PLANS[_p] = serial(_part)


@plan("C05")
def c05(c):
    q = c.tier == "quick"
    c.design("MCModemCmd", "MCModemCmdLive.cfg", workers=2)
    if not q:
        c.design("MCModemCmd", "MCModemCmd.cfg", workers=6)
    f, _ = c.generate("ModemCmdGen", 20 if q else 200, 85)
    c.conform("drv_cmd", "ModemCmdTrace", extra=f)


def connect(part):
    def f(c):
        q = c.tier == "quick"
        c.design("MCConnect", "MCConnect.cfg" if q else "MCConnectBig.cfg", workers=3 if q else 8)
        f, _ = c.generate("ConnectGen", 10 if q else 100, 41)
        c.conform("drv_connect", "ConnectTrace", part=part, extra=f)
    return f


for _p, _part in (("C06", "pin"), ("C07", "conf")):
    PLANS[_p] = connect(_part)


def sending(part):
    def f(c):
        q = c.tier == "quick"
        c.design("MCSmsSend", "MCSmsSendQuick.cfg" if q and part == "send" else "MCSmsSend.cfg" if q else "MCSmsSendParts.cfg", workers=3 if q else 8)
        f, _ = c.generate("SmsSendGen", 20 if q else 200, 50)
        c.conform("drv_send", "SmsSendTrace", part=part, extra=f)
    return f


for _p, _part in (("C08", "send"), ("C09", "report")):
    PLANS[_p] = sending(_part)


def storing(part):
    def f(c):
        q = c.tier == "quick"
        if q:
            c.design("MCSmsStore", "MCSmsStoreRecv.cfg" if part == "recv" else "MCSmsStoreOps.cfg", workers=4)
        else:
            for cfg in ("MCSmsStoreRecv.cfg", "MCSmsStoreOps.cfg", "MCSmsStoreBig.cfg"):
                c.design("MCSmsStore", cfg, workers=8)
        if part == "recv":
            c.design("MCSmsReply", "MCSmsReply.cfg", workers=4)
        f, _ = c.generate("SmsStoreGen", 20 if q else 200, 31)
        c.conform("drv_store", "SmsStoreTrace", part=part, extra=f)
    return f


for _p, _part in (("C10", "recv"), ("C11", "ops")):
    PLANS[_p] = storing(_part)


@plan("C12")
def c12(c):
    q = c.tier == "quick"
    c.design("MCUssd", "MCUssd.cfg" if q else "MCUssdBig.cfg", workers=3 if q else 8)
    f, _ = c.generate("UssdGen", 20 if q else 200, 50)
    c.conform("drv_ussd", "UssdTrace", extra=f)


def calls(part, quick, deep):
    def f(c):
        q = c.tier == "quick"
        for cfg in quick if q else quick + deep:
            c.design("MCCalls", cfg, workers=3 if q else 8)
        f, _ = c.generate("CallsGen", 20 if q else 200, 50)
        c.conform("drv_calls", "CallsTrace", part=part, extra=f)
    return f


PLANS["C13"] = calls("out", ["MCCalls.cfg", "MCCallsPoll.cfg"], ["MCCallsPoll1.cfg", "MCCallsPollBig.cfg"])
PLANS["C14"] = calls("in", ["MCCallsIn.cfg", "MCCallsIn2.cfg"], ["MCCallsIn3.cfg", "MCCallsBig.cfg"])
PLANS["C15"] = calls("dtmf", ["MCCallsDtmf.cfg"], ["MCCallsDtmfBig.cfg"])


@plan("C16")
def c16(c):
    q = c.tier == "quick"
    c.design("MCCoverage", "MCCoverage.cfg" if q else "MCCoverageBig.cfg", workers=2 if q else 8)
    f, _ = c.generate("CoverageGen", 20 if q else 200, 40)
    c.conform("drv_cover", "CoverageTrace", extra=f)


@plan("C17")
def c17(c):
    q = c.tier == "quick"
    c.design("MCSettings", "MCSettings.cfg" if q else "MCSettingsBig.cfg", workers=2 if q else 8)
    f, _ = c.generate("SettingsGen", 20 if q else 200, 70)
    c.conform("drv_query", "SettingsTrace", extra=f)


def terminal(part):
    def f(c):
        q = c.tier == "quick"
        c.design("MCTerminal", "MCTerminal.cfg" if q else "MCTerminalBig.cfg", workers=2 if q else 8)
        f, _ = c.generate("TerminalGen", 20 if q else 200, 100)
        c.conform("drv_term", "TerminalTrace", part=part, extra=f)
    return f


for _p, _part in (("C25", "line"), ("C26", "sms"), ("C27", "screen")):
    PLANS[_p] = terminal(_part)


@plan("C28")
def c28(c):
    q = c.tier == "quick"
    c.design("MCTools", "MCTools.cfg", workers=2)
    f, _ = c.generate("ToolsGen", 20 if q else 200, 60)
    c.conform("drv_tools", "ToolsTrace", extra=f)


@plan("C29")
def c29(c):
    q = c.tier == "quick"
    c.design("MCSession", "MCSession.cfg" if q else "MCSessionBig.cfg", workers=2 if q else 8)
    f, _ = c.generate("SessionGen", 40 if q else 300, 80)
    c.conform("drv_session", "SessionTrace", extra=f)
