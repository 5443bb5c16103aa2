import re
from driver import Unit
KNOWN = []
PROPS = {}
def P(pid, title, units, **kw):
    PROPS[pid] = dict(title=title, units=units, **kw)
Z = (("z3", 200), ("sat", 200))
S = (("sat", 200), ("z3", 200))
C = (("cvc5", 240),)

P("C01", "Message objects", [
    Unit("msg_alloc", "msgobj.c", "h_alloc", backends=Z, unwind=25, functions=["diag_allocmsg", "diag_freemsg"]),
    Unit("msg_dup1", "msgobj.c", "h_dup1", backends=Z, unwind=25, functions=["diag_dupsinglemsg"]),
    Unit("msg_freechain", "msgobj.c", "h_freechain", backends=S, unwind=25, functions=["diag_freemsg"], kind="bounded", bound="chains of <= 3 messages"),
    Unit("msg_dupchain", "msgobj.c", "h_dupchain", backends=S, unwind=25, functions=["diag_dupmsg"], kind="bounded", bound="chains of <= 3 messages"),
] + [Unit("flalloc%d" % n, "msgobj.c", "h_flalloc", defs=["ESZ=%d" % n], backends=Z, unwind=45, functions=["diag_fl_alloc"]) for n in (0, 1, 24)])

P("C02", "Checksum", [
    Unit("cks1", "cks1.c", dfcc="k_cks", defs=["VP_LOOPC"], loop_contracts="cks1_loop.json", backends=C, functions=["diag_cks1"]),
] + [Unit("cks1_len%d" % n, "cks1.c", defs=["LEN=%d" % n], backends=S, unwind=5010, kind="bounded", bound="n = %d" % n, functions=["diag_cks1"], fallback_of="cks1") for n in (0, 1, 3, 16)
] + [Unit("cks1_big%d" % n, "cks1.c", defs=["LEN=%d" % n, "SPARSE"], backends=S, unwind=5010, kind="bounded", bound="n = %d, all but 6 bytes fixed" % n, functions=["diag_cks1"], fallback_of="cks1", flags=["--max-field-sensitivity-array-size", "5000"]) for n in (255, 256, 257)])

P("C03", "ISO14230 send", [
    Unit("iso14230_send", "iso14230_send.c", dfcc="k_send", functions=["dl2p_14230_send"], backends=Z, unwind=4),
] + [Unit("iso14230_send_sem%d" % n, "iso14230_send.c", defs=["VP_SEM", "LEN=%d" % n], functions=["dl2p_14230_send"], kind="bounded", bound="payload = %d bytes, checksum evaluated by summation" % n, backends=S, unwind=80, fallback_of="iso14230_send") for n in (1, 5, 63, 64)
])

P("C13", "L1 send/recv", [
    Unit("l1_send_block", "l1.c", "h_send", backends=Z, unwind=20, functions=["diag_l1_send"]),
    Unit("l1_send_bytes", "l1.c", "h_send", defs=["BYTEWISE"], dfcc="k_send", loop_contracts="l1_loop.json", backends=C, functions=["diag_l1_send"]),
    Unit("l1_toolong", "l1.c", "h_toolong", backends=S, unwind=20, functions=["diag_l1_send"]),
    Unit("l1_recv", "l1.c", "h_recv", backends=S, unwind=20, functions=["diag_l1_recv"]),
    Unit("l1_open", "l1.c", "h_open", backends=S, unwind=20, functions=["diag_l1_open", "diag_l1_close", "diag_l1_ioctl", "diag_l1_gettype", "diag_l1_getflags"]),
] + [Unit("l1_send_len%d" % n, "l1.c", "h_send", defs=["LEN=%d" % n], backends=S, unwind=20, kind="bounded", bound="len = %d" % n, functions=["diag_l1_send"], fallback_of=["l1_send_bytes", "l1_send_block"]) for n in (1, 2, 4)])

P("C20", "Errors", [
    Unit("err_latch", "msgobj.c", "h_err", backends=S, unwind=65, functions=["diag_p_pseterr", "diag_p_iseterr", "diag_p_pfwderr", "diag_p_ifwderr", "diag_geterr"]),
    Unit("err_text", "msgobj.c", "h_errtext", backends=S, unwind=65, functions=["diag_errlookup"]),
])

FS = ["--max-field-sensitivity-array-size", "1100"]
def B(name, src, entry, defs, fns, bound, unwind=12, uws=None, fallback_of=None, flags=FS, be=S, **kw):
    return Unit(name, src, entry, defs=defs, functions=fns, kind="bounded", bound=bound, unwind=unwind, unwindset=uws,
                flags=flags, backends=be, fallback_of=fallback_of, objbits=12, **kw)

# ---- C04 ISO14230 receive
I14R = ["dl2p_14230_recv", "dl2p_14230_int_recv", "dl2p_14230_decode"]
def rx(name, script, cap, nfr, l1=0, oom=0, extra=(), unwind=12):
    n = max(2 * len(script) + 2, nfr + 2) if l1 else max(len(script) + 1, nfr + 2)
    return B("iso14230_rx_" + name, "iso14230_recv.c", "harness",
             ["SCRIPT=" + ",".join(map(str, script)), "CAP=%d" % cap, "NFRAMES=%d" % nfr, "L1FLAGS=%d" % l1, "OOM=%d" % oom] + list(extra),
             I14R, "L1 reads %s (n: bytes of arbitrary content, 0: time-out, <0: error), L1 flags 0x%x" % (script, l1),
             unwind=unwind, uws={"dl2p_14230_int_recv": n}, flags=(FS if "LONGF" in extra or "FOURF" in extra else []))
P("C04", "ISO14230 receive", [
    Unit("iso14230_decode", "iso14230_decode.c", dfcc="k_decode", functions=["dl2p_14230_decode"], backends=Z, unwind=4, optional=True),
    rx("timeout", [0], 1, 1), rx("err", [-9], 1, 1), rx("part_err", [3, -9], 3, 1), rx("msg_err", [5, 0, -9], 5, 1),
    rx("one2", [2, 0, 0], 2, 1), rx("one5", [5, 0, 0], 5, 1), rx("one6", [6, 0, 0], 6, 2), rx("chunks", [1, 2, 3, 0, 0], 6, 2),
    rx("split9", [6, 3, 0, 0], 9, 3), rx("two", [5, 0, 4, 0, 0], 9, 3), rx("one8_oom", [7, 0, 0], 7, 2, oom=1),
    rx("fr1", [7, 0], 7, 1, 0x20), rx("fr2", [6, 4, 0], 10, 2, 0x20), rx("fr1b", [1, 0], 1, 1, 0x20), rx("fr4", [4, 0], 4, 1, 0x20),
    rx("fr_strip", [5, 3, 0], 8, 2, 0x120), rx("fr_nohdr", [4, 1, 0], 5, 2, 0x2020), rx("fr_raw", [1, 4, 0], 5, 2, 0x2120),
    rx("fr_err", [6, 4, -7], 10, 2, 0x20), rx("fr_oom", [6, 4, 0], 10, 2, 0x20, oom=1),
    rx("four", [15, 0, 0], 15, 5, extra=["FOURF"], unwind=18), rx("four2", [7, 8, 0, 0], 15, 5, extra=["FOURF"], unwind=18), rx("long", [263, 0, 0], 263, 2, extra=["LONGF"], unwind=265),
])

# ---- C05 request
I14Q = ["dl2p_14230_request", "dl2p_14230_int_recv"]
def rq(name, prefix, depth, fs=1):
    return B("iso14230_req_" + name, "iso14230_req.c", "harness", ['PREFIX="%s"' % prefix, "DEPTH=%d" % depth, "FS=%d" % fs] + (["NSLOTS=16", "MS_BIG"] if len(prefix) > 10 else []), I14Q,
             "response sequences %s followed by every sequence of %d events" % (prefix or "-", depth), unwind=80)
P("C05", "ISO14230 request", [rq(e, e, 1) for e in "PNTEnm"] + [rq(e + f, e + f, 1) for e in "SB" for f in "PSBNTEnm"] + [
    rq("busy3", "BTBTBT", 1), rq("busy4", "BTBTBTBT", 0), rq("pend4", "STSTSTST", 1), rq("mix", "STBTST", 1), rq("sendfail", "BT", 0, 3), rq("busypend", "BTSSP", 0), rq("alt", "BTSTBTSTBTSTBT", 1)])

# ---- C06 startcomms etc.
I14S = ["dl2p_14230_startcomms"]
def st(name, script, rxlen, init="FAST", l1=0, xf=0, rxoff=0, iofail=0, fmt=None):
    return B("iso14230_start_" + name, "iso14230_start.c", "h_start",
             ["SCRIPT=" + ",".join(map(str, script)), "RXLEN=%d" % rxlen, "RXOFF=%d" % rxoff, "INIT=DIAG_L2_TYPE_%sINIT" % init, "L1FLAGS=%d" % l1, "XF=%d" % xf, "IOFAIL=%d" % iofail] + (["RXFMT=%d" % fmt] if fmt else []),
             I14S, "L1 reads %s, L1 flags 0x%x" % (script, l1))
P("C06", "ISO14230 session", [
    st("fast3", [3, 0, 0], 3, l1=0x2120), st("fast3f", [3, 0, 0], 3, l1=0x2120, xf=0x10), st("fast2", [2, 0, 0], 2, l1=0x2120), st("fast1", [1, 0, 0], 1, l1=0x2120),
    st("fast0", [0], 0, l1=0x2120), st("fasterr", [-9], 0, l1=0x2120), st("fastnock", [3, 0, 0], 3, l1=0x21A0, xf=0x20), st("fastdata", [3, 0, 0], 3, l1=0xA1A0),
    st("fastfull", [7, 0, 0, 0], 3, rxoff=3, fmt=0x83), st("fastfull2", [7, 0, 0, 4, 0], 3, rxoff=3, fmt=0xC3, xf=0x30),
    st("full", [0], 0, l1=0x4020), st("fullslow", [0], 0, l1=0x4020, init="SLOW"),
    st("slow3", [2, 1, 0], 3, init="SLOW"), st("slow3b", [2, 1, 5, 3, 0], 3, init="SLOW", xf=0x10), st("slow2", [2, 0], 2, init="SLOW"), st("slow1", [1, 0], 1, init="SLOW"), st("slow0", [0], 0, init="SLOW"),
    st("slowerr", [2, -9], 2, init="SLOW"), st("slowsmart", [2, 0], 2, init="SLOW", l1=0x40), st("mon", [3, 0], 0, init="MON"), st("carb", [0], 0, init="CARB"),
] + [st("io%d" % i, [0], 0, l1=0x2120, iofail=i) for i in (1, 2, 3, 4)] + [st("ios%d" % i, [2, 0], 2, init="SLOW", iofail=i) for i in (2, 3)] + [
    B("iso14230_keepalive", "iso14230_start.c", "h_keepalive", ["RXOFF=0", "RXLEN=0"], ["dl2p_14230_timeout"], None),
    B("iso14230_stop", "iso14230_start.c", "h_stop", ["RXOFF=0", "RXLEN=0", "SCRIPT=3,0"], ["dl2p_14230_stopcomms"], "3-byte final response"),
    B("iso14230_stop0", "iso14230_start.c", "h_stop", ["RXOFF=0", "RXLEN=0", "SCRIPT=0"], ["dl2p_14230_stopcomms"], "no response"),
    B("iso14230_stopf", "iso14230_start.c", "h_stop", ["RXOFF=0", "RXLEN=0", "SCRIPT=0", "IOFAIL=1"], ["dl2p_14230_stopcomms"], "send fails"),
])
for p in PROPS["C06"]["units"]:
    if p.name == "iso14230_keepalive":
        p.kind = "proof"
J8 = "j1850.c"
def jr(name, script, cap, l1=0x20, entry="h_recv", fn="dl2p_j1850_recv", defs=()):
    return B("j1850_%s_%s" % (entry[2:], name), J8, entry, ["SCRIPT=" + ",".join(map(str, script)), "CAP=%d" % max(cap, 1), "L1FLAGS=%d" % l1] + list(defs),
             [fn, "dl2p_j1850_int_recv"], "L1 reads %s (n: bytes of arbitrary content, 0: time-out, <0: error), L1 flags 0x%x" % (script, l1), unwind=18,
             uws={"dl2p_j1850_int_recv": len(script) + 2})
def jq(name, script, cap, l1=0x20, defs=()):
    return jr(name, script, cap, l1, "h_request", "dl2p_j1850_request", defs)
P("C08", "J1850", [
    Unit("j1850_crc", "j1850_crc.c", dfcc="k_crc", defs=["VP_LOOPC"], loop_contracts="j1850_crc_loop.json", preunwind={("dl2p_j1850_crc",0):9,("sp_step",0):9,("harness",0):1026}, unwind=1030, backends=(("sat", 600),), functions=["dl2p_j1850_crc"]),
] + [Unit("j1850_crc_len%d" % n, "j1850_crc.c", defs=["LEN=%d" % n, "MAXN=%d" % n], backends=S, unwind=n + 10, kind="bounded", bound="n = %d" % n, functions=["dl2p_j1850_crc"], fallback_of="j1850_crc") for n in (1, 2, 4, 11)] + [
    Unit("j1850_send", "j1850.c", "h_send", defs=["VP_SENDPROOF"], replace_calls=["dl2p_j1850_crc:crc_contract"], backends=Z, unwind=20, functions=["dl2p_j1850_send"]),
] + [B("j1850_send_len%d_%x" % (n, f), J8, "h_send", ["LEN=%d" % n, "L1FLAGS=%d" % f], ["dl2p_j1850_send"], "payload = %d bytes, L1 flags 0x%x" % (n, f), unwind=24, fallback_of="j1850_send") for n in (1, 7, 12) for f in (0x20, 0x80, 0x8000)] + [
    jr("nofr", [0], 0, 0), jr("to", [0], 0), jr("err", [-9], 0), jr("one5", [5, 0], 5), jr("one4", [4, 0], 4), jr("two", [6, 5, 0], 11), jr("split", [3, 4, 0], 7),
    jr("errlate", [6, -9], 6), jr("nohdr", [2, 3, 0], 5, 0x2020), jr("strip", [4, 5, 0], 9, 0x120), jr("raw", [1, 2, 0], 3, 0x2120), jr("oom", [6, 5, 0], 11, defs=["OOM"]), jr("time", [6, 6, 6], 18, defs=["ADV=400"]),
    jr("queued", [5, 0], 5, defs=["QUEUED"]), jr("queuederr", [-9], 0, defs=["QUEUED"]), jr("queuednofr", [0], 0, 0, defs=["QUEUED"]),
    jq("one", [6, 0], 6), jq("two", [6, 5, 0], 11), jq("none", [0], 0), jq("err", [-9], 0), jq("errlate", [6, -9], 6), jq("nofr", [0], 0, 0), jq("oom", [6, 0], 6, defs=["OOM"]), jq("queued", [0], 0, defs=["QUEUED"]),
    Unit("j1850_start", J8, "h_start", backends=S, unwind=20, functions=["dl2p_j1850_startcomms", "dl2p_j1850_stopcomms"]),
    Unit("j1850_start_oom", J8, "h_start", defs=["OOM"], backends=S, unwind=20, functions=["dl2p_j1850_startcomms"]),
])
I9 = "iso9141.c"
def hdr9(script, l1, kinds):
    """concrete header bytes of the frames the script makes: G good, B bad first byte, C bad second byte, - arbitrary"""
    offs, got, cur = [], 0, 0
    for e in script:
        if e > 0:
            if cur == 0: offs.append(got)
            got += e; cur += e
            if (l1 & 0x20) or cur == 11: cur = 0
        else: cur = 0
    r = ""
    for o, k in zip(offs, kinds):
        if k != "-":
            r += "g_raw[%d]=%d;g_raw[%d]=%d;" % (o, {"G": 0x48, "B": 0x68, "C": 0x48}[k], o + 1, {"G": 0x6B, "B": 0x6B, "C": 0x6A}[k])
    return r
def ir(name, script, cap, l1=0, entry="h_recv", fn="dl2p_iso9141_recv", defs=(), h=""):
    defs = list(defs) + ["FIXHDR=" + hdr9(script, l1, h)]
    return B("iso9141_%s_%s" % (entry[2:], name), I9, entry, ["SCRIPT=" + ",".join(map(str, script)), "CAP=%d" % max(cap, 1), "L1FLAGS=%d" % l1] + list(defs),
             [fn, "dl2p_iso9141_int_recv", "dl2p_iso9141_decode"], "L1 reads %s (n: bytes of arbitrary content, 0: time-out, <0: error), L1 flags 0x%x" % (script, l1), unwind=18,
             uws={"dl2p_iso9141_int_recv": 2 * len(script) + 4})
def iq(name, script, cap, l1=0, defs=(), h=""):
    return ir(name, script, cap, l1, "h_request", "dl2p_iso9141_request", defs, h)
def is_(name, l1=0, init="SLOW", failat=0):
    return B("iso9141_start_" + name, I9, "h_start", ["L1FLAGS=%d" % l1, "INIT=DIAG_L2_TYPE_%sINIT" % init, "FAILAT=%d" % failat], ["dl2p_iso9141_startcomms", "dl2p_iso9141_wakeupECU", "dl2p_iso9141_stopcomms"],
             None, unwind=18)
P("C07", "ISO9141", [
    B("iso9141_send_len%d_%x" % (n, f), I9, "h_send", ["LEN=%d" % n, "L1FLAGS=%d" % f], ["dl2p_iso9141_send"], None, unwind=24) for n in range(1, 8) for f in (0, 0x80, 0x8000)] + [
    B("iso9141_send_toolong", I9, "h_send", ["TOOLONG"], ["dl2p_iso9141_send"], None, unwind=24),
    ir("to", [0], 0), ir("err", [-9], 0), ir("one6", [6, 0, 0], 6, h="G"), ir("one6b", [6, 0, 0], 6, h="B"), ir("one6c", [6, 0, 0], 6, h="C"), ir("one5", [5, 0, 0], 5, h="G"), ir("one4", [4, 0, 0], 4, h="G"), ir("one2", [2, 0, 0], 2, h="G"), ir("one1", [1, 0, 0], 1), ir("bytes", [1, 1, 1, 1, 1, 0, 0], 5, h="G"),
    ir("full", [11, 0], 11, h="G"), ir("full10", [10, 1, 0], 11, h="G"), ir("full9", [4, 5, 2, 5, 0, 0], 16, h="GG"), ir("full2", [5, 6, 6, 0, 0], 17, h="GG"), ir("two", [6, 0, 5, 0, 0], 11, h="GG"), ir("two_b", [6, 0, 5, 0, 0], 11, h="GB"), ir("two_c", [5, 0, 6, 0, 0], 11, h="CG"), ir("three", [5, 0, 11, 5, 0, 0], 21, h="GGG"), ir("part", [3, -9], 3), ir("errlate", [6, 0, -9], 6, h="G"), ir("errlate2", [6, 0, 3, -9], 9, h="G"),
    ir("oom", [6, 0, 0], 6, defs=["OOM=1"], h="G"), ir("oom2", [6, 0, 5, 0, 0], 11, defs=["OOM=2"], h="GG"),
    ir("kb94", [2, 4, 0, 0], 6, defs=["P2MIN=0"], h="G"), ir("p2", [2, 4, 0, 5, 0, 0], 11, defs=["P2MIN=20"], h="GG"), ir("fr", [6, 11, 0], 17, 0x20, h="GG"), ir("fr_c", [6, 11, 0], 17, 0x20, h="GC"), ir("fr4", [4, 0], 4, 0x20, h="G"), ir("frtmo", [6, 0], 6, 0x20, defs=["TMO=50"], h="G"), ir("frerr", [6, -9], 6, 0x20, h="G"),
    ir("strip", [4, 5, 0], 9, 0x120, h="GG"), ir("strip3", [3, 0], 3, 0x120, h="G"), ir("strip_b", [5, 0], 5, 0x120, h="B"), ir("nohdr", [2, 5, 0], 7, 0x2020), ir("nohdr1", [1, 0], 1, 0x2020), ir("raw", [1, 7, 0], 8, 0x2120), ir("insane", [4, 0, 0], 4, 0x2000), ir("queued", [6, 0, 0], 6, defs=["QUEUED"], h="G"), ir("queuederr", [-9], 0, defs=["QUEUED"]), ir("queuedto", [0], 0, defs=["QUEUED"]),
    iq("one", [6, 0, 0], 6, h="G"), iq("oneb", [6, 0, 0], 6, h="B"), iq("two", [6, 0, 5, 0, 0], 11, h="GG"), iq("none", [0], 0), iq("err", [-9], 0), iq("errlate", [6, 0, -9], 6, h="G"), iq("oom", [6, 0, 0], 6, defs=["OOM=1"], h="G"), iq("queued", [0], 0, defs=["QUEUED"]), iq("fr", [5, 0], 5, 0x20, h="G"),
    Unit("iso9141_decode", I9, "h_decode", backends=S, unwind=24, functions=["dl2p_iso9141_decode"], optional=True),
    is_("ok"), is_("full", 0x4020), is_("half", 0x40), is_("mon", init="MON"), is_("fast", init="FAST"), is_("carb", init="CARB")] + [is_("fail%d" % i, failat=i) for i in range(1, 8)])
for p in PROPS["C07"]["units"]:
    if p.bound is None:
        p.kind = "proof"
MB = "mb1.c"
MBR = ["dl2p_mb1_int_recv", "dl2p_mb1_decode"]
def mr(name, total, avail, chunk=255, tail=0, entry="h_recv", fn="dl2p_mb1_recv", defs=()):
    return B("mb1_%s_%s" % (entry[2:], name), MB, entry, ["TOTAL=%d" % total, "AVAIL=%d" % avail, "CHUNK=%d" % chunk, "TAIL=%d" % tail, "SLOTCAP=%d" % max(16, total)] + list(defs), [fn] + MBR,
             "message of %d bytes, %d arrive, at most %d at a time, then %s%s" % (total, avail, chunk, tail or "nothing", ", contents fixed" if "SPARSE" in " ".join(defs) else ""), unwind=max(24, total + 4, avail + 4))
MRS = [("ok5", 5, 5), ("ok7", 7, 7), ("ok12", 12, 12), ("ok7x1", 7, 7, 1), ("ok8x2", 8, 8, 2), ("ok9x3", 9, 9, 3), ("more", 7, 14), ("none", 7, 0), ("noneerr", 7, 0, 255, -7), ("part1", 7, 1), ("part2", 7, 2), ("part3", 7, 3), ("part6", 7, 6), ("part6x2", 12, 11, 4), ("parterr", 7, 5, 255, -7), ("short4", 4, 4), ("short3", 3, 3), ("short1", 1, 3), ("short0", 0, 3), ("long20", 20, 20, 255)]
P("C09", "MB1", [B("mb1_send_len%d" % n, MB, "h_send", ["LEN=%d" % n] + (["SPARSE=0"] if n > 40 else []), ["dl2p_mb1_send"], "payload of %d bytes, %s" % (n, "arbitrary contents" if n <= 40 else "all but 6 bytes fixed"), unwind=max(20, n + 8) if n <= 40 else 262) for n in (1, 2, 3, 9, 24, 251)] + [
    Unit("mb1_send_toolong", MB, "h_send", defs=["TOOLONG"], backends=S, unwind=20, functions=["dl2p_mb1_send"])] +
  [mr(*a) for a in MRS] + [mr("oom", 7, 7, defs=["OOM"]), mr("long", 255, 255, defs=["SPARSE=0"]), mr("longb", 255, 255, defs=["SPARSE=0x8000"]), mr("longc", 255, 255, defs=["SPARSE=1"]), mr("long2", 255, 254, 200, defs=["SPARSE=0"]), mr("part11", 12, 11, 255), mr("last1", 12, 12, 11)] + [mr(*a, entry="h_request", fn="dl2p_mb1_request") for a in MRS if a[0] in ("ok5", "ok7", "ok8x2", "none", "noneerr", "part6", "short4", "more")] + [mr("oom", 7, 7, entry="h_request", fn="dl2p_mb1_request", defs=["OOM"]),
  mr("ok", 7, 7, entry="h_timeout", fn="dl2p_mb1_timeout"), mr("none", 7, 0, entry="h_timeout", fn="dl2p_mb1_timeout")] +
  [B("mb1_start_%d" % i, MB, "h_start", ["FAILAT=%d" % i, "AVAIL=7", "TOTAL=7"], ["dl2p_mb1_startcomms"], "7-byte identification message", unwind=24) for i in range(5)])
P("C12", "RAW", [Unit("raw_" + e, "raw.c", "h_" + e, backends=Z, unwind=1030, functions=["dl2p_raw_" + f]) for e, f in (("send", "send"), ("recv", "recv"), ("request", "request"), ("start", "startcomms"))])
D2 = "d2.c"
def dr(e, entry="h_request", fn="dl2p_d2_request", defs=()):
    return B("d2_%s_%s" % (entry[2:], e or "x"), D2, entry, ['EVENTS="%s"' % e] + list(defs), [fn, "dl2p_d2_recv"], "frame sequence %s (a..z: 1,2,3,4,62 payload bytes, p: busy, s/t: too short, T/E: error, m/M: no memory)" % e, unwind=70)
P("C11", "D2", [Unit("d2_send", D2, "h_send", defs=["SYMLEN"], backends=Z, unwind=70, functions=["dl2p_d2_send"])] +
  [B("d2_send%d" % n, D2, "h_send", ["LEN=%d" % n], ["dl2p_d2_send"], "payload of %d bytes" % n, unwind=70, fallback_of="d2_send") for n in (0, 1, 2, 30, 62, 63)] +
  [dr(e, "h_recv", "dl2p_d2_recv") for e in "abcdpzstTEm"] + [dr(e) for e in "abcdzsTEmM"] + [dr("p" + e) for e in "abcdsTEmM"] + [dr("ppa"), dr("pppc"), dr("x", defs=["FAILAT=1"])] +
  [dr(e, "h_timeout", "dl2p_d2_timeout") for e in ("a", "T", "pa", "x")] + [dr(e, "h_stop", "dl2p_d2_stopcomms") for e in ("a", "T", "pa", "x", "M")] +
  [dr("y", "h_timeout", "dl2p_d2_timeout", ["FAILAT=1"]), dr("y", "h_stop", "dl2p_d2_stopcomms", ["FAILAT=1"])] +
  [B("d2_start%d" % i, D2, "h_start", ["FAILAT=%d" % i], ["dl2p_d2_startcomms"], None, unwind=24) for i in range(5)] +
  [B("d2_start_l1_%x" % f, D2, "h_start", ["L1FLAGS=0x%x" % f], ["dl2p_d2_startcomms"], None, unwind=24) for f in (0, 0x80, 0x4000)] + [B("d2_start_fast", D2, "h_start", ["INIT=DIAG_L2_TYPE_FASTINIT"], ["dl2p_d2_startcomms"], None, unwind=24)])
for p in PROPS["C11"]["units"]:
    if p.bound is None:
        p.kind = "proof"
LC = "l2core.c"
LCF = ["diag_l2_open", "diag_l2_close", "diag_l2_StartCommunications", "diag_l2_StopCommunications", "diag_l2_timer", "diag_l2_send", "diag_l2_request", "diag_l2_recv", "diag_l2_addmsg"]
FS64 = ["--max-field-sensitivity-array-size", "64"]
L2OPS = "oOfncspuemgtTxXqQrRwiID"
def lc(pre, any_=True):
    seq = "".join(pre + o + d + "t0t1c0c1" for o in L2OPS for d in "01") if any_ else pre
    return B("l2_" + ("any_" if any_ else "seq_") + (pre or "x"), LC, "h_seq", ['PREFIX="%s"' % seq], LCF, "operations %s on two devices%s, then closing down" % (pre or "-", ", then each of the other operations on either" if any_ else ""), unwind=len(seq) + 8, flags=FS64)
LCP = ["", "o0", "o1", "O0", "o0o1", "o1o0", "o0s0", "o1s1", "o0p0", "o0g0", "o0o1s0", "o0o1s1", "o0o1s0s1", "o0o1s1s0", "o1o0s1s0", "o0o1p0s1", "o0o1s0p1", "o0o1g1s0", "n0", "f0", "o0s0t0", "o0s0T0", "o0e0", "o0m0", "o0u0", "o0o1s0s1t0", "o0o1s0s1t1", "o0c0", "o0o1c0", "o0o1c1", "o0s0x0", "o0s0q0", "o0s0r0", "o0s0i0", "o0o1s0s1x0", "o0o1s0s1r1"]
P("C14", "L2 core", [Unit("l2_ioctl", LC, "h_ioctl", backends=S, unwind=5, functions=["diag_l2_ioctl"])] + [lc(p) for p in LCP] + [lc(p, False) for p in ("o0o1s0s1i0i0x0i0", "o0o1s0s1i0q1i0t1i0")])
VG = "vag.c"
def vg(entry, fn, e, fr=False, defs=(), name=None, **kw):
    d = ['EVENTS="%s"' % e] + (["L1FLAGS=DIAG_L1_DOESL2FRAME"] if fr else []) + list(defs)
    return B("vag_%s_%s%s" % (entry[2:], name or e or "x", "_fr" if fr else ""), VG, entry, d, [fn, "diag_l2_vag_block_recv", "diag_l2_vag_int_recv"],
      "ECU behaviour %s (D data block, A ack, N/U/Z no-ack retry/other/empty, b/s bad end/counter, l lost end, r restart, h/g/i broken off, 1/2 impossible length, p partial, t/T time-out, E/H error, m no memory)" % (e or "-"), unwind=max(20, kw.pop("unwind", 20)), flags=FS, **kw)
def vs(n, e, name, defs=(), fr=False):
    return vg("h_send", "dl2p_vag_send", e, fr, ["LEN=%d" % n] + list(defs), name=name, unwind=max(n + 6, len(e) + 6, 260 if n > 20 else 10))
P("C10", "VAG", [vs(n, "c" * (n + 3), "len%d" % n) for n in (0, 1, 2, 3, 8)] + [vs(252, "c" * 255, "len252"), vs(253, "", "len253"), vs(300 % 256 + 256 - 44, "", "len256") ] + [vs(n, "", "len%d" % n, fr=True) for n in (0, 1, 5, 252)] +
  [vs(1, "Tcccc", "t0"), vs(1, "ccTcccc", "t2"), vs(1, "cccTcccc", "t3"), vs(1, "xcccc", "x0"), vs(1, "cxccxccxcccc", "x3"), vs(1, "cxccxccxccx", "x4"), vs(1, "TTTcccc", "t3ok"), vs(1, "TTTT", "t4"), vs(1, "TxTx", "mix4"), vs(1, "xTxcT", "mix4b"), vs(1, "ccE", "e2"), vs(2, "TccE", "te"),
   vs(1, "cc", "sf3", ["SENDFAIL=3"]), vs(1, "", "sf", ["SENDFAIL=1"], fr=True), vs(1, "", "notmaster", ["NOTMASTER"]), vs(1, "cccc", "ecuid", ["ECUID"]), vs(0, "ccc", "seq0", ["SEQ=0"]), vs(0, "ccc", "seq254", ["SEQ=254"])] +
  [vg("h_recv", "dl2p_vag_recv", e) for e in ("A", "DA", "DDA", "N", "U", "Z", "bA", "sA", "DbA", "DsDA", "tT", "tE", "E", "DtT", "DE", "DtA", "DNA", "DNDA", "DUA", "DZA", "DNNNNN", "DNNNNDA", "lA", "DlA", "rA", "DrA", "Dh", "h", "g", "Dg", "i", "H", "DH", "2", "D2", "m", "Dm")] +
  [vg("h_recv", "dl2p_vag_recv", e, True, ["NSLOTS=16", "MS_BIG"] if len(e) > 8 else []) for e in ("A", "DA", "DDDA", "N", "U", "Z", "T", "E", "DT", "DE", "DNA", "DNNDNNA", "DNNNNN", "DNNNNDNNNNA", "DUA", "DZA", "2", "D2", "p", "Dp", "m", "Dm", "DDm")] +
  [vg("h_recv", "dl2p_vag_recv", "DA", True, ["PN=%d" % n, "SLOTCAP=252"], name="DA%d" % n, unwind=264) for n in (0, 1, 252)] + [vg("h_recv", "dl2p_vag_recv", "DA", False, ["PN=%d" % n, "SLOTCAP=16"], name="DA%d" % n, unwind=40) for n in (0, 1, 9)] +
  [vg("h_recv", "dl2p_vag_recv", "DDA", fr, ["SEQ=%d" % s], name="seq%d" % s) for s in (252, 254, 0) for fr in (False, True)] + [vg("h_recv", "dl2p_vag_recv", "DNA", True, ["SEQ=%d" % s], name="nseq%d" % s) for s in (252, 254, 250)] +
  [vg("h_recv", "dl2p_vag_recv", "DA", True, ["QUEUED"], name="queued"), vg("h_recv", "dl2p_vag_recv", "DD", True, ["SENDFAIL=2"], name="sf2"), vg("h_recv", "dl2p_vag_recv", "D", False, ["SENDFAIL=1"], name="sf1"), vg("h_recv", "dl2p_vag_recv", "D", False, ["SENDFAIL=4"], name="sf4")] +
  [vg("h_request", "dl2p_vag_request", e, True) for e in ("A", "DA", "DDA", "NA", "NDA", "NNNNDA", "NNNNN", "U", "Z", "NU", "NZ", "T", "NT", "E", "NE", "DE", "p", "Dm", "m", "Nm")] + [vg("h_request", "dl2p_vag_request", "NA", True, ["SEQ=%d" % s], name="nseq%d" % s) for s in (252, 254)] + [vg("h_request", "dl2p_vag_request", "", True, ["SENDFAIL=1"], name="sf1"), vg("h_request", "dl2p_vag_request", "N", True, ["SENDFAIL=2"], name="sf2"), vg("h_request", "dl2p_vag_request", "bDA")] +
  [vg("h_ecuid", "dl2p_vag_recv", ""), vg("h_timeout", "dl2p_vag_timeout", "A", True), vg("h_timeout", "dl2p_vag_timeout", "DA", True, ["ECUID"]), vg("h_timeout", "dl2p_vag_timeout", "T", True, ["ECUID"]), vg("h_timeout", "dl2p_vag_timeout", "", True, ["ECUID", "SENDFAIL=1"], name="sf")] +
  [vg("h_start", "dl2p_vag_startcomms", e, fr, ["SEQ=0"]) for e in ("DA", "DDA", "T", "E", "m") for fr in (False, True)] + [vg("h_start", "dl2p_vag_startcomms", "" if i else "DA", True, ["SEQ=0", "FAILAT=%d" % i], name="f%d" % i) for i in range(1, 7)] + [vg("h_start", "dl2p_vag_startcomms", "DA", False, ["SEQ=0", "L1FLAGS=DIAG_L1_DOESSLOWINIT"], name="l1slow")])

# ---- C15 L3 core, ISO 14230 and VAG texts
L3F = ["diag_l3_start", "diag_l3_stop", "diag_l3_timer", "diag_l3_send", "diag_l3_recv", "diag_l3_request", "diag_l3_ioctl", "diag_l3_decode", "diag_l3_base_request"]
L3OPS = "spSuemtTzxXrRWqQdcbiID"
def l3c(pre):
    seq = "".join(pre + o + d + "t0t1" for o in L3OPS for d in "01")
    return B("l3_any_" + (pre or "x"), "l3core.c", "h_seq", ['PREFIX="%s"' % seq], L3F, "operations %s on two connections, then each of the other operations on either, then stopping" % (pre or "-"), unwind=len(seq) + 30, flags=FS64)
L3S = [l3c(p) for p in ("", "s0", "s1", "p0", "s0s1", "s1s0", "s0p1", "p0s1", "s0s1t0", "s0s1t1", "s0i0", "s0x0", "s0s1x0", "s0s1r1", "s0q0i0", "s0e1", "s0m1", "s0t0s0")]
KWF = ["diag_l3_iso14230_decode_response", "l3_iso14230_sidlookup", "l3_iso14230_neglookup"]
def kw(entry, lo, hi, defs=(), n=""):
    return B("l3kw_%s%s_%02x" % (entry[2:], n, lo), "l3kw.c", entry, ["LO=%d" % lo, "HI=%d" % hi] + list(defs), KWF, "codes 0x%02x to 0x%02x, exhaustive over these" % (lo, hi), unwind=260, flags=FS)
KW = [kw("h_negs", a, a + 8 if a + 9 < 256 else 255) for a in (0x0f, 0x18, 0x21, 0x2a, 0x33)] + [kw("h_negs", 0x3c, 0x41), kw("h_negs", 0x7e, 0x84)] + \
  [kw("h_negs", a, b, ["REASONS"], "r") for a, b in ((0, 1), (0x0f, 0x13), (0x20, 0x24), (0x30, 0x38), (0x3f, 0x44), (0x4f, 0x54), (0x70, 0x76), (0x77, 0x81), (0xfe, 0xff))] + \
  [kw("h_pos", a, a + 31, ["LEN=2"], "2") for a in range(0, 256, 32)] + [kw("h_pos", a, a + 31, ["LEN=1"], "1") for a in (0x40, 0x60, 0xc0)] + [kw("h_pos", 0, 1, ["LEN=0"], "0"), kw("h_pos", 0x7f, 0x7f, ["LEN=2"], "nr2"), kw("h_pos", 0x58, 0x62, ["LEN=3", "BS=24"], "cut"), kw("h_negs", 0x1a, 0x1c, ["BS=50"], "cut")] + \
  [B("l3kw_any%d" % n, "l3kw.c", "h_any", ["LEN=%d" % n, "BS=40"], KWF, "responses of %d bytes, arbitrary contents, 40 byte buffer" % n, unwind=110, flags=FS) for n in (0, 1, 2, 3)] + \
  [B("l3vag_text_%d_%x" % (n, t), "l3kw.c", "h_vdec", ["VAGL3", "LEN=%d" % n, "TYPE=0x%x" % t, 'WANT="Command: %s: Data : %s\\n"' % (x, "".join(["0x7 ", "0xAB ", "0x30 "][:n])), "BS=%d" % b], ["diag_l3_vag_decode"], "block title 0x%x, %d bytes" % (t, n), unwind=130, flags=FS)
   for n, t, x, b in ((0, 0x05, "Clear DTCs", 60), (3, 0x06, "End Comms", 60), (1, 0x07, "Request DTCs", 60), (2, 0x08, "Read Data (single)", 60), (3, 0xF6, "ASCII Data", 60), (3, 0xFC, "Hex Data", 60), (1, 0x42, "0x42", 60))]
P("C15", "L3 core", [Unit("smartcat", "smartcat.c", "h_smartcat", backends=S, unwind=14, functions=["smartcat"]), Unit("l3kw_recv", "l3kw.c", "h_recv", backends=S, unwind=60, functions=["diag_l3_iso14230_recv", "diag_l3_14230_rxcallback"]),
  Unit("l3kw_send", "l3kw.c", "h_send", backends=S, unwind=10, functions=["diag_l3_iso14230_send"]), Unit("l3vag_start", "l3kw.c", "h_vstart", defs=["VAGL3"], backends=S, unwind=10, functions=["diag_l3_vag_start"])] + L3S + KW)
# ---- C16 SAE J1979 layer
JF="j1979.c"
def jr(ev, want, defs=(), name=None):
    return B("j1979_rx%s_%s" % ("f" if "FRAMED" in defs else "", name or (ev + "_" + want)), JF, "h_recv", ['EVENTS="%s"' % ev, 'WANT="%s"' % want] + list(defs), ["diag_l3_j1979_recv", "diag_l3_j1979_process_data", "diag_l3_rcv_callback"], "reads %s (T time-out, E error, else data), receives %s" % (ev, want), unwind=20, flags=FS)
JR=[jr(*x) for x in [("TaT","at"),("Ta","a"),("a","a"),("g","ab"),("gT","ab"),("hT","bt"),("hTi","ba"),("hi","ba"),("ab","ab"),("cc","cc"),("de","a"),("TdeT","at"),("TdTe","ta"),("TdT","t"),("TT","t"),("E","e"),("TE","e"),("dE","e"),("dEe","ea"),("TdE","e"),("z","0"),("za","0a"),("ka","b0a"),("TbTb","bb"),("gc","abc"),("cg","cab"),("zz","00")]]
JR+=[jr(*x) for x in [("F","F",["FRAMED"]),("T","t",["FRAMED"]),("E","e",["FRAMED"]),("FTF","FtF",["FRAMED"])]]
def jt(msg, text, bs=256):
    m = bytes.fromhex(msg)
    return B("j1979_text_%s%s" % (msg or "empty", "" if bs == 256 else "_%d" % bs), JF, "h_decode", ["MSG=" + "".join(",0x%02x" % b for b in m), 'TEXT="%s"' % text, "BS=%d" % bs], ["diag_l3_j1979_decode"], "message %s, buffer of %d bytes" % (msg or "empty", bs), unwind=max(bs, 90) + 4, flags=FS)
RS, RQ = "J1979 response ", "J1979 request "
DTC3 = "P0123  C1ABC  B2000  "
JT = [jt(*x) for x in [("", "J1979 empty message"), ("0105", RQ + "Mode 1 PID 0x05"), ("41057b", RS + "Mode 1 Data: PID 0x05 0x7B "), ("410c1af8", RS + "Mode 1 Data: PID 0x0C 0x1A 0xF8 "), ("4105", RS + "Mode 1 Data: PID 0x05 "),
  ("020c00", RQ + "Mode 2 PID 0x0C Frame 0x00"), ("420c011af8", RS + "Mode 2 FreezeFrame Data: PID 0x0C Frame 0x01 0x1A 0xF8 "), ("03", RQ + "Mode 3 (Powertrain DTCs)"), ("07", RQ + "Request Non-Continuous Monitor System Test Results"),
  ("4301235abca000", RS + "DTCs: P0123  C1ABC  B2000  "), ("4301230000d3ff", RS + "DTCs: P0123  U13FF  "), ("43000000000000", RS + "DTCs: "), ("430001", RS + "DTCs: P0001  "), ("430100aa", RS + "DTCs: P0100  "), ("43", RS + "DTCs: "),
  ("47fffe0000c000", RS + "Non-Continuous Monitor System DTCs: U3FFE  U0000  "), ("04", RQ + "Clear DTCs"), ("44", RS + "DTCs cleared"), ("050102", RQ + "Oxygen Sensor Test ID 0x01 Sensor 0x02"), ("45010290", RS + "Oxygen Sensor TID 0x01 Sensor 0x02 0x90 "),
  ("0605", RQ + "Onboard monitoring test request TID 0x05"), ("4605a1001002ff", RS + "Onboard monitoring test result TID 0x05 0xA1 0x00 0x10 0x02 0xFF "), ("08010000000000", RQ + "Request control of onboard system TID 0x01"), ("480100", RS + "Control of onboard system response TID 0x01 0x00 "),
  ("0902", RQ + "Request vehicle information infotype 0x02"), ("490201", RS + "Vehicle information infotype 0x02 0x01 "), ("7f0112", RS + "UnknownType 0x7F: Data Dump: 0x7F 0x01 0x12 "), ("0a", RQ + "UnknownType 0x0A: Data Dump: 0x0A "), ("41", RS + "UnknownType 0x41: Data Dump: 0x41 "), ("4205", RS + "UnknownType 0x42: Data Dump: 0x42 0x05 "), ("01", RQ + "UnknownType 0x01: Data Dump: 0x01 "), ("0501", RQ + "UnknownType 0x05: Data Dump: 0x05 0x01 "), ("49", RS + "UnknownType 0x49: Data Dump: 0x49 ")]]
JT += [jt("410c1af8", RS + "Mode 1 Data: PID 0x0C 0x1A 0xF8 ", n) for n in (40, 16, 1)] + [jt("4301235abca000", RS + "DTCs: P0123  C1ABC  B2000  ", n) for n in (28, 30)]
JA = [B("j1979_any_%02x_%d" % (s, n), JF, "h_decany", ["SID0=0x%02x" % s, "LEN=%d" % n, "BS=40"], ["diag_l3_j1979_decode"], "messages of %d bytes with SID 0x%02x, other bytes arbitrary" % (n, s), unwind=110, flags=FS) for s in (0x41, 0x42, 0x43, 0x45, 0x46, 0x47, 0x48, 0x49, 0x01, 0x02, 0x05) for n in (1, 2, 4) if not (s in (0x43, 0x47) and n > 2)]
JP = [Unit("j1979_len", JF, "h_getlen", backends=S, unwind=5, functions=["diag_l3_j1979_getlen"]), Unit("j1979_rcvcb", JF, "h_rcvcb", defs=["SYMCOPY"], backends=S, unwind=20, functions=["diag_l3_rcv_callback"], objbits=12), Unit("j1979_send", JF, "h_send", backends=S, unwind=5, functions=["diag_l3_j1979_send"])] + \
  [Unit("j1979_%s_%s" % (e, m), JF, "h_" + e, defs=["MODE='%s'" % m], backends=S, unwind=10, functions=["diag_l3_j1979_%s" % e, "diag_l3_j1979_keepalive", "dl3_j1979_stop"]) for e in ("start", "timer") for m in "rT0m" if not (e == "timer" and m == "m")]
P("C16", "J1979", JP + JR + JT + JA)
# ---- C19 DTC texts
P("C19", "DTC texts", [Unit("dtc", "dtc.c", "h_dtc", backends=S, unwind=60, functions=["diag_dtc_decode"])])
# ---- C21 configuration items
CFGF = ["diag_cfg_setstr", "diag_cfg_setopt", "diag_cfg_getstr", "diag_cfg_clear", "diag_cfg_refresh", "diag_cfg_reset", "std_reset", "tty_refresh", "optarray_clear", "diag_cfgn_str", "diag_cfgn_tty", "strlist_add", "strlist_free"]
def cf(pre, ops):
    seq = "".join(pre + o + ("" if o == "C" else "grgC") for o in ops)
    return B("cfg_any_" + pre, "cfg.c", "h_cfg", ['OPS="%s"' % seq], CFGF, "each operation after %s, then showing, resetting and clearing the item" % pre, unwind=16, uws={"diag_errlookup": 60, "h_cfg": len(seq) + 2})
P("C21", "configuration items", [Unit("cfg_num_" + t, "cfg.c", "h_num", defs=["NT=CFGT_" + t], backends=S, unwind=16, unwindset={"diag_errlookup": 60}, flags=FS, functions=["diag_cfgn_int", "diag_cfgn_u8", "diag_cfgn_bool", "diag_cfg_setint", "diag_cfg_setu8", "diag_cfg_setbool", "diag_cfg_setopt", "std_reset"]) for t in ("INT", "U8", "BOOL")] +
  [Unit("cfg_txt_" + t, "cfg.c", "h_u8txt", defs=["NT=CFGT_" + t], backends=S, unwind=24, flags=FS, functions=["diag_cfg_getstr"]) for t in ("U8", "BOOL")] +
  [B("cfg_int_%d" % k, "cfg.c", "h_inttxt", ["TXTV=(%s)" % v, 'TXTS="%d"' % k], ["diag_cfg_getstr"], "the value %d" % k, unwind=16) for k, v in ((0, "0"), (7, "7"), (-1, "-1"), (38400, "38400"), (12345678, "12345678"), (-2147483648, "-2147483647-1"), (2147483647, "2147483647"))] +
  [cf(p, "123xArwRgy0-WC") for p in ("N", "N1", "N2", "N3", "NA")] + [cf(p, "123xrwRQPFG09-+zgyWC") for p in ("T", "TQ", "TP", "TP9", "TQ0", "TPR", "TPQr", "TP1", "TPG", "TQF", "TP9R")] +
  [B("cfg_new", "cfg.c", "h_cfg", ['OPS="nmtuNCTC"'], CFGF, "new items, with and without memory", unwind=16, uws={"diag_errlookup": 60, "h_cfg": 20})])
# ---- C24 serial ports
TF = "tty.c"
def tt(n, e, defs, fns, what): return B("tty_" + n, TF, e, defs, fns, what, unwind=45, flags=FS)
def tev(e, fn, evs): return [tt("%s_%s%s" % (e[2:], ev, "_%d" % c if c != 4 else ""), e, ['EV="%s"' % ev, "CNT=%d" % c], fn, "events %s, %d bytes" % (ev, c)) for ev, c in evs]
TW = ["diag_tty_write"]; TR = ["diag_tty_read"]; TS = ["diag_tty_setup", "_tty_setspeed"]; TO = ["diag_tty_open", "diag_tty_close"] + TS; TFB = ["diag_tty_fastbreak"] + TS + TW + TR
def tp(n, da, db, ports, miss=0, nomem=0):
    q = lambda l: "".join('"%s",' % x for x in l)
    return tt("ports_" + n, "h_ports", ["DA=" + q(da), "DBL=" + q(db), "PORTS=" + q(ports), "MISS=%d" % miss, "NOMEM=%d" % nomem], ["diag_tty_getportlist", "test_ttyness"], "directories " + n)
P("C24", "serial ports", [Unit("tty_control%d" % f, TF, "h_control", defs=["FAILAT=%d" % f], backends=S, unwind=45, flags=FS, objbits=12, functions=["diag_tty_control"]) for f in (0, 1, 2)] +
  [tt("open_%d" % f, "h_open", ["FAILAT=%d" % f], TO, "the %d. call to the system fails" % f if f else "no failure") for f in range(0, 11)] +
  [tt("open_notioc", "h_open", ["TIOCS=0"], TO, "no TIOCGSERIAL"), tt("open_s0", "h_open", ["SPEED=38400"], TO, "38400 bit/s")] +
  [tt("setup_%d_%d%s" % (s, f, "" if t else "_n"), "h_setup", ["SPEED=%d" % s, "FAILAT=%d" % f, "TIOCS=%d" % t], TS, "%d bit/s, every format" % s + (", call %d fails" % f if f else "")) for s, f, t in ((5, 0, 1), (50, 0, 1), (360, 0, 1), (9600, 0, 1), (10400, 0, 1), (10400, 0, 0), (115200, 0, 1), (10400, 1, 1), (10400, 2, 1), (10400, 3, 0), (10400, 4, 1), (10400, 5, 0))] +
  tev("h_write", TW, [(e, 4) for e in ("4", "9", "112", "1111", "22", "31", "13", "i4", "3i1", "2e", "e", "1T", "T", "ii4", "1i1i2", "ie", "1ie")] + [("1", 1), ("i1", 1), ("8", 8), ("53", 8), ("2222", 8)]) +
  tev("h_read", TR, [(e, 4) for e in ("T", "r4", "r9", "r1r1r1r1", "r2r2", "r1T", "r3T", "iT", "r2ir2", "ri", "riT", "r1re", "rir4", "r1rir3", "E", "r1E", "re", "r0", "r1r0", "ir1ir1iT", "r1r2r1", "rire")] + [("r1", 1), ("T", 1), ("ir1", 1), ("r5r3", 8)]) +
  [tt("read_long_%s" % ev, "h_read", ['EV="%s"' % ev, "TMO=%d" % t], TR, "events %s, time-out %d ms" % (ev, t)) for ev, t in (("r1T", 1), ("T", 2500), ("ir4", 2500), ("r1T", 999))] +
  [tt("break_%d" % f, "h_break", ["FAILAT=%d" % f], ["diag_tty_break"], "every length up to 10 s" + (", call %d fails" % f if f else "")) for f in (0, 1, 2, 3)] +
  [tt("fastbreak_%d_%s" % (c, ev), "h_fastbreak", ['EV="%s"' % ev, "CNT=%d" % c], TFB, "%d ms, events %s" % (c, ev)) for c, ev in ((0, ""), (24, ""), (25, "1r1"), (50, "1r1"), (50, "1ir1"), (50, "1T"), (50, "1re"), (25, "i1rir1"))] +
  [tt("flush_" + ev, "h_flush", ['EV="%s"' % ev], ["diag_tty_iflush"] + TR, "events %s" % ev) for ev in ("T", "r3T", "r3r5T", "ir2T")] +
  [tp("none", [], [], []), tp("miss", [], [], [], 3), tp("std", [".", "..", "null", "ttyS0", "tty", "ttyUSB0", "ttyS9"], ["ttyX1", "hid0"], ["/dev/ttyS0", "/dev/ttyUSB0"]), tp("other", ["cuaa0", "cu", "ttyd1", "ttyACM0", "tty8"], [], ["/dev/ttyACM0"], 2),
   tp("nomem", ["ttyS0", "ttyS1"], [], ["x"], 0, 1), tp("usb", ["ttyS8"], ["ttyUSB1", "ttyUSB8"], ["/dev/usb/ttyUSB1"], 1), tp("usbs", ["ttyS1"], ["ttyUSB1"], ["/dev/ttyS1", "/dev/usb/ttyUSB1"])])
# ---- C22 command lines
def cli_spec(lines, f1=(), f2=(), init=None, log=True):
    """what a session must do: the expected trace of units/cli.c"""
    T = []; files = {"f1": f1, "f2": f2}
    sub2 = ["ok", "up", "exit", "quit"]; sub1 = ["ok2", "cust", "deep", "ok3", "up", "exit", "quit"]
    root = ["ok", "use", "fail", "sub", "source", "help", "dp", "up", "exit", "quit"]; menus = {"sub": sub1, "deep": sub2, "dp": sub2}
    usage = {"ok": ("OU", "OH"), "use": ("UU", "UH"), "fail": ("FU", "FH"), "sub": ("SU", "SH"), "source": ("u", "h"), "help": ("HU", "HH"), "dp": ("DU", "DH"), "up": ("up", "Return to previous menu level"), "exit": ("exit", "Exits program"), "quit": ("quit", "Exits program")}
    hidden = ("fail", "help", "dp", "quit", "cust")
    def getline(src, prompt):
        if src["in"]: T.append(prompt)
        while src["l"]:
            l = src["l"].pop(0)
            if l[0] != "!": return re.split("[\r\n]", l)[0]
    def call(n, a): T.append("%s(%s)" % (n, ",".join(a)))
    def cfile(n):
        T.append("{")
        if n not in files: return "FAILED"
        T.append("running commands from file %s...\n" % n)
        rv = menu(root, "", {"in": False, "l": list(files[n])}, [])
        T.append("}")
        return "EXIT" if rv == "EXIT" else "OK"
    def run(c, w):
        if c in ("ok", "ok2", "ok3"): call(w[0], w[1:]); return "OK"
        if c == "cust": T.append("*"); call(w[0], w[1:]); return "OK"
        if c == "fail": call("fail", w[1:]); return "FAILED"
        if c == "use": call("use", w[1:]); return "USAGE"
        if c == "up": return "UP"
        if c in ("exit", "quit"): return "EXIT"
        if c == "help":
            if len(w) > 1:
                m = [x for x in root if x.lower() == w[1].lower()]
                T.append("%s: %s\nUsage: %s\n" % (m[0], usage[m[0]][1], usage[m[0]][0]) if m else "help: %s: no such command\n" % w[1])
            else: T.append("Available commands are :\n" + "".join("\t%s\n" % usage[x][0] for x in root if x not in hidden) + '\nTry "help <command>" for further help\n')
            return "OK"
        if len(w) < 2: T.append("No filename\n"); return "USAGE"
        rv = cfile(w[1])
        if rv == "FAILED": T.append("Couldn't read %s\n" % w[1])
        return rv
    def menu(tbl, prompt, src, args):
        rv = "FAILED"
        while True:
            if args: w = args
            else:
                l = getline(src, prompt + "> ")
                if l is None: break
                if l[:1] == "@": T.append(l + "\n"); continue
                if l[:1] == "#": continue
                w = l.replace("\t", " ").split()
                if not w: continue
            m = [x for x in tbl if x.lower() == w[0].lower()] or [x for x in tbl if x == "cust"]
            if not m:
                T.append('Unrecognized command. Try "help"\n')
                if args or not src["in"]: break
                continue
            c, done = m[0], False
            if c in menus:
                if log: T.append("<%s>" % w[0])
                rv = menu(menus[c], prompt + "/" + c, src, w[1:]); done = rv == "EXIT"
            else:
                if log: T.append("<%s>" % " ".join(w))
                rv = run(c, w)
                if rv == "USAGE": T.append("Usage: %s\n%s\n" % usage.get(c, ("u", "h")))
                done = rv == "EXIT" or rv == "UP" and tbl is not root
            if args or done: break
        return "OK" if rv == "UP" else rv
    if init:
        rv = cfile(init)
        if rv == "FAILED": T.append("Problem with file %s\n" % init)
    if not init or rv == "OK":
        T.append("\n"); menu(root, "P", {"in": True, "l": list(lines)}, [])
    if log: T.append("[end]")
    return "".join(T)
def cl(n, lines, f1=(), f2=(), init=None, log=1, unwind=130, rl=True):
    q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    ls = lambda l: "".join(q(x) + "," for x in l)
    t = cli_spec(lines, f1, f2, init, log)
    return B("cli_" + n, "cli.c", "h_cli", (["RL"] if rl else []) + ["LINES=" + ls(lines), "F1=" + ls(f1), "F2=" + ls(f2), "WANT=" + q(t), "INIT=" + (q(init) if init else "NULL"), "LOGCB=%d" % log], ["cli_enter", "do_cli", "find_cmd", "cli_basic_get_input", "command_file", "cmd_source", "cli_help_basic", "cmd_up", "cmd_exit"],
      "session %s" % " | ".join(x.strip() for x in lines + list(f1) + list(f2))[:120], unwind=unwind, uws={"ts": len(t) + 50, "tx_eq": len(t) + 50, "do_cli": max([30] + [len(x) for x in list(lines) + list(f1) + list(f2)]) + 4}, flags=["--max-field-sensitivity-array-size", "1500"])
def cm(n, line, want, files=0):
    return B("cli_compl_" + n, "cli.c", "h_complete", ["RL", 'LINE="%s"' % line, "START=%d" % (max(line.rfind(" "), -1) + 1), 'WANT="%s"' % want, "FILES=%d" % files], ["scantool_completion", "command_generator", "readline_init"], "completing '%s'" % line, unwind=130, flags=["--max-field-sensitivity-array-size", "1500"])
CL = [cl("n_args", ["ok\n", "ok a  b\n", "\tOK\t x y\t\r\n"], rl=False), cl("n_blank", ["\n", "   \n", "# ok\n", "@ hello\n", "ok\n", "!", "ok 2\n", "! ", "!"], rl=False), cl("n_sub", ["sub\n", "ok2 1\n", "nix\n", "up\n", "ok 2\n", "sub deep ok c\n"], rl=False), cl("n_cr", ["ok a\r\n", "ok b\r", "ok c\rok d\n"], rl=False),
  cm("all", "", "ok use sub source up exit "), cm("s", "s", "sub source "), cm("none", "x", ""), cm("full", "sub", "sub "), cm("case", "S", ""), cm("hidden", "f", ""), cm("sub", "sub ", "ok2 deep ok3 up exit "), cm("subo", "sub ok", "ok2 ok3 "), cm("deep", " sub  deep o", "ok "), cm("arg", "ok a", ""), cm("unknown", "nix o", ""), cm("part", "su o", ""), cm("file", "source a", "", 1), cm("hiddenmenu", "dp o", "")] + [cl("empty", []), cl("args", ["ok\n", "ok a  b\n", "\tOK\t x y\t\r\n", "  Ok 1\n", "ok a b c d e f g h i j"]), cl("blank", ["\n", "   \n", "\t\n", "# ok\n", "@ hello ok\n", "#\n", "ok\n", "!", "ok 2\n", "! ", "!"]), cl("unknown", ["oki\n", "o k\n", "ok 1\n", "fail x\n", "use 1 2\n", "ok 2\n"]),
  cl("exit", ["ok\n", "exit\n", "ok no\n"]), cl("quit", ["QUIT now\n", "ok no\n"]), cl("up_root", ["up\n", "ok 1\n", "up\n", "exit\n", "ok\n"]),
  cl("sub", ["sub\n", "ok2 1\n", "ok3\n", "up\n", "ok 2\n", "sub\n", "exit\n", "ok no\n"]), cl("sub_eof", ["sub\n", "deep\n", "ok 1\n"]), cl("deep", ["sub\n", "deep\n", "ok 1\n", "up\n", "ok2 2\n", "deep ok 3\n", "up\n", "ok 4\n"]), cl("deep_exit", ["sub\n", "deep\n", "exit\n", "ok no\n"]),
  cl("oneshot", ["sub ok2 a b\n", "ok 1\n", "sub deep ok c\n", "ok 2\n", "sub up\n", "ok 3\n", "dp ok 4\n", "dp nix\n", "ok 5\n"]), cl("oneshot_exit", ["sub deep exit\n", "ok no\n"]), cl("oneshot_menu", ["sub deep\n", "ok 1\n", "up\n", "ok 2\n"]),
  cl("cust", ["sub nix a\n", "sub\n", "nix b\n", "CUST c\n", "ok2\n", "up\n", "nix\n"]), cl("source", ["source f1\n", "ok 3\n"], ["ok 1\n", "# c\n", "sub ok2\n", "@m\n", "ok 2"]), cl("source_stop", ["source f1\n", "ok 3\n"], ["ok 1\n", "nix\n", "ok no\n"]), cl("source_exit", ["source f1\n", "ok no\n"], ["ok 1\n", "exit\n", "ok no\n"]),
  cl("source_none", ["source f9\n", "source\n", "ok 1\n"]), cl("source_up", ["source f1\n", "ok 3\n"], ["up\n", "sub\n", "ok2\n", "up\n", "ok 2\n"]), cl("source_sub", ["source f1\n", "ok 3\n"], ["sub\n", "ok2 1\n"]), cl("source_nest", ["source f1\n", "ok 3\n"], ["source f2\n", "ok 2\n"], ["ok 1\n"]), cl("source_nest_exit", ["source f1\n", "ok no\n"], ["source f2\n", "ok no\n"], ["sub exit\n", "ok no\n"]),
  cl("source_fail", ["source f1\n", "ok 3\n"], ["source f9\n", "fail\n", "use\n", "ok 2\n"]), cl("init", ["ok 2\n"], ["ok 1\n"], init="f1"), cl("init_exit", ["ok no\n"], ["exit\n"], init="f1"), cl("init_none", ["ok no\n"], init="f9"), cl("init_bad", ["ok 2\n"], ["nix\n", "ok no\n"], init="f1"), cl("init_empty", ["ok 2\n"], [], init="f1"),
  cl("help", ["help\n"], log=0), cl("help_cmd", ["help OK\n", "help fail\n", "help nix\n"]), cl("nocb", ["ok\n", "sub ok2\n", "exit\n"], log=0), cl("cr", ["ok a\r\n", "ok b\r", "ok c\rok d\n"])]
def ht(pre, hl, vt="unsigned"): return B("htoi_%s_%d" % (pre.replace("-", "m").replace("$", "h") or "any", hl), "scli.c", "h_htoi", ['PRE="%s"' % pre, "HL=%d" % hl, "VTYPE=" + vt], ["htoi"], "every text of up to %d characters beginning with '%s'" % (hl, pre), unwind=hl + 4, flags=FS)
HT = [ht("", 3), ht("0x", 10), ht("0X", 6), ht("-0x", 11), ht("$", 9), ht("-$", 10), ht("0", 11), ht("-0", 12), ht("1", 7), ht("-2", 8), ht("1234", 10), ht("-1999", 11), ht("0000", 10), ht("2147483", 10, "uint64_t"), ht("-2147483", 11, "uint64_t"), ht("4294967", 10, "uint64_t")] + [ht("%s%d" % (g, d), 6 + len(g)) for g in ("", "-") for d in range(1, 10)]
def sc(n, e, defs=(), fn=(), what="", **kw): return B("scli_" + n, "scli.c", e, list(defs), list(fn), what, unwind=110, flags=["--max-field-sensitivity-array-size", "1500"], **kw)
SL = [sc("log%d" % k, "h_log", ["EXIST=%d" % k], ["cmd_log", "cmd_stoplog", "log_command", "log_timestamp"], "%d automatic logs exist" % k) for k in (0, 1, 12, 99, 100)] + [sc("log_noopen", "h_log", ["NOOPEN=1"], ["cmd_log"], "the log can't be opened"), sc("start", "h_start", [], ["scantool_cli", "scantool_atexit"], "two extra commands"), sc("start_nomem", "h_start", ["NOMEM"], ["scantool_cli"], "no memory"), sc("rc0", "h_rc", [], ["find_rcfile"], "no script"), sc("rc1", "h_rc", ["EXIST=1"], ["find_rcfile"], "a script"),
  sc("wait", "h_wait", ['KEYS="ab\\n"'], ["wait_enter"], "keys a b Enter"), sc("wait_eof", "h_wait", ['KEYS="a"'], ["wait_enter"], "key a, end of input")]
P("C22", "command lines", [B("cli_find%d%s" % (n_, "_custom" if c else ""), "cli.c", "h_find", ["WL=%d" % n_] + (["CUST"] if c else []), ["find_cmd"], "a table of 5 or 6 commands, every word of up to %d bytes" % n_, unwind=12) for n_ in (0, 5) for c in (0, 1)] + CL + HT + SL)
# ---- C27 what a scan reports
SF = "scan.c"
def sc(n, e, defs, fns, what, fsa=64, kind=None, **kw):
    return B("scan_" + n, SF, e, defs, fns, what, unwind=300, uws={"diag_l3_send": 9, "scantool_main": 1}, flags=["--max-field-sensitivity-array-size", str(fsa)], **kw)
def ev(s): return 'EV="%s"' % s
RC = ["j1979_data_rcv"]; RQF = ["l3_do_j1979_rqst", "store_response"] + RC
def srcv(n, s, kind="NORMAL", mode=1, pid=5, extra=()): return sc("rcv_%s_%s" % (kind, n), "h_rcv", ["WORDS", ev(s), "KIND=" + kind, "KMODE=%d" % mode, "KPID=%d" % pid] + list(extra), RC, "messages %s" % s)
def srq(n, s, mode=1, ok=1, sends=1, timers=0, extra=()): return sc("rqst%d_%s" % (mode, n), "h_rqst", [ev(s), "MODE=%d" % mode, "WANT_OK=%d" % ok, "WANT_SENDS=%d" % sends, "WANT_TIMERS=%d" % timers] + list(extra), RQF, "service %d, answers %s" % (mode, s))
J9M = [(1, 2), (2, 3), (5, 3), (6, 3), (8, 2), (9, 3)]
SCAN = [Unit("scan_pidbits", SF, "h_pid", backends=S, unwind=20, functions=["l2_check_pid_bits"]), Unit("scan_find", SF, "h_find", backends=S, unwind=20, functions=["find_ecu_msg"], flags=["--max-field-sensitivity-array-size", "64"])] + \
  [srcv(n, s) for n, s in (("one", "aG4;"), ("two", "aG4bG7;bG7aG3;aG6;cG1bG2;"), ("chain", "aG7bG7aG6bG0aG2;bG1;"), ("many", "aG1bG1cG1dG1eG1fG1gG1hG1iG1aG2;iG1bG1;"), ("order", "cG2aG2bG2;aG2bG2cG2;"), ("long", "aGfbGf;"))] + \
  [srcv("null", "aG4bG2;bN3;", extra=["KNULL=1"]), srcv("r", "aG6bG6;", "READINESS")] + \
  [srcv(n, s, k, 6, 0x21, ["NCMSCOV"] if n == "one" else []) for k in ("NCMS", "NCMS2") for n, s in (("one", "aG7;"), ("two", "aG7bG7;"), ("chain", "aG7aG7bG7;"), ("short", "aG6bG7cG2dG0;"), ("neg", "aN3bG7;bO7;"))] + \
  [srcv("none", "aG7bG7;", "NCMS", 6, 0x20), srcv("notest", "aG7bG7;", "O2S", 5, 0x20)] + \
  [srcv("%s%x" % (n, t), s, "O2S", 5, t) for n, s in (("one", "aG7;"), ("two", "aG7bG7;")) for t in (1, 4, 5, 6, 7, 8, 9, 10)] + [srcv("neg", "aN3bG7cG4;", "O2S", 5, 7)] + \
  [sc("ncms_exact", "h_rcv", ["WORDS", ev("aG7;"), "KIND=NCMS", "KMODE=6", "KPID=0x21", "EXACT"], RC, "every test result")] + \
  [sc("rcv_oom%d" % k, "h_rcvoom", [ev("aG2bG7;bG7aG3cG1;"), "FAILAT=%d" % k], RC, "no memory for message %d" % k) for k in (1, 2, 3, 4, 5)] + \
  [srq("ok_e%d" % e, "aG6bG4;", m, extra=["KE=%d" % e]) for m in (1, 2) for e in (0, 1)] + [srq("ok", "aG6bG4;", m) for m in (3, 4, 5, 6, 7, 8, 9)] + [srq("bad", "aG6;", m, 0) for m in (0, 10, 255)] + \
  [srq(n, s, m, extra=x) for m in (1, 2) for n, s, x in (("long", "aGf;", []), ("len7", "aG7bG8;", ["KE=1"]), ("short", "aG1bG0;", []), ("none", "aG0bG6;", ["KE=1"]), ("otherpid", "aP6bG6;", []), ("otherpid2", "bG6aP6;", ["KE=1"]), ("neg", "aN3bG6;", []), ("neg1", "aN3bG6;", ["KE=1"]), ("oth", "aO6;", []), ("chain", "aG6aG4;", []), ("chain2", "aN3aG4;", []), ("other", "aG6bG6;", ["KP=0x0b"]), ("ecu2", "aG6bG6;", ["KE=2"]), ("mode", "aG6;", ["M2=%d" % (m == 1)]), ("p0", "aG6;", ["P1=0"]), ("pff", "aG7;", ["P1=255"]), ("handle0", "aG6;", ["KNULL=1"]))] + \
  [srq("kw_" + n, s, 1, extra=["L2P=DIAG_L2_PROT_ISO14230"] + x) for n, s, x in (("ok", "aG6bG6;", ["KE=1"]), ("neg", "aN3bG6;", ["KE=1"]), ("neg2", "aG6bN3;", []))] + \
  [srq("retry", "E;aG6;", m, 1, 2) for m in (1, 2, 6)] + [srq("lost", "E;Et;", m, 0, 2, 1) for m in (1, 2)] + [srq("resync", "E;E;", m, 0, 2, 1) for m in (1, 4)] + [srq("send1", "s;", 1, 0, 1), srq("send2", "E;s;", 1, 0, 2), srq("notimer", "E;E;", 1, 0, 2, 0, ["NOTIMER"]), srq("watch", "aG6;", 1, extra=["KIND=WATCH"]), srq("decode", "aG6;", 1, extra=["KIND=DECODE"]), srq("ready", "aG6;", 1, extra=["KIND=READINESS"])] + \
  [sc("pids%d_%x%s" % (m, k, n), "h_block", ["DIRECT", ev(s), "MODE=%d" % m, "OFF=%d" % o, "KP=%d" % k], ["do_j1979_getmodeinfo", "l2_check_pid_bits"], "service %d, PID 0x%x, masks %s" % (m, k, s)) for m, o in J9M for n, s, ks in (("", "aL%dbL%d;" % (o + 4, o + 4), (0, 1, 2, 8, 9, 0x18, 0x1f, 0x20, 0x21, 0xff) if m in (1, 6) else (0, 9, 0x1f)), ("s", "aL%dbL%dcN%d;" % (o + 3, o + 4, o + 4), (9,))) for k in ks] + \
  [sc("getpids%d" % m, "h_block", [ev("E;E;" * i + "aL%d;" % (o + 4)), "MODE=%d" % m, "OFF=%d" % o, "KP=9"], ["do_j1979_getpids", "do_j1979_getmodeinfo", "l2_check_pid_bits"], "service %d" % m) for i, (m, o) in enumerate(J9M)] + \
  [sc("blocks%d_%s" % (m, n), "h_info", [ev(s), "MODE=%d" % m, "OFF=%d" % o, "WANT_SENDS=%d" % ns, "WANT_BLOCKS=%d" % nb], ["do_j1979_getmodeinfo"], "service %d, masks %s" % (m, s)) for m, o, n, s, ns, nb in
    [(1, 2, "one", "aL6;", 1, 1), (1, 2, "two", "aC6bL6;aC6;bL6aL6;", 3, 3), (1, 2, "all", "aC6;" * 8, 8, 8), (9, 3, "two", "aC7;aL7;", 2, 2), (6, 3, "neg", "aC7;aN3;", 2, 2), (1, 2, "short", "aC6;aG5;", 2, 2), (1, 2, "fail", "aC6;E;E;", 3, 1)]] + \
  [sc("merge_%x_%d" % (k, n), "h_merge", ["KP=%d" % k, "NE=%d" % n], ["do_j1979_getpids"], "%d ECUs, PID 0x%x" % (n, k)) for k, n in ((0, 2), (0x20, 2), (0xff, 2), (5, 1), (5, 0), (5, 8))] + \
  [sc("status_" + n, "h_status", ["WORDS", ev(s)], ["do_j1979_getdtcs"], "answers %s" % s) for n, s in (("one", "aG6;"), ("two", "aG6bG6;"), ("three", "aG6bG7cG6;"), ("neg", "aN3bG6;"), ("short", "aG5bG6;"), ("oth", "aP6;"), ("none", "aN3;"))] + \
  [sc("dtcs_" + n, "h_dtcs", [ev(s), "WANT_DTCS=%d" % w], ["do_j1979_getdtcs", "print_dtcs"], "answers %s" % s) for n, s, w in (("one", "aD6;aG7;", 1), ("all", "aD6;aT7;", 1), ("part", "aD6;aU7;", 1), ("two", "aD6;aT7bU5;", 1), ("chain", "aD6bD6;aT7bT3aT5;", 1), ("neg", "aD6bD6;aU7bN3;", 1), ("mix", "aD6;aT5aN5;", 1), ("short", "aD6;aT1bT2cT4;", 1))] + \
  [sc("dtcs_unsup", "h_dtcs", [ev("aD6;"), "SUPP=0"], ["do_j1979_getdtcs"], "PID 1 not supported")] + \
  [sc("cms_" + n, "h_cms", [ev(s), "WANT_OK=%d" % ok], ["do_j1979_cms", "print_dtcs"], "answers %s" % s) for n, s, ok in (("one", "aG7;", 1), ("two", "aT7bU5aT7;", 1), ("neg", "aN3bT7;", 1), ("neg7", "aN7bN5;", 1), ("odd", "aT6bG0cG1;", 1), ("none", "E;E;", 0), ("long", "aTf;", 1))] + \
  [sc("o2_" + n, "h_o2", ["WORDS", ev(s), "WANT_OK=%d" % ok], ["do_j1979_getO2sensors"], "answers %s" % s) for n, s, ok in (("one", "aG3;", 1), ("two", "aG3bG6cN3;", 1), ("short", "aG2bG3;", 1), ("none", "E;E;", 0))] + \
  [sc("clear_%s%s" % (n, "_kw" if kw else ""), "h_clear", [ev(s), "WANT_OK=%d" % ok] + (["L2P=DIAG_L2_PROT_ISO14230"] if kw else []), ["diag_cleardtc"], "answers %s" % s) for kw in (0, 1) for n, s, ok in (("one", "aG1;", 1), ("neg", "aN3;", 1), ("negok", "aN3bG1;", 1), ("oth", "aO3;", 1), ("empty", "aG0;", 1), ("none", "E;E;", 0), ("retry", "E;aG1;", 1), ("send", "s;", 0))] + \
  [sc("tests%s_%d" % (n, pa), "h_reqs", [ev("aG7;" * len(ps)), "MODE=%d" % m, "PIDN=%d" % pa, "PIDS=" + "".join("%d," % x for x in ps)], fn, "supported 0x" + " ".join("%x" % x for x in ps)) for n, m, pa, ps, fn in
    (("6", 6, 0, (0, 1, 5, 0x20, 0x21, 0x3b, 0x3c), ["do_j1979_ncms"]), ("6n", 6, 0, (1, 5), ["do_j1979_ncms"]) if 0 else ("6b", 6, 0, (0, 0x1f, 0x2f), ["do_j1979_ncms"]), ("5", 5, 3, (0, 1, 5, 0x1f, 0x20), ["do_j1979_getO2tests"]), ("5all", 55, 0x84, (0, 1, 5, 0x21), ["do_j1979_O2tests", "do_j1979_getO2tests"]), ("5one", 55, 1, (0, 2, 9), ["do_j1979_O2tests", "do_j1979_getO2tests"]))] + \
  [sc("data_" + n, "h_reqs", [ev("aG7;" * sum(x >= 3 for x in ps) + s), "MODE=1", "WANT_OK=%d" % ok, "PIDS=" + "".join("%d," % x for x in ps)], ["do_j1979_getdata"], "supported 0x" + " ".join("%x" % x for x in ps)) for n, ps, s, ok in (("freeze", (3, 5, 0x20, 0xff), "aZ5bF5;bG7;bG7;bG7;bG7;", 1), ("none", (3, 5), "aZ5bZ5;", 0), ("low", (0, 1, 2, 3, 4), "aZ5bF5;bG7;bG7;", 1))] + \
  [sc("show_%02x_%d" % (p, f), "h_fmt", ["PIDN=%d" % p, "FROM=%d" % f], ["format_data", "format_o2", "format_fuel", "format_aux", "get_pid"], "PID 0x%02x, chosen values" % p) for p in list(range(3, 0x12)) + list(range(0x14, 0x1c)) + [0x1e] for f in ((2, 3) if p in (3, 5, 0x0c, 0x14) else (2,))]
P("C27", "what a scan reports", SCAN)
KNOWN.append(dict(property="C27", match=r"^scan_ncms_exact .*known: ", what="j1979_data_rcv: 16-bit test values and limits are computed as high*255+low (scantool.c, RQST_HANDLE_NCMS), so that e.g. value 0x0100 with limit 0x00FF passes; the test suite (l3_j1979_j1850_1) expects these numbers"))
