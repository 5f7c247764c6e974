"""Kemper MIDI addresses, written down independently of the code (MIDI parameter documentation of the Profiler)."""
import world, vdev
K = [0, 0x20, 0x33]
PAGE = dict(A=0x32, B=0x33, C=0x34, D=0x35, X=0x38, MOD=0x3a, DLY=0x3c, REV=0x3d, DLYN=0x3c, REVN=0x3d)
CC = dict(A=17, B=18, C=19, D=20, X=22, MOD=24, DLY=27, REV=29, DLYN=26, REVN=28)
SLOT = dict(A=0, B=1, C=2, D=3, X=4, MOD=5, DLY=6, REV=7, DLYN=8, REVN=9)
SLOTS = list(SLOT)


def req(page, addr, fn=0x41):
    return [240] + K + [2, 0x7f, fn, 0, page, addr]

def resp(page, addr, v, fn=1):
    return vdev.sysex(K, [0, 0, fn, 0, page, addr, v // 128, v % 128])

def setb(page, addr):
    return [240] + K + [2, 0x7f, 1, 0, page, addr]

def resp_str(addr, text):
    return vdev.sysex(K, [0, 0, 3, 0, 0, addr] + [ord(c) for c in text] + [0])

def sense():
    return vdev.sysex(K, [0, 0, 0x7e, 0, 0x7f, 3])

def other(x):
    return [vdev.sysex([1, 2, 3], [0, 0, 0x7e, 0, 0x7f, 3]), vdev.sysex(K, [0, 0, 0x7e, 0, 0x40, 3]), vdev.sysex(K, [0, 0, 1, 0, 0x7f, 3]),
            vdev.cc(99, 1), vdev.pc(5), vdev.sysex(K, [0, 0, 0x7e, 1, 0x7f, 0]), world.NoteOn(64), vdev.sysex(K, [0x7f, 0]), world.MIDIUnknownEvent(0xF8)][x % 9]


def rig_id(n):
    return [vdev.cc(32, n // 128), vdev.pc(n % 128)]


class Entry:
    def __init__(self, mk, proto, rq, report, set=-1, string=False, dep=0, group=None):
        self.mk, self.proto, self.rq, self.report, self.string, self.dep, self.group = mk, proto, rq, report, string, dep, group
        self.set = set if isinstance(set, list) else [] if set < 0 else [176, set]        # beginning of the message


def catalogue():
    KM = lambda: world.imp("pyswitch.clients.kemper").KemperMappings
    d = {}
    for i, s in enumerate(("A", "B", "C", "D", "X", "MOD", "DLY", "REV")):
        d[1 + i] = Entry(lambda s=s: KM().EFFECT_STATE(SLOT[s]), i < 6, [req(PAGE[s], 3)], lambda v, s=s: [resp(PAGE[s], 3, v)], CC[s])
        d[11 + i] = Entry(lambda s=s: KM().EFFECT_TYPE(SLOT[s]), i < 6, [req(PAGE[s], 0)], lambda v, s=s: [resp(PAGE[s], 0, v)])
    d[20] = Entry(lambda: KM().RIG_NAME(), True, [req(0, 1, 0x43)], lambda v: [resp_str(1, chr(v))], string=True)
    d[21] = Entry(lambda: KM().RIG_DATE(), False, [req(0, 3, 0x43)], lambda v: [resp_str(3, chr(v))], string=True)
    d[22] = Entry(lambda: KM().TUNER_MODE_STATE(), True, [], lambda v: [resp(0x7f, 0x7e, v)], 31)
    d[23] = Entry(lambda: KM().TUNER_NOTE(), True, [], lambda v: [resp(0x7d, 0x54, v)])
    d[24] = Entry(lambda: KM().TUNER_DEVIANCE(), True, [], lambda v: [resp(0x7c, 0x0f, v)])
    d[25] = Entry(lambda: KM().RIG_ID(), False, [], rig_id)
    return d

CAT = catalogue()


def more():
    """Parameters of the ready-made mappings: page, address, control numbers"""
    M = lambda mod, fn, *a: lambda: getattr(world.imp("pyswitch.clients.kemper.mappings." + mod), fn)(*a)
    d, n = {}, 30
    def add(mk, *a, **k):
        nonlocal n
        d[n] = Entry(mk, *a, **k)
        n += 1
    def nrpn(mk, page, a, **k):
        add(mk, False, [req(page, a)], lambda v: [resp(page, a, v)], k.pop("set", setb(page, a)), **k)
    def text(mk, a):
        add(mk, False, [req(0, a, 0x43)], lambda v: [resp_str(a, chr(v))], string=True, dep=21)
    text(M("rig", "MAPPING_RIG_COMMENT"), 4)
    text(M("amp", "MAPPING_AMP_NAME"), 16)
    text(M("cabinet", "MAPPING_CABINET_NAME"), 32)
    nrpn(M("rig", "MAPPING_RIG_VOLUME"), 4, 1)
    nrpn(M("rig", "MAPPING_RIG_TRANSPOSE"), 4, 4)
    nrpn(M("tempo_bpm", "MAPPING_TEMPO_BPM"), 4, 0)
    nrpn(M("amp", "MAPPING_AMP_STATE"), 10, 2)
    nrpn(M("amp", "MAPPING_AMP_GAIN"), 10, 4)
    nrpn(M("cabinet", "MAPPING_CABINET_STATE"), 12, 2)
    nrpn(M("system", "MAPPING_MAIN_VOLUME"), 127, 0)
    nrpn(M("system", "MAPPING_MONITOR_VOLUME"), 127, 2)
    nrpn(M("system", "MAPPING_LOOPER_VOLUME"), 127, 52)
    nrpn(M("system", "MAPPING_SPACE_INTENSITY"), 127, 36)
    nrpn(M("morph", "MAPPING_MORPH_BUTTON"), 0, 11, set=80, group="morph")
    nrpn(M("morph", "MAPPING_MORPH_PEDAL"), 0, 11, set=11, group="morph")
    for s in SLOTS:
        b = s[:3] if s.endswith("N") else s
        nrpn(M("freeze", "MAPPING_FREEZE", SLOT[s]), 0x7d, dict(A=0x6b, B=0x6c, C=0x6d, D=0x6e, X=0x6f, MOD=0x71, DLY=0x72, REV=0x73)[b], group="fr" + b)
        nrpn(M("effects", "MAPPING_DLY_REV_MIX", SLOT[s]), PAGE[s], 69, group="mix" + b)
        nrpn(M("rotary", "MAPPING_ROTARY_SPEED", SLOT[s]), PAGE[s], 30, group="rot" + b)
    for f, a in dict(TRANSPOSE=1, GATE=6, COMP=11, BOOST=16, WAH=21, CHORUS=26, AIR=36, DBL_TRACKER=41).items():
        nrpn(M("fixed_fx", "MAPPING_FIXED_" + f), 5, a)
    only = lambda mk, b: add(mk, False, [], lambda v: [], b)
    for f, a in dict(REC_PLAY_OVERDUB=88, STOP=89, TRIGGER=90, REVERSE=91, HALF_SPEED=92, CANCEL=93, ERASE=94).items():
        only(M("looper", "MAPPING_LOOPER_" + f), setb(0x7d, a))
    for f, c in dict(WAH=1, PITCH=4, VOLUME=7, DELAY_MIX=68, DELAY_FEEDBACK=69, REVERB_MIX=70, REVERB_TIME=71, VOLUME_OUTPUT=73).items():
        only(M("pedals", f"MAPPING_{f}_PEDAL"), [176, c])
    for i in range(1, 5):
        only(M("effects", "MAPPING_EFFECT_BUTTON", i), [176, 74 + i])
    only(M("tempo", "MAPPING_TAP_TEMPO"), [176, 30])
    add(M("tempo", "MAPPING_TEMPO_DISPLAY"), False, [], lambda v: [vdev.sysex(K, [0, 0, 1, 0, 0x7c, 0, v // 128, v % 128])])
    for i, s in enumerate(("DLYN", "REVN")):
        add(lambda s=s: world.imp("pyswitch.clients.kemper").KemperMappings.EFFECT_STATE(SLOT[s]), False, [req(PAGE[s], 3)], lambda v, s=s: [resp(PAGE[s], 3, v)], CC[s], group="st" + s[:3])
    return d

MORE = more()
ALL = {**CAT, **MORE}
CAT[7].group, CAT[8].group = "stDLY", "stREV"
