"""Catalogue of the Kemper actions which are switches with fixed parameters (Panel specification). The tables in this file
are written down from the MIDI parameter documentation of the Profiler and the documentation of the actions."""
import world, vdev, kemper
from c_panel import Sut, Gen, PanelBase, one, mcp, BRI, DIM, _safe

WHITE, YELLOW, ORANGE, RED, LIGHT_RED, PINK = [255, 255, 255], [255, 255, 0], [255, 125, 0], [255, 0, 0], [255, 100, 100], [255, 125, 70]
PURPLE, LIGHT_GREEN, GREEN, CYAN, BLUE, LIGHT_BLUE, GRAY50 = [180, 0, 120], [100, 255, 100], [0, 255, 0], [0, 255, 255], [0, 0, 255], [100, 100, 255], [50, 50, 50]
COLORS = [WHITE, YELLOW, ORANGE, RED, LIGHT_RED, PINK, PURPLE, LIGHT_GREEN, GREEN, CYAN, BLUE, LIGHT_BLUE, GRAY50]
SAFE, SAFE_DIM = [[b for b in l if all(_safe(c, b) for c in COLORS)] for l in (BRI, DIM)]     # exact in single and double precision
RIG = 250            # pseudo control number: rig ID


def addr(page, a):
    return 1000 + 128 * page + a


def nrpn(page, a, report=True):
    return dict(cc=addr(page, a) if report else -1, set=[], sx=kemper.req(page, a, 1))


FIXED = [("Transpose", 1, WHITE), ("Gate", 6, LIGHT_BLUE), ("Comp", 11, BLUE), ("Boost", 16, RED), ("Wah", 21, ORANGE), ("Chorus", 26, BLUE), ("Air", 36, BLUE), ("Doubler", 41, BLUE)]
LOOPER = [("LOOPER_REC_PLAY_OVERDUB", 88, "Rec", RED), ("LOOPER_STOP", 89, "Stop", WHITE), ("LOOPER_TRIGGER", 90, "Trigger", LIGHT_BLUE), ("LOOPER_REVERSE", 91, "Reverse", LIGHT_GREEN),
          ("LOOPER_HALF_SPEED", 92, "HalfSpd", ORANGE), ("LOOPER_CANCEL", 93, "Undo", YELLOW), ("LOOPER_ERASE", 94, "Erase", LIGHT_RED)]
FREEZE = dict(A=0x6b, B=0x6c, C=0x6d, D=0x6e, X=0x6f, MOD=0x71, DLY=0x72, REV=0x73)
SLOTNAME = dict({s: s for s in FREEZE}, DLYN="DLYns", REVN="REVns")

# Effect types: (numbers, category name, color)
R = lambda a, b: list(range(a, b + 1))
TYPES = [(R(1, 10) + [12, 13], "Wah", ORANGE), ([11], "Pitch", WHITE), (R(17, 42), "Dist", RED), ([49, 50], "Comp", CYAN), ([57, 58], "Gate", CYAN), ([64], "Space", GREEN),
         ([65, 66, 67, 71], "Chorus", BLUE), ([68], "Vibrato", BLUE), ([69], "Rotary", BLUE), ([70, 75, 76], "Tremolo", BLUE), (R(77, 80), "Slicer", BLUE),
         (R(81, 91), "Phaser", PURPLE), (R(97, 104), "EQ", YELLOW), (R(113, 116), "Boost", RED), (R(121, 123), "Looper", PINK), (R(129, 132), "Pitch", WHITE), (R(137, 140), "Dual", LIGHT_GREEN),
         (R(145, 166), "Delay", GREEN), (R(177, 193), "Reverb", GREEN)]
NAMES = {0: "Empty", 1: "Wah", 2: "LP", 3: "HP", 4: "Vowel", 6: "Wah Ph", 7: "Wah Fl", 8: "Wah RR", 9: "Ring", 10: "FShift", 11: "Pitch", 12: "Wah Form", 13: "VinylStp", 17: "Bit Shp",
         18: "Octa Shp", 19: "Soft Shp", 20: "Hard Shp", 21: "Wave Shp", 32: "KDrive", 33: "Green", 34: "Plus DS", 35: "One DS", 36: "Muff", 37: "Mouse", 38: "KFuzz", 39: "Metal DS", 42: "Full OC",
         49: "Comp", 50: "Swell", 57: "Gate 2:1", 58: "Gate 4:1", 64: "Space", 65: "VChorus", 66: "HChorus", 67: "Air Ch.", 68: "Vibrato", 69: "Rotary",
         70: "Tremolo", 71: "MPitch", 75: "Tremolo", 76: "HarmTrem", 77: "Pulse", 78: "Saw", 79: "PulsePan", 80: "SawPan", 81: "Phaser", 82: "Vibe", 83: "Ph 1way",
         89: "Flanger", 91: "Fl 1way", 97: "Graphic", 98: "StudioEQ", 99: "MetalEQ", 100: "Acoustic", 101: "Wide", 102: "WidePh", 103: "WideDLY", 104: "Double",
         113: "Treble", 114: "Lead", 115: "Boost", 116: "WahBoost", 121: "Loop", 122: "Loop", 123: "LoopDist", 129: "Transp", 130: "ChromPtch", 131: "HarmPtch",
         132: "Octave", 137: "DualChrom", 138: "DualHarm", 139: "DualCryst", 140: "DualLoop", 145: "LDelay", 146: "SDelay", 147: "DualDly", 148: "2TpDelay",
         149: "S2TDelay", 150: "Crystal", 151: "LoopPitch", 152: "FShiftDly", 161: "RhDelay", 162: "MeloChr", 163: "MeloHarm", 164: "QuadDly", 165: "QuadChrm",
         166: "QuadHarm", 177: "LReverb", 178: "NatRev", 179: "EasyRev", 180: "Echo", 181: "Cirrus", 182: "FormRev", 183: "Sphere", 193: "Spring"}
SAMPLE = [0, 1, 5, 11, 12, 17, 30, 42, 49, 57, 64, 65, 68, 69, 70, 71, 75, 77, 80, 81, 89, 91, 97, 104, 113, 116, 121, 123, 129, 132, 137, 138, 140, 145, 152, 153, 161, 166, 177, 183, 193]
NONE = [14, 16, 43, 48, 51, 56, 59, 63, 72, 92, 96, 105, 112, 117, 120, 124, 128, 133, 136, 141, 144, 167, 176, 194, 300]


def category(v):
    return next(((n, c) for vs, n, c in TYPES if v in vs), None)


class CatSut(Sut):
    def mapping(self, i, p):
        imp, k = world.imp, p["km"]
        m = lambda mod, fn, *a: getattr(imp("pyswitch.clients.kemper.mappings." + mod), fn)(*a)
        if k[0] == "FREEZE":
            return m("freeze", "MAPPING_FREEZE", kemper.SLOT[k[1]])
        if k[0] == "ROTARY":
            return m("rotary", "MAPPING_ROTARY_SPEED", kemper.SLOT[k[1]])
        return {"AMP": lambda: m("amp", "MAPPING_AMP_STATE"), "CAB": lambda: m("cabinet", "MAPPING_CABINET_STATE"), "FREEZEALL": lambda: m("freeze", "MAPPING_FREEZE_ALL_GLOBAL")}.get(k[0], lambda: None)()

    def pushbutton(self, i, a, kw, disp):
        f = a["fac"]
        K = "pyswitch.clients.kemper.actions."
        d = dict(display=disp, use_leds=a["leds"], **kw)
        own = {x: a[x] for x in ("text",) if a.get(x)}
        if a.get("owncol"):
            own["color"] = one(a["color"])
        if f[0] == "LOOPER":
            return getattr(world.imp(K + "looper"), f[1])(**d, **own)
        if f[0] == "FIXED":
            return world.imp(K + "fixed_fx").FIXED_EFFECT_STATE(f[1], mode=a["mode"], **d, **own)
        if f[0] == "BUTTON":
            return world.imp(K + "effect_button").EFFECT_BUTTON(f[1], use_internal_state=a["int"], **d, **own)
        if f[0] == "BOOST":
            return world.imp(K + "rig_volume_boost").RIG_VOLUME_BOOST(f[1] / 1000, mode=a["mode"], remember_off_value=f[2], **d, **own)
        if f[0] == "SLOT":
            mod, fn = ("effect_state_extended_names", "EFFECT_STATE_EXT") if f[2] else ("effect_state", "EFFECT_STATE")
            return getattr(world.imp(K + mod), fn)(kemper.SLOT[f[1]], mode=a["mode"], show_slot_names=f[3], **d, **own)
        return super().pushbutton(i, a, kw, disp)

    def messages(self, m):
        if m[0] >= 1000:
            return [kemper.resp((m[0] - 1000) // 128, (m[0] - 1000) % 128, m[1])]
        if m[0] == RIG:
            return kemper.rig_id(m[1])
        return super().messages(m)


class CatGen(Gen):
    def shared(self, key, p):
        """index of the parameter"""
        for i, q in enumerate(self.pr):
            if q["km"] == key:
                return i + 1
        self.pr.append(dict(p, km=key))
        return len(self.pr)

    def entry(self, p, fac, mode, txt, color, **kw):
        r = self.rng
        a = dict(k="bin", p=p, pd=0, mode=mode, hold=600, von=[1], voff=[0], lst=False, ref=1, refdef=False, cmp=20, txt=txt, txtoff="", color=[color], int=False, factory=False, tunact=False,
                 fac=fac, rig=0, **self.defaults(), **self.common())
        a.update(kw)
        if fac[0] != "SLOT" and r.random() < .2:
            a["text"] = a["txt"] = "own"
        if fac[0] != "SLOT" and r.random() < .2:
            a["owncol"], a["color"] = True, self.color()
        self.act.append(a)

    def mode(self):
        return self.rng.choice([0, 10, 20, 30, 40, 50, 50, 50, 100])

    def looper(self):
        n, ad, txt, color = self.rng.choice(LOOPER)
        self.entry(self.shared(["LOOPER", n], nrpn(0x7d, ad, False)), ["LOOPER", n], 30, txt, color)

    def fixed(self):
        i = self.rng.randrange(8)
        txt, ad, color = FIXED[i]
        self.entry(self.shared(["FIXED", i], nrpn(5, ad)), ["FIXED", i], self.mode(), txt, color)

    def button(self):
        n = self.rng.randint(1, 4)
        p = self.shared(["BUTTON", n], dict(cc=-1, set=[74 + n]))
        self.entry(p, ["BUTTON", n], 20, "FX " + "I" * n, LIGHT_GREEN, cmp=999, int=self.rng.random() < .7, rig=self.shared(["RIG"], dict(cc=RIG, set=[])))

    def boost(self):
        x = self.rng.choice([0, 500, 625, 750, 1000, 313])
        keep = self.rng.random() < .6
        von = 16383 * x // 1000
        self.entry(self.shared(["BOOST"], nrpn(4, 1)), ["BOOST", x, keep], self.mode(), "RigBoost", PINK, von=[von], voff=[-1 if keep else 8191], ref=von)

    def state(self):
        r = self.rng
        k = r.choice(["AMP", "CAB", "FREEZE", "ROTARY", "FREEZEALL"])
        if k in ("AMP", "CAB"):
            key, p = [k], nrpn(0x0a if k == "AMP" else 0x0c, 2)
        elif k == "FREEZEALL":
            key, p = [k], dict(cc=35, set=[35])
        elif k == "FREEZE":
            s = r.choice(list(FREEZE))
            key, p = [k, s], nrpn(0x7d, FREEZE[s])
        else:
            s = r.choice(list(FREEZE))
            key, p = [k, s], nrpn(kemper.PAGE[s], 0x1e)
        self.entry(self.shared(key, p), ["STATE"], self.mode(), r.choice(["", "t"]), WHITE, factory=True)
        a = self.act[-1]
        a.update(refdef=False)
        a["color"] = self.color()
        a["txt"] = a.pop("text", a["txt"])
        a.pop("owncol", None)

    def slot(self):
        r = self.rng
        s = r.choice(list(kemper.SLOT))
        ext, names, own, col = r.random() < .5, r.random() < .4, r.random() < .15, r.random() < .15
        # slots DLY and DLYN (REV/REVN) are the same module
        p = self.shared(["ST", s], dict(cc=addr(kemper.PAGE[s], 3), set=[kemper.CC[s]]))
        ty = self.shared(["TY", s], dict(cc=addr(kemper.PAGE[s], 0), set=[]))
        color = self.color()
        vals = self.vals
        cats = []
        for v in vals:
            c = category(v)
            n = (NAMES.get(v) if ext else None) or (c[0] if c else "-")
            n = SLOTNAME[s] + " " + n if names else n
            cats.append(dict(v=[v], none=c is None, color=color if col else [c[1] if c else GRAY50], txt="own" if own else n))
        nocat = dict(none=True, color=color if col else [GRAY50], txt="own" if own else SLOTNAME[s] + " -" if names else "-")
        self.entry(p, ["SLOT", s, ext, names], self.mode(), "", WHITE, k="slot", ty=ty, cats=cats, nocat=nocat)
        self.act[-1].update({"text": "own"} if own else {}, **({"owncol": True, "color": color} if col else {}))

    def __init__(self, rng, kinds, **kw):
        self.vals = rng.sample(SAMPLE, 9) + rng.sample(sorted(set(NAMES) - set(SAMPLE)), 2) + rng.sample(NONE, 2)
        self.g = [rng.choice(SAFE_DIM), rng.choice(SAFE_DIM), rng.choice(SAFE), rng.choice(SAFE)]
        super().__init__(rng, kinds, **kw)

    def cfg(self):
        return dict(super().cfg(), vals=self.vals)


class Catalogue(PanelBase):
    name = "Catalogue"
    mc = mcp([15], "{201}", "{0, 1}") + mcp([16], "{201}", "{1, 8191}")
    mc_thorough = mcp([15, 16], "{0, 201}", "{0, 1, 8191}")
    kinds = ["looper", "fixed", "fixed", "button", "boost", "state", "state", "slot", "slot", "slot"]
    gen = dict(n_act=(1, 5), n_sw=(1, 3), pagers=(0, 1))

    def make(self, cfg):
        return CatSut(cfg)

    def random_cfg(self, rng):
        return CatGen(rng, self.kinds, **self.gen).cfg()

    def ccs(self, cfg):
        return [p["cc"] for p in cfg["pr"] if p["cc"] >= 0] or [77]

    def vals(self, cfg, rng, c):
        if c == 35 or c == 77:
            return rng.choice([0, 1, 127])
        ty = [a for a in cfg["act"] if a["k"] == "slot" and cfg["pr"][a["ty"] - 1]["cc"] == c]
        if ty:
            return rng.choice(cfg["vals"])
        if c == RIG:
            return rng.randrange(625)
        return rng.choice([0, 0, 1, 1, 1, 2, 127, 5000, 8191, 8192, 10239, 16383])
