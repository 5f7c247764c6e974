import world, vdev, kemper
from engine import Component
from c_panel import Protocol, Splash, COLORS

K = [0, 32, 51]
TF = {1: lambda v: v // 8192, 2: lambda v: 100 if v > 30000 else 7, 3: lambda v: 127 - v // 516}
MAX = [127, 127, 16383, 1, 3, 63, 1023, 100, 99, 1200]


def conv(c):
    if c in ("@volume", "@volume12"):
        cv = world.imp("pyswitch.clients.kemper.callbacks.convert_volume").convert_volume
        return lambda v: cv(v, 12) if c == "@volume12" else cv(v)
    return lambda v: c + str(v)


class Flag:
    def __init__(self):
        self.on = True
    def enabled(self, action):
        return self.on and action.id == "i"


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        imp = world.imp
        U = imp("pyswitch.ui.ui")
        E = imp("pyswitch.ui.elements")
        M = imp("pyswitch.controller.client").ClientParameterMapping
        PD = imp("pyswitch.controller.callbacks.parameter_display").ParameterDisplayCallback
        A = imp("pyswitch.controller.actions.AnalogAction").AnalogAction
        EN = imp("pyswitch.controller.actions.EncoderAction").EncoderAction
        BT = imp("pyswitch.clients.local.actions.encoder_button").ENCODER_BUTTON
        self.prot = Protocol(cfg["fb"])
        self.mp = []
        for p in cfg["pr"]:
            if "k" in p:
                self.mp.append(kemper.ALL[p["k"]].mk())
                continue
            if p["sys"]:
                kw = dict(set=vdev.sysex(K, [2, 127, 1, 0, p["adr"], 0]), response=vdev.sysex(K, [0, 0, 1, 0, p["adr"], 0]))
            else:
                kw = dict(set=vdev.cc(p["adr"], 0), response=vdev.cc(p["adr"], 0))
            self.mp.append(M.get(name=p["name"], **kw))
        self.labels = []
        for i, l in enumerate(cfg["lab"]):
            lay = {"font": "f", "backColor": tuple(l["b"]), "text": l["t"]}
            if l["c"]:
                lay["textColor"] = tuple(l["c"])
            cb = None
            if l["p"]:
                cb = self.bpm(l) or PD(self.mp[l["p"] - 1], convert_value=(lambda v, c=conv(l["conv"]): None if v is None else c(v)) if l["conv"] else None, default_text=l["def"])
            self.labels.append(E.DisplayLabel(bounds=U.DisplayBounds(0, 20 * i, 100, 20), layout=lay, callback=cb))
        self.flags = [Flag() for _ in range(cfg["flag"])]
        btns = [BT(id=i) for i in range(cfg["btn"])]
        self.btns = [vdev.Switch() for _ in btns]
        bi = [{"assignment": {"model": m}, "actions": [b]} for m, b in zip(self.btns, btns)]
        self.models, ci = [], []
        for a in cfg["inp"]:
            kw = dict(enable_callback=self.flags[a["en"] - 1] if a["en"] else None, id="i")
            if a["conv"]:
                kw["convert_value"] = conv(a["conv"])
            disp = self.labels[a["lab"] - 1] if a["lab"] else None
            if a["k"] == "pot":
                m = vdev.Pot(0)
                if not a["cal"] and a["rate"] == 41:
                    pass
                else:
                    kw["max_frame_rate"] = 1000 / (a["rate"] + .5)
                if a["max"] != (16383 if cfg["pr"][a["p"] - 1]["sys"] else 127):
                    kw["max_value"] = a["max"]
                if a["sw"] != 512:
                    kw["num_steps"] = 65536 / a["sw"]
                    assert int(65536 / kw["num_steps"]) == a["sw"]
                if a["cal"]:
                    kw.update(auto_calibrate=True, cal_min_window=a["win"] / 65536)
                if a["tf"]:
                    kw["transfer_function"] = TF[a["tf"]]
                if a["minraw"] != 1024:
                    kw["min_raw_value"] = a["minraw"] if a["minraw"] > 0 else None
                act = A(self.mp[a["p"] - 1], change_display=disp, change_timeout_millis=a["tmo"], **kw)
            else:
                m = vdev.Encoder(0)
                if a["max"] != (16383 if cfg["pr"][a["p"] - 1]["sys"] else 127):
                    kw["max_value"] = a["max"]
                if a["num"] != (80 if cfg["pr"][a["p"] - 1]["sys"] else 1) or a["den"] != 1:
                    kw["step_width"] = a["num"] / a["den"] if a["den"] > 1 else a["num"]
                if a["acc"]:
                    kw["accept_action"] = btns[a["acc"] - 1]
                if a["can"]:
                    kw["cancel_action"] = btns[a["can"] - 1]
                act = self.ready(a, kw, disp) or EN(self.mp[a["p"] - 1], min_value=a["min"], preview_display=disp, preview_timeout_millis=a["tmo"], preview_blink_period_millis=a["blink"],
                         preview_blink_color=tuple(a["bcol"]), preview_reset_mapping=self.mp[a["rst"] - 1] if a["rst"] else None, **kw)
            self.models.append(m)
            ci.append({"assignment": {"model": m}, "actions": [act]})
        inputs = bi + ci if cfg["first"] else ci + bi
        self.dev = vdev.Device(inputs, splash_callback=Splash(self.labels), protocol=self.prot, config={"updateInterval": cfg["interval"]})
        self.dev.init()

    def ready(self, a, kw, disp):
        if "fac" not in a:
            return None
        kw = {k: v for k, v in kw.items() if k in ("enable_callback", "id", "accept_action", "cancel_action") or (k == "step_width" and a["fac"][1] != "ENCODER_RIG_TRANSPOSE")}
        return getattr(world.imp("pyswitch.clients.kemper.actions." + a["fac"][0]), a["fac"][1])(preview_display=disp, preview_timeout_millis=a["tmo"], preview_blink_color=tuple(a["bcol"]), **kw)

    def bpm(self, l):
        return world.imp("pyswitch.clients.kemper.callbacks.tempo_bpm").KemperTempoDisplayCallback() if l["conv"] == "@bpm" else None

    def observe_init(self):
        return self.obs()

    def obs(self):
        scr = self.dev.screen()
        return dict(exc="", sent=self.dev.port.take(), lab=[scr.label_in((0, 20 * i, 100, 20))[:2] for i in range(len(self.labels))])

    def step(self, a):
        for i, v in a["raw"]:
            m = self.models[i - 1]
            if self.cfg["inp"][i - 1]["k"] == "pot":
                m.v = v
            else:
                m.p = v
        for b in a["btn"]:
            self.btns[b - 1].down = not self.btns[b - 1].down
        for f in a["flip"]:
            self.flags[f - 1].on = not self.flags[f - 1].on
        for p, v in a["msgs"]:
            p = self.cfg["pr"][p - 1]
            if "k" in p:
                for m in kemper.ALL[p["k"]].report(v):
                    self.dev.recv(m)
                continue
            self.dev.recv(vdev.sysex(K, [0, 0, 1, 0, p["adr"], 0, v // 128, v % 128]) if p["sys"] else vdev.cc(p["adr"], v))
        for l, t in a.get("put", []):
            if not self.cfg["lab"][l - 1]["p"]:
                self.labels[l - 1].text = t
        self.prot.lost = a["lost"]
        self.dev.tick(a["dt"])
        self.prot.lost = False
        return self.obs()


def fine(sw, raw):
    """no tie when rounding"""
    return 2 * (raw % sw) != sw


class InputsBase(Component):
    spec = "Inputs"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 320
    kinds = ["pot", "enc", "pre"]
    n_in = (1, 3)
    p_lab = .5
    n_lab = (0, 2)

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        r = rng
        pr = [dict(name=r.choice(["A", "Gain", "x y"]) + str(i), sys=r.random() < .4, adr=20 + i) for i in range(r.randint(1, 3))]
        lab = [dict(p=r.randint(0, len(pr)), conv=r.choice(["", "", "= "]), **{"def": r.choice(["", "?"])}, t=r.choice(["", "hello"]), c=list(r.choice(COLORS)) if r.random() < .4 else [],
                    b=list(r.choice(COLORS + [(0, 0, 0)]))) for _ in range(r.randint(*self.n_lab))]
        kinds = [r.choice(self.kinds) for _ in range(r.randint(*self.n_in))]
        btn = 0
        flag = r.randint(0, 1)
        inp = []
        free = list(range(1, len(pr) + 1))
        for k in kinds:
            p = r.choice(free)
            sysx = pr[p - 1]["sys"]
            mx = (16383 if r.random() < .7 else r.choice(MAX)) if sysx else r.choice([127, 127, 127, 63, 3, 1, 100, 99])
            c = dict(p=p, max=mx, en=flag and r.choice([0, 0, 1]), lab=r.randint(1, len(lab)) if lab and r.random() < self.p_lab else 0, tmo=r.choice([300, 1500, 1000, 0]), conv=r.choice(["", "", "v"]))
            if k == "pot":
                cal = r.random() < .4
                inp.append(dict(k="pot", sw=r.choice([512, 512, 655, 64, 1, 8192, 16384]), rate=r.choice([41, 41, 99, 9]), cal=cal, win=r.choice([16384, 16384, 0, 32768, 655]),
                                tf=r.choice([0, 0, 0, 1, 2, 3]), minraw=r.choice([1024, 1024, -1, 4000]), **c))
            else:
                num, den = r.choice([(1, 1), (1, 1), (1, 2), (3, 2), (1, 4), (2, 1), (80, 1)])
                if k == "pre" and btn < 3:
                    btn += r.randint(0 if btn else 1, 1)
                acc = r.randint(1, btn) if k == "pre" else 0
                can = r.choice([0, 0] + [b for b in range(1, btn + 1) if b != acc])
                inp.append(dict(k="enc", min=r.choice([0, 0, 0, 1]), num=num, den=den, acc=acc, can=can, blink=r.choice([400, 200, 100, 0]),
                                bcol=list(r.choice([(200, 200, 200), (1, 2, 3)])), rst=r.choice([0, r.randint(1, len(pr))]) if acc else 0, **c))
            if inp[-1]["tmo"] == 0 and r.random() < .7:
                inp[-1]["tmo"] = 300
        return dict(interval=200, fb=r.random() < .5, btn=btn, first=r.random() < .5, flag=flag, pr=pr, lab=lab, inp=inp)

    def random_acts(self, rng, cfg):
        r = rng
        pos = [0] * len(cfg["inp"])
        seen = [{0} for _ in cfg["inp"]]
        speed = r.choice([.3, .6, .9])
        for _ in range(r.randint(25, 60)):
            raw = []
            for i, a in enumerate(cfg["inp"]):
                if r.random() > speed:
                    continue
                if a["k"] == "pot":
                    v = self.raw(r, a, seen[i])
                    if v is not None:
                        seen[i].add(v)
                        raw.append([i + 1, v])
                else:
                    pos[i] += r.choice([1, 1, -1, -1, 2, -3, 10, -20, 0, 100, -120])
                    raw.append([i + 1, pos[i]])
            btn = [b + 1 for b in range(cfg["btn"]) if r.random() < .25]
            msgs = []
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                p = r.randint(1, len(cfg["pr"]))
                mx = 16383 if cfg["pr"][p - 1]["sys"] else 127
                msgs.append([p, r.choice([0, 1, 2, 5, 64, mx, mx - 1, r.randint(0, mx)])])
            yield dict(op="tick", dt=r.choice([0, 1, 10, 40, 42, 100, 101, 199, 201, 301, 500, 1600]), raw=raw, btn=btn, msgs=msgs, lost=r.random() < .05,
                       flip=[1] if cfg["flag"] and r.random() < .15 else [],
                       put=[[r.randint(1, len(cfg["lab"])), r.choice(["new", "other", ""])]] if cfg["lab"] and r.random() < .08 else [])

    def raw(self, r, a, seen):
        """A raw value for which the code's floating point arithmetics are unambiguous"""
        for _ in range(20):
            v = r.choice([0, 65535, r.randint(0, 65535), r.randint(0, 2000), r.randint(64000, 65535), r.randint(0, 65535)])
            if not a["cal"]:
                if a["tf"] or fine(a["sw"], v):
                    return v
                continue
            v = v // 1024 * 1024
            s = seen | {v}
            ok = True
            for lo in s:
                for hi in s:
                    if hi <= lo or hi - lo < a["win"]:
                        continue
                    for x in s:
                        if lo <= x <= hi:
                            f, e = int((x - lo) * (65536 / (hi - lo))), (x - lo) * 65536 // (hi - lo)
                            if a["tf"]:
                                ok = ok and f == e
                            else:
                                ok = ok and all(fine(a["sw"], y) for y in (f, e)) and round(f / a["sw"]) == round(e / a["sw"]) and (f < a["minraw"]) == (e < a["minraw"])
            if ok:
                return v
        return None


def mci(sels):
    return [("MCInputs", f"CONSTANTS Sel = {k}\nINVARIANT Safety\n", True) for k in sels]


class Pedal(InputsBase):
    name = "Pedal"
    mc = mci([1, 2])
    kinds = ["pot"]
    p_lab = .1


class Encoder(InputsBase):
    name = "Encoder"
    mc = mci([3, 4])
    kinds = ["enc"]
    p_lab = .1


class Preselect(InputsBase):
    name = "Preselect"
    mc = mci([5, 6])
    kinds = ["pre"]


class Preview(InputsBase):
    name = "Preview"
    mc = mci([7, 8])
    n_lab = (1, 2)
    p_lab = .9
    walk_budget = 35000


# Name shown in previews, by the catalogue number of the parameter
def names():
    n = {}
    def at(b, name):
        for i, e in kemper.MORE.items():
            if e.set == b:
                n.setdefault(i, name)
    for name, page, a in (("RigVol", 4, 1), ("RigTrans", 4, 4), ("BPM", 4, 0), ("Amp State", 10, 2), ("Gain", 10, 4), ("Cab State", 12, 2), ("MainVol", 127, 0), ("MonVol", 127, 2), ("LoopVol", 127, 52), ("SpaceInt", 127, 36)):
        at(kemper.setb(page, a), name)
    for name, c in dict(Wah=1, Pitch=4, Vol=7, DlMix=68, Feed=69, RvMix=70, RvTime=71, OutVol=73, Morph=11).items():
        at([176, c], name)
    for i, e in kemper.MORE.items():            # slots with and without spillover share an address
        for s in kemper.SLOTS[:8]:
            if e.set == kemper.setb(kemper.PAGE[s], 69) and e.group and s not in ("DLY", "REV"):
                n[i] = "Mix " + s
    return n

NAMES = names()


class Ready(InputsBase):
    """Ready-made encoders, pedals and displays of the Kemper client (C32)"""
    name = "KemperInputs"
    mc = mci([9, 10])
    n_traces = 240

    def random_cfg(self, rng):
        r = rng
        def param(k):
            e = kemper.ALL[k]
            return dict(k=k, name=NAMES.get(k, "Rig ID"), sys=len(e.set) > 2, adr=0, pre=e.set)
        bpm, gain, tr, rig = [next(i for i, n in NAMES.items() if n == x) for x in ("BPM", "Gain", "RigTrans")] + [25]
        ids = [rig] + r.sample([bpm, gain, tr], r.randint(0, 3)) + r.sample(sorted(set(NAMES) - {bpm, gain, tr}), r.randint(1, 3))
        pr = [param(k) for k in ids]
        lab = []
        for _ in range(r.randint(1, 3)):
            p = r.choice([0] + list(range(2, len(pr) + 1)) + [i + 1 for i, x in enumerate(pr) if x["name"] in ("RigVol", "MonVol", "LoopVol", "MainVol")])
            vol = p and "Vol" in pr[p - 1]["name"]
            cv = "@bpm" if p and ids[p - 1] == bpm and r.random() < .7 else r.choice(["@volume", "@volume12", ""]) if vol else ""
            if p and not kemper.ALL[ids[p - 1]].report(0):
                p = 0
            lab.append(dict(p=p, conv=cv if p else "", **{"def": r.choice(["", "?"]) if cv != "@bpm" else ""}, t=r.choice(["", "hello"]), c=[], b=[0, 0, 0]))
        inp = []
        btn, flag = r.randint(0, 2), r.randint(0, 1)
        for _ in range(r.randint(1, 3)):
            p = r.randint(2, len(pr))
            k = ids[p - 1]
            c = dict(p=p, en=flag and r.choice([0, 0, 1]), lab=r.choice([0] + [i + 1 for i in range(len(lab))] * 2), tmo=r.choice([300, 1500]), max=16383 if pr[p - 1]["sys"] else 127)
            if k in (bpm, gain, tr):
                acc = r.randint(0, btn)
                can = r.choice([0] + [b for b in range(1, btn + 1) if b != acc])
                c.update(k="enc", min=0, num=80, den=1, acc=acc, can=can, blink=400, bcol=[r.choice([1, 200]), 2, 3], rst=1 if acc and c["lab"] else 0)
                if k == tr:
                    c.update(min=28, max=100, num=1, conv="@transpose", fac=["rig_transpose", "ENCODER_RIG_TRANSPOSE"])
                else:
                    c.update(num=r.choice([80, 80, 1, 333]))
                    c.update(dict(conv="@bpm", fac=["tempo_bpm", "ENCODER_BPM"]) if k == bpm else dict(conv="@gain", fac=["amp", "AMP_GAIN"]))
            elif r.random() < .5:
                c.update(k="pot", sw=512, rate=41, cal=False, win=16384, tf=0, minraw=1024, conv="@volume" if "Vol" in pr[p - 1]["name"] and not pr[p - 1]["sys"] and r.random() < .5 else "")
            else:
                c.update(k="enc", min=0, num=80 if pr[p - 1]["sys"] else 1, den=1, acc=0, can=0, blink=400, bcol=[200, 200, 200], rst=0, conv="")
            inp.append(c)
        return dict(interval=200, fb=r.random() < .5, btn=btn, first=r.random() < .5, flag=flag, pr=pr, lab=lab, inp=inp)

    def random_acts(self, rng, cfg):
        for a in super().random_acts(rng, cfg):
            msgs = []
            for p, v in a["msgs"]:
                k = cfg["pr"][p - 1]
                if kemper.ALL[k["k"]].report(0):
                    v = v if k["k"] == 25 else rng.choice([28, 63, 64, 65, 100, v]) if k["name"] == "RigTrans" else rng.choice([v, rng.randint(0, 16383)])
                    if any(l["conv"][:7] == "@volume" for l in cfg["lab"]):
                        v = rng.choice([0, 1, 29, 30, 31, 49, 50, 51, 100, rng.randint(15, 45), rng.randint(15, 45), rng.randint(0, 127)])
                    msgs.append([p, v])
            yield dict(a, msgs=msgs)
