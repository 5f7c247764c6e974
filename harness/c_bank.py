import struct
import world, vdev, kemper
from engine import Component
from c_panel import Splash

WHITE = [255, 255, 255]
BANKS = [[0, 0, 255], [255, 255, 0], [255, 0, 0], [100, 255, 100], [180, 0, 120]]
CB = [[10, 20, 30], [200, 100, 0]]
OWN = [[0, 255, 255], [40, 240, 100], [255, 0, 0]]


def _ok(f, b, single=False):
    g = f if single else struct.unpack("f", struct.pack("f", f))[0]
    return all(int(x * f) == x * b // 1000 == int(x * g) for c in [WHITE, [50, 50, 50]] + BANKS + CB + OWN for x in c)

FACT = [b for b in (0, 20, 30, 50, 80, 100, 125, 150, 200, 250, 300, 500, 750, 1000) if _ok(b / 1000, b)]
FACT1 = [b for b in (0, 20, 20, 20, 30, 50, 80, 100, 125, 150, 200, 250, 300, 500, 750, 1000) if _ok(b / 1000, b, True)]
PAIRS = [b for b in FACT if b % 10 == 0 and _ok(b / 1000 * .1, b // 10)]


def cbtext(action, bank, rig):
    return f"{bank}|{rig}"

def cbcolor(action, bank, rig):
    return tuple(CB[(bank + rig) % 2])


def flag():
    """Enable callback which is switched by the test"""
    class Flag(world.imp("pyswitch.controller.callbacks").Callback):
        on = True
        def enabled(self, action):
            return self.on
    return Flag()


class Protocol:
    """Rig and bank changes are reported by messages without request, everything else is covered by the protocol"""
    def init(self, midi, client):
        pass
    def is_bidirectional(self, mapping):
        return not isinstance(mapping.response, (list, tuple))
    def feedback_value(self, mapping):
        return False
    def get_color(self):
        return (0, 0, 0)
    def update(self):
        pass
    def receive(self, msg):
        return False


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        U = world.imp("pyswitch.ui.ui")
        E = world.imp("pyswitch.ui.elements")
        KM = world.imp("pyswitch.clients.kemper")
        self.default = f"PySwitch {world.imp('pyswitch.misc').PYSWITCH_VERSION}"
        self.labels = []
        for i, l in enumerate(cfg["lab"]):
            lay = {"font": "f", "backColor": tuple(l["b"]), "text": l["t"]}
            if l["c"]:
                lay["textColor"] = tuple(l["c"])
            self.labels.append(E.DisplayLabel(bounds=U.DisplayBounds(0, 20 * i, 100, 20), layout=lay))
        ids = {"": False, "rig": "rig", "bank": "bank", "both": True}
        self.n = len(self.labels)
        for q, n in enumerate(cfg["rn"]):
            self.labels.append(E.DisplayLabel(bounds=U.DisplayBounds(0, 20 * (self.n + q), 200, 20), layout={"font": "f", "text": "start"},
                                              callback=KM.KemperRigNameCallback(show_name=n["name"], show_rig_id=ids[n["id"]])))
        self.flags = [flag() for _ in range(cfg["nf"])]
        self.acts = [None] * len(cfg["act"])
        for i, a in enumerate(cfg["act"]):
            if self.acts[i] is None:
                self.action(i, a)
        self.switches = [vdev.Switch() for _ in cfg["sw"]]
        inputs = [{"assignment": {"model": m, "pixels": tuple(s["px"])}, "actions": [self.acts[i - 1] for i in s["acts"]]} for s, m in zip(cfg["sw"], self.switches)]
        self.enc = vdev.Encoder(0)
        if cfg["enc"]:
            e = cfg["enc"][0]
            act = world.imp("pyswitch.clients.kemper.actions.bank_select_encoder").ENCODER_BANK_SELECT(step_width=e["num"] / e["den"])
            x = [{"assignment": {"model": self.enc}, "actions": [act]}]
            inputs = x + inputs if cfg["ef"] else inputs + x
        config = {"updateInterval": cfg["interval"]}
        for k, n in (("ledBrightnessOn", "bon"), ("ledBrightnessOff", "boff"), ("displayDimFactorOff", "doff")):
            if cfg[n] != {"bon": 300, "boff": 20, "doff": 200}[n]:
                config[k] = cfg[n] / 1000
        self.dev = vdev.Device(inputs, splash_callback=Splash(self.labels), protocol=Protocol(), config=config)
        self.dev.init()

    def action(self, i, a):
        imp = lambda m: world.imp("pyswitch.clients.kemper.actions." + m)
        k = a["k"]
        lab = self.labels[a["lab"] - 1] if a["lab"] else None
        kw = dict(display=lab, id=f"a{i}", use_leds=a["leds"])
        if a["en"] >= 0:
            kw["enable_callback"] = self.flags[a["en"] - 1] if a["en"] else None
        vis = {}
        if k != "mor":
            if a["txt"]:
                vis["text"] = a["txt"]
            if a["tcb"]:
                vis["text_callback"] = cbtext
            if a["ccb"]:
                vis["color_callback"] = cbcolor
            if a["color"]:
                vis["color"] = tuple(a["color"][0])
            vis["display_mode"] = a["mode"]
        auto = lambda x: None if x == 0 else "auto" if x == -1 else x
        if k == "rig":
            args = dict(rig=a["rig"] or None, rig_off=auto(a["off"]), bank=a["bank"] or None, bank_off=auto(a["boff"]), rig_btn_morph=a["rbm"], momentary_morph=a["mom"], **vis, **kw)
            j = next((j for j, b in enumerate(self.cfg["act"]) if b["en"] == -i - 1), None)
            if j is None:
                act = imp("rig_select").RIG_SELECT(auto_exclude_rigs=a["excl"] or None, **args)
            else:
                b = self.cfg["act"][j]
                act, self.acts[j] = imp("rig_select_and_morph_state").RIG_SELECT_AND_MORPH_STATE(
                    morph_display=self.labels[b["lab"] - 1] if b["lab"] else None, morph_use_leds=b["leds"], morph_id=f"a{j}",
                    morph_color_base=tuple(b["cb"]), morph_color_morphed=tuple(b["cm"]), **args)
        elif k == "bank":
            act = imp("bank_select").BANK_SELECT(bank=a["bank"], bank_off=a["boff"] or None, preselect=a["pre"], **vis, **kw)
        elif k == "bch":
            m = imp("bank_up_down")
            act = (m.BANK_UP if a["dir"] == 1 else m.BANK_DOWN)(preselect=a["pre"], max_bank=a["maxb"] or None, dim_factor=a["dimp"] if isinstance(a["dimp"], str) else a["dim"] / 1000,
                led_brightness=a["lbp"] if isinstance(a["lbp"], str) else a["lb"] / 1000, **vis, **kw)
        elif k == "rch":
            m = imp("rig_up_down")
            act = (m.RIG_UP if a["up"] else m.RIG_DOWN)(keep_bank=a["keep"], **vis, **kw)
        elif a["btn"]:
            act = imp("morph").MORPH_BUTTON(text=a["txt"], color=tuple(a["color"][0]) if a["color"] else "kemper", morph_color_base=tuple(a["cb"]), morph_color_morphed=tuple(a["cm"]), **kw)
        else:
            act = imp("morph").MORPH_DISPLAY(text=a["txt"], morph_color_base=tuple(a["cb"]), morph_color_morphed=tuple(a["cm"]), **kw)
        self.acts[i] = act

    def observe_init(self):
        return self.obs()

    def obs(self):
        scr = self.dev.screen()
        lab = [scr.label_in((0, 20 * i, 100, 20)) for i in range(self.n)]
        rn = [scr.label_in((0, 20 * (self.n + q), 200, 20))[0].replace(self.default, "@") for q in range(len(self.cfg["rn"]))]
        return dict(exc="", sent=self.dev.port.take(), leds=self.dev.leds.obs(), lab=lab, rn=rn)

    def step(self, a):
        for f in a["en"]:
            self.flags[f - 1].on = not self.flags[f - 1].on
        for s in a["sw"]:
            self.switches[s - 1].down = not self.switches[s - 1].down
        self.enc.p += a["turn"]
        for m in a["msgs"]:
            k, v = m
            self.dev.recv(vdev.cc(32, v) if k == "cc" else vdev.pc(v) if k == "pc" else kemper.resp_str(1, v) if k == "name" else kemper.resp(0, 11, v))
        self.dev.tick(a["dt"])
        return self.obs()


# ------------------------------------------------------------------------------------------- random configurations

class Gen:
    def __init__(self, rng, kinds, n_act=(1, 4), n_sw=(1, 4), enc=0.0, rn=(0, 1), shared=.3):
        r = self.rng = rng
        self.lab, self.act = [], []
        n = r.randint(*n_sw)
        na = r.randint(*n_act)
        shared = r.random() < shared
        n = n if shared else max(n, na)
        self.lists = [[] for _ in range(n)]
        self.bon = r.choice([b for b in FACT if b >= 100])
        self.boff = r.choice([b for b in (FACT if shared or 'rigmor' in kinds else FACT1) if b <= 200])
        self.doff = r.choice([200, 200] + FACT)
        self.nf = r.choice([0, 0, 1, 2])
        for i in range(na):
            self.link = 0
            getattr(self, r.choice(kinds))()
        if r.random() < .5 and self.nf:
            for a in self.act:
                if a["en"] == 0 and r.random() < .5 and not any(b["en"] < 0 for b in self.act):
                    a["en"] = r.randint(1, self.nf)
        for i in range(len(self.act)):
            (r.choice(self.lists) if shared else self.lists[i % n]).append(i + 1)
        px = list(range(12))
        self.sw = []
        for l in self.lists:
            k = r.choice([0, 1, 2, 3, 3])
            self.sw.append(dict(px=px[:k], acts=l))
            px = px[k:]
        self.enc = [r.choice([dict(num=1, den=2), dict(num=1, den=1), dict(num=3, den=2), dict(num=4, den=1)])] if r.random() < enc else []
        self.ef = r.random() < .5
        self.rn = [r.choice([dict(name=True, id=""), dict(name=True, id="both"), dict(name=True, id="bank"), dict(name=False, id="both"), dict(name=False, id="rig"), dict(name=False, id="")])
                   for _ in range(r.randint(*rn))]

    def cfg(self):
        n = max([x for s in self.sw for x in s["px"]], default=-1) + 1
        return dict(np=n, interval=200, bon=self.bon, boff=self.boff, doff=self.doff, lab=self.lab, nf=self.nf, sw=self.sw, act=self.act, rn=self.rn, enc=self.enc, ef=self.ef)

    def label(self):
        r = self.rng
        if r.random() < .35:
            return 0
        if self.lab and r.random() < .3:
            return r.randint(1, len(self.lab))
        self.lab.append(dict(t=r.choice(["", "x", "foo bar"]), b=list(r.choice(BANKS)), c=list(r.choice(OWN)) if r.random() < .3 else []))
        return len(self.lab)

    def look(self, default=""):
        r = self.rng
        x = r.choice([0, 0, 0, 1, 2])
        return dict(mode=r.choice([10, 20]), txt=r.choice([default, default, "txt"]), tcb=r.random() < .2, ccb=r.random() < .2, color=[list(r.choice(OWN))] if r.random() < .15 else [],
                    lab=self.label(), leds=r.random() < .9, en=0)

    def rig(self, morph=False):
        r = self.rng
        bank = r.choice([0, 0, 1, 2, 3, 30])
        off = r.choice([0, 0, -1, -1, 1, 2, 3, 5])
        boff = r.choice([-1, 1, 2, 4]) if bank and (off or r.random() < .3) else r.choice([0, 0, 0, 3]) if not off else 0
        if off and bank and not boff:
            boff = -1
        rbm = r.random() < (.6 if morph else .1)
        a = dict(k="rig", rig=r.choice([1, 1, 2, 2, 3, 5, 0]), off=off, bank=bank, boff=boff, excl=r.sample(range(1, 6), r.randint(1, 2)) if r.random() < .25 and not morph else [],
                 rbm=rbm, mom=rbm and r.random() < .4, **self.look())
        if rbm and r.random() < .8:
            a.update(off=0, boff=0)
        self.act.append(a)
        return a

    def bank(self):
        r = self.rng
        self.act.append(dict(k="bank", bank=r.choice([1, 2, 2, 3, 4, 125]), boff=r.choice([0, 0, 1, 3]), pre=r.random() < self.p_pre, **self.look()))
    p_pre = .6

    def bch(self):
        r = self.rng
        dimp = r.choice(["off", "off", "on", 0])
        lbp = r.choice(["off", "off", "on", 0])
        lb = r.choice(PAIRS)
        self.act.append(dict(k="bch", dir=r.choice([1, -1]), pre=r.random() < self.p_pre, maxb=r.choice([0, 0, 0, 2, 5, 1]), dimp=dimp, lbp=lbp,
                             dim=self.doff if dimp == "off" else 1000 if dimp == "on" else r.choice(FACT), lb=self.boff if lbp == "off" else self.bon if lbp == "on" else lb,
                             lbx=self.bon if lbp == "off" else self.boff if lbp == "on" else lb // 10, **self.look("")))
        a = self.act[-1]
        if not a["txt"]:
            a["txt"] = "Bank up" if a["dir"] == 1 else "Bank dn"

    def rch(self):
        r = self.rng
        self.act.append(dict(k="rch", up=r.random() < .5, keep=r.random() < .4, **self.look()))

    def mor(self):
        r = self.rng
        lk = self.look("Morph")
        for k in ("mode", "tcb", "ccb"):
            lk.pop(k)
        btn = r.random() < .6
        if not btn:
            lk["color"] = []
        cb, cm = r.choice([([255, 0, 0], [0, 0, 255]), ([10, 200, 30], [110, 100, 30]), ([0, 0, 0], [255, 255, 255])])
        self.act.append(dict(k="mor", btn=btn, cb=cb, cm=cm, **lk))
        return self.act[-1]

    def rigmor(self):
        a = self.rig(True)
        a["leds"] = True
        i = len(self.act)
        m = self.mor()
        m.update(btn=False, txt="Morph", color=[], en=-i)


def _morph_ok(cb, cm, v):
    return all(int((y - x) * (v / 16383)) == int(abs(y - x) * v // 16383) * (1 if y >= x else -1) for x, y in zip(cb, cm))


class BankBase(Component):
    spec = "Bank"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 200
    walk_budget = 50000
    kinds = ["rig"]
    gen = {}
    p_pre = .6

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        g = type("G", (Gen,), dict(p_pre=self.p_pre))
        return g(rng, self.kinds, **self.gen).cfg()

    def random_acts(self, rng, cfg):
        ids = [0, 1, 4, 5, 6, 7, 9, 10, 11, 14, 15, 127, 128, 148, 624, 620, 300]
        hot = rng.sample(ids, 4)
        mor = any(a["k"] == "mor" for a in cfg["act"])
        vals = [v for v in (0, 1, 100, 4095, 8191, 8192, 12000, 16382, 16383) if all(_morph_ok(a["cb"], a["cm"], v) for a in cfg["act"] if a["k"] == "mor")]
        rig = [(a["bank"] - 1 if a["bank"] else rng.choice([0, 1])) * 5 + a["rig"] - 1 for a in cfg["act"] if a["k"] == "rig" and a["rig"]]
        if rig and rng.random() < .6:
            hot = [rng.choice(rig)] + hot[:rng.choice([0, 1, 3])]
        rate, mrate = rng.choice([.05, .2, .4, .7]), rng.choice([.04, .4])
        alone = rng.randint(1, len(cfg["sw"])) if cfg["sw"] and rng.random() < .3 else 0     # one switch is used most
        for n in range(rng.randint(20, 50)):
            msgs = []
            if n == 0 and rng.random() < .7 or rng.random() < rate:
                v = rng.choice(hot if rng.random() < .8 else ids)
                msgs += [["cc", v // 128], ["pc", v % 128]]
                if rng.random() < .05:
                    msgs.pop(rng.randint(0, 1))
                if rng.random() < .1:
                    v = rng.choice(hot)
                    msgs += [["cc", v // 128], ["pc", v % 128]]
            if mor and rng.random() < mrate:
                msgs.insert(rng.choice([0, len(msgs)]), ["morph", rng.choice(vals)])
            if cfg["rn"] and rng.random() < .2:
                msgs.insert(rng.choice([0, len(msgs)]), ["name", rng.choice(["n1", "Crunch", "b"])])
            sw = [s + 1 for s in range(len(cfg["sw"])) if rng.random() < (.35 if not alone else .7 if s + 1 == alone else .05)]
            turn = rng.choice([0, 0, 1, -1, 2, -2, 5]) if cfg["enc"] else 0
            en = [f for f in range(1, cfg["nf"] + 1) if rng.random() < .1]
            yield dict(op="tick", dt=rng.choice([0, 0, 1, 100, 201, 201, 201, 401, 401, 601, 1000]), sw=sw, turn=turn, msgs=msgs, en=en)


def mcb(sels, dts="{0, 201, 401}", ids="{0, 1, 5, 6}"):
    return [("MCBank", f"CONSTANTS Sel = {k} Dts = {dts} Ids = {ids}\nINVARIANT Safety\n", True) for k in sels]


class RigSelect(BankBase):
    name = "RigSelect"
    kinds = ["rig"]
    gen = dict(n_act=(1, 4), n_sw=(1, 3))
    mc = mcb([1, 3, 16])
    mc_thorough = mcb([2])


class BankPreselect(BankBase):
    name = "BankPreselect"
    kinds = ["bank", "bch", "rig", "rch", "bank"]
    gen = dict(n_act=(1, 5), n_sw=(2, 4), enc=.4, rn=(0, 2))
    p_pre = .8
    walk_budget = 30000
    mc = mcb([4, 12, 13, 14], '{401}', '{1, 5}')
    mc_thorough = mcb([5, 6, 15], '{401}', '{1, 5}')


class UpDown(BankBase):
    name = "UpDown"
    kinds = ["bch", "rch", "bank", "rch"]
    gen = dict(n_act=(1, 4), n_sw=(1, 4), enc=.1)
    p_pre = .25
    mc = mcb([7, 8]) + mcb([9], '{401}', '{1, 5}')
    mc_thorough = mcb([9])
    walk_budget = 30000


class Morph(BankBase):
    name = "Morph"
    kinds = ["mor", "rigmor", "rigmor", "rig"]
    gen = dict(n_act=(1, 3), n_sw=(1, 3))
    walk_budget = 30000
    mc = mcb([11], '{401}', '{1, 5}')
    mc_thorough = mcb([10, 11])
