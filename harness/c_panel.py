import struct
import world, vdev, kemper
from engine import Component

ALL = [(255, 255, 255), (255, 255, 0), (255, 125, 0), (255, 0, 0), (180, 0, 120), (0, 255, 0), (73, 110, 41), (0, 0, 255), (130, 130, 0), (64, 242, 208), (3, 7, 9)]
BRI = [20, 150, 300, 500, 1000, 80, 0, 220]
DIM = [1000, 200, 500, 300, 0]


def _safe(c, b):
    f = b / 1000
    g = struct.unpack("f", struct.pack("f", f))[0]
    return all(int(x * f) == x * b // 1000 == int(x * g) for x in c)

COLORS = [c for c in ALL if all(_safe(c, b) for b in BRI + DIM)]


class Protocol:
    """A bidirectional protocol (interface as documented in client.py) which covers all parameters"""
    def __init__(self, fb):
        self.fb, self.lost = fb, False
    def init(self, midi, client):
        self.client = client
    def is_bidirectional(self, mapping):
        return True
    def feedback_value(self, mapping):
        return self.fb
    def get_color(self):
        return (0, 0, 0)
    def update(self):
        if self.lost:
            self.lost = False
            self.client.notify_connection_lost()
    def receive(self, msg):
        return False


class Enable:
    def __init__(self, cb): self.cb = cb


class Splash:
    def __init__(self, labels):
        U = world.imp("pyswitch.ui.ui")
        self.root = U.DisplayElement(bounds=U.DisplayBounds(0, 0, 240, 240), children=labels)
    def init(self, appl, ui):
        pass
    def get_root(self):
        return self.root


def one(c):
    """list of rgb -> color as used in configurations"""
    return tuple(c[0]) if len(c) == 1 else tuple(tuple(x) for x in c)


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        U = world.imp("pyswitch.ui.ui")
        E = world.imp("pyswitch.ui.elements")
        self.M = world.imp("pyswitch.controller.client").ClientParameterMapping
        self.prot = Protocol(cfg["fb"])
        self.labels = []
        for i, l in enumerate(cfg["lab"]):
            lay = {"font": "f", "backColor": tuple(l["b"]), "text": l["t"]}
            if l["c"]:
                lay["textColor"] = tuple(l["c"])
            self.labels.append(E.DisplayLabel(bounds=U.DisplayBounds(0, 20 * i, 100, 20), layout=lay))
        self.mp = [self.mapping(i, p) for i, p in enumerate(cfg["pr"])]
        self.acts = [None] * len(cfg["act"])
        for i in sorted(range(len(cfg["act"])), key=lambda i: cfg["act"][i]["k"] != "pager"):
            self.acts[i] = self.action(i, cfg["act"][i])
        self.switches = [vdev.Switch() for _ in cfg["sw"]]
        inputs = []
        for s, m in zip(cfg["sw"], self.switches):
            acts = [self.acts[i - 1] for i in s["acts"]]
            if len(acts) > 2 and s.get("nest"):
                acts = [acts[:2]] + acts[2:]
            inputs.append({"assignment": {"model": m, "pixels": tuple(s["px"])}, "actions": acts})
        splash = Splash(self.labels)
        if cfg["tun"]:
            splash = world.imp("pyswitch.clients.kemper").TunerDisplayCallback(splash_default=splash.root, process_overridden_actions=cfg["tpr"])
        self.dev = vdev.Device(inputs, splash_callback=splash, protocol=self.prot, config=dict({"updateInterval": cfg["interval"]}, **self.config()))
        self.dev.init()
        self.main = self.dev.display.tft.shown

    def config(self):
        g = self.cfg.get("g")
        return dict(zip(("displayDimFactorOn", "displayDimFactorOff", "ledBrightnessOn", "ledBrightnessOff"), [x / 1000 for x in g])) if g else {}

    def bright(self, a):
        """own dim factors and brightness, or the ones from the configuration"""
        o = a.get("opt") or [0] * 4
        return dict(zip(("display_dim_factor_on", "display_dim_factor_off", "led_brightness_on", "led_brightness_off"),
                        [[a[k] / 1000, None, ("off", "on")[i % 2]][o[i]] for i, k in enumerate(("don", "doff", "bon", "boff"))]))

    def mapping(self, i, p):
        if p["cc"] == 200:
            return world.imp("pyswitch.clients.kemper").KemperMappings.TUNER_MODE_STATE()
        st = [vdev.cc(c, 0) for c in p["set"]]
        return self.M.get(name=f"p{i}", set=None if not st else st[0] if len(st) == 1 else st, response=vdev.cc(p["cc"], 0) if p["cc"] >= 0 else None)

    def action(self, i, a):
        imp = world.imp
        k = a["k"]
        kw = dict(id=a["page"] if a["en"] else f"a{i}", enable_callback=self.acts[a["en"] - 1].enable_callback if a["en"] else None)
        disp = self.labels[a["lab"] - 1] if a.get("lab") else None
        if k in ("bin", "slot"):
            return self.pushbutton(i, a, kw, disp)
        if k == "pager":
            pages = [dict(id=p["id"], color=one(p["color"]), text=p["txt"]) for p in a["pages"]]
            return imp("pyswitch.clients.local.actions.pager").PagerAction(pages=pages, select_page=a["pages"][a["sel"] - 1]["id"] if a["sel"] else None, led_brightness=a["b"] / 1000,
                led_brightness_on=a["bon"] / 1000, led_brightness_off=a["boff"] / 1000, use_leds=a["leds"], display=disp, **kw)
        if k == "proxy":
            pg = self.cfg["act"][a["pager"] - 1]
            return self.acts[a["pager"] - 1].proxy(page_id=pg["pages"][a["sel"] - 1]["id"], use_leds=a["leds"], **kw)
        if k == "rot":
            return imp("pyswitch.clients.local.actions.rotate").ROTATING_MESSAGES(messages=a["msgs"] or None, messages_release=a["rel"] or None,
                led_colors=[one(c) for c in a["lcols"]] or None, led_brightness=a["b"] / 1000, display=disp, display_colors=[one(c) for c in a["dcols"]] or None,
                texts=a["txts"] or "", use_leds=a["leds"], **kw)
        if k == "msg":
            return imp("pyswitch.clients.local.actions.custom").CUSTOM_MESSAGE(message=a["msg"], message_release=a["rel"] or None, text=a["txt"], color=one(a["color"]),
                led_brightness=a["b"] / 1000, display=disp, use_leds=a["leds"], **kw)
        if k == "hid":
            c = a["codes"]
            return imp("pyswitch.clients.local.actions.hid").HID_KEYBOARD(keycodes=c[0] if len(c) == 1 else c, text=a["txt"], color=one(a["color"]),
                led_brightness=a["b"] / 1000, display=disp, use_leds=a["leds"], **kw)
        if k == "text":
            return imp("pyswitch.clients.local.actions.fixed_text").DISPLAY_FIXED_TEXT(text=a["txt"], display=disp, back_color=one(a["color"]) if a["color"] else None,
                text_color=tuple(a["tcol"]) if a["tcol"] else None, **kw)
        raise ValueError(k)

    def pushbutton(self, i, a, kw, disp):
        imp = world.imp
        PB = imp("pyswitch.controller.actions").PushButtonAction
        CB = imp("pyswitch.controller.callbacks")
        if a["k"] == "bin":
            lv = (lambda v: ["auto" if x == -1 else x for x in v]) if a["lst"] else (lambda v: "auto" if v[0] == -1 else v[0])
            if a["tunact"]:
                return imp("pyswitch.clients.kemper.actions.tuner").TUNER_MODE(display=disp, mode=a["mode"], color=one(a["color"]), text=a["txt"], use_leds=a["leds"], **kw)
            if a.get("factory"):
                return imp("pyswitch.clients.local.actions.binary_switch").BINARY_SWITCH(self.mp[a["p"] - 1], display=disp, text=a["txt"], mode=a["mode"], color=one(a["color"]),
                    use_leds=a["leds"], value_on=lv(a["von"]), value_off=lv(a["voff"]), reference_value=a["ref"], comparison_mode=a["cmp"],
                    use_internal_state=a["int"], **self.bright(a), **kw)
            cb = CB.BinaryParameterCallback(self.mp[a["p"] - 1], mapping_disable=self.mp[a["pd"] - 1] if a["pd"] else None, color=one(a["color"]), text=a["txt"] or None,
                text_disabled=a["txtoff"] or None, value_enable=lv(a["von"]), value_disable=lv(a["voff"]), reference_value=None if a["refdef"] else a["ref"], comparison_mode=a["cmp"],
                use_internal_state=a["int"], **self.bright(a))
        else:
            EE = imp("pyswitch.controller.callbacks.effect_enable").EffectEnableCallback
            cats = a["cats"]

            class Slot(EE):
                def _i(self, v):
                    return next((q for q, c in enumerate(cats) if v in c["v"]), -1)
                def get_effect_category(self, v):
                    q = self._i(v)
                    return self.CATEGORY_NONE if q < 0 or cats[q]["none"] else q + 1
                def _c(self, v):
                    return a["nocat"] if v is None or self._i(v) < 0 else cats[self._i(v)]
                def get_effect_category_color(self, c, v):
                    return one(self._c(v)["color"])
                def get_effect_category_text(self, c, v):
                    return self._c(v)["txt"]
            cb = Slot(self.mp[a["p"] - 1], self.mp[a["ty"] - 1])
        return PB({"callback": cb, "mode": a["mode"], "holdTimeMillis": a["hold"], "display": disp, "id": kw["id"], "useSwitchLeds": a["leds"], "enableCallback": kw["enable_callback"]})

    def observe_init(self):
        return self.obs()

    def obs(self):
        scr = vdev.ScreenView(self.main)
        lab = [scr.label_in((0, 20 * i, 100, 20)) for i in range(len(self.cfg["lab"]))]
        keys, world.HidLog.sent = world.HidLog.sent, []
        return dict(exc="", scr=int(self.dev.display.tft.shown is not self.main), sent=self.dev.port.take(), keys=keys, leds=self.dev.leds.obs(), lab=lab)

    def messages(self, m):
        if m[0] == 200:
            return [vdev.sysex(kemper.K, [0, 0, 1, 0, 127, 126, m[1] // 128, m[1] % 128])]
        return [vdev.cc(*m)]

    def step(self, a):
        for s in a["sw"]:
            self.switches[s - 1].down = not self.switches[s - 1].down
        for m in a["msgs"]:
            for x in self.messages(m):
                self.dev.recv(x)
        self.prot.lost = a["lost"]
        self.dev.tick(a["dt"])
        self.prot.lost = False
        return self.obs()


# ------------------------------------------------------------------------------------------- random configurations

class Gen:
    def __init__(self, rng, kinds, n_act=(1, 6), n_sw=(1, 3), max_px=5, pagers=(0, 1), fb=None, tuner=False):
        self.rng = rng
        self.np = 0
        self.pr, self.act, self.sw, self.lab = [], [], [], []
        self.tun, self.tpr = 0, False
        if not hasattr(self, "g"):
            self.g = [rng.choice(DIM), rng.choice(DIM), rng.choice(BRI), rng.choice(BRI)] if rng.random() < .5 else [1000, 200, 300, 20]
        self.fb = rng.random() < .5 if fb is None else fb
        for i in range(rng.randint(*pagers)):
            self.pager()
        for i in range(rng.randint(*n_act)):
            getattr(self, rng.choice(kinds))()
        if tuner:
            self.tuner()
        n = rng.randint(*n_sw)
        lists = [[] for _ in range(n)]
        for i in range(len(self.act)):
            rng.choice(lists).append(i + 1)
        px = list(range(12))
        rng.shuffle(px)
        if rng.random() < .6:
            px.sort()
        for l in lists:
            k = rng.randint(0, max_px) if rng.random() < .9 else 0
            k = min(k, len(px))
            if rng.random() < .5:
                rng.shuffle(l)
            self.sw.append(dict(px=px[:k], acts=l, nest=rng.random() < .2))
            px = px[k:]
        self.np = max([x for s in self.sw for x in s["px"]], default=-1) + 1

    def cfg(self):
        return dict(np=self.np, fb=self.fb, interval=200, tun=self.tun, tpr=self.tpr, g=self.g, pr=self.pr, lab=self.lab, sw=self.sw, act=self.act)

    def color(self, multi=False):
        r = self.rng
        return [list(r.choice(COLORS)) for _ in range(r.choice([1, 1, 2, 3, 4]) if multi else 1)]

    def label(self):
        r = self.rng
        if r.random() < .35:
            return 0
        if self.lab and r.random() < .3:
            return r.randint(1, len(self.lab))
        self.lab.append(dict(t=r.choice(["", "x", "foo bar"]), b=list(r.choice(COLORS)), c=list(r.choice(COLORS)) if r.random() < .3 else []))
        return len(self.lab)

    def enable(self):
        r = self.rng
        ps = [i for i, a in enumerate(self.act) if a["k"] == "pager"]
        if not ps or r.random() < .3:
            return dict(en=0, page=0)
        i = r.choice(ps)
        return dict(en=i + 1, page=r.choice([p["id"] for p in self.act[i]["pages"]] + ([99] if r.random() < .2 else [])))

    def common(self):
        r = self.rng
        return dict(leds=r.random() < .85, lab=self.label(), b=r.choice(BRI), **self.enable())

    def pager(self):
        r = self.rng
        ids = r.sample(range(1, 9), r.randint(1, 4))
        lab = self.label()
        c = self.common()
        if not (self.act and r.random() < .2):
            c.update(en=0, page=0)
        c["lab"] = lab
        pages = [dict(id=x, color=self.color(multi=not lab), txt=r.choice(["A", "B", "Page 3", ""])) for x in ids]
        self.act.append(dict(k="pager", pages=pages, sel=r.choice([0, 0, r.randint(1, len(ids))]), bon=r.choice(BRI), boff=r.choice(BRI), **c))
        me = len(self.act)
        if len(ids) > 1 and r.random() < .3:        # One switch for each page, as described in the documentation
            s = r.randint(1, len(ids))
            self.act[-1]["sel"] = s
            for i in range(1, len(ids) + 1):
                if i != s:
                    self.act.append(dict(k="proxy", pager=me, sel=i, **dict(self.common(), lab=0, en=0, page=0)))
        while r.random() < .5:
            c = self.common()
            c["lab"] = 0
            if r.random() < .7:
                c.update(en=0, page=0)
            self.act.append(dict(k="proxy", pager=me, sel=r.randint(1, len(ids)), **c))

    def param(self, fresh=False, lst=None, nofb=False):
        r = self.rng
        n = 2 if lst else 1
        ok = [i for i, p in enumerate(self.pr) if len(p["set"]) == n]
        if ok and not fresh and r.random() < .35:
            return r.choice(ok) + 1
        self.pr.append(dict(cc=r.randint(10, 14) if r.random() < .85 else -1, set=[r.randint(20, 29) for _ in range(n)]))
        return len(self.pr)

    def bin(self):
        r = self.rng
        lst = not self.fb and r.random() < .2
        p = self.param(lst=lst)
        c = self.common()
        n = 2 if lst else 1
        von = [r.choice([1, 1, 127, 64, 5]) for _ in range(n)]
        voff = [r.choice([0, 0, 3, 64, -1, -1]) for _ in range(n)]
        ref = von[0] if r.random() < .6 else r.choice([0, 1, 5, 64])
        fac = r.random() < .3
        self.act.append(dict(k="bin", p=p, pd=self.param(fresh=True, lst=lst) if not fac and r.random() < .2 else 0, mode=r.choice([0, 10, 20, 20, 30, 40, 50, 50, 100, 200]), hold=600,
                             von=von, voff=voff, lst=lst, ref=ref, refdef=ref == von[0] and r.random() < .7, cmp=r.choice([0, 10, 20, 20, 20, 30, 40, 999]), txt=r.choice(["", "on", "Go"]),
                             txtoff="" if fac else r.choice(["", "off"]), color=self.color(multi=not c["lab"]), bon=r.choice(BRI), boff=r.choice(BRI), don=r.choice(DIM), doff=r.choice(DIM),
                             int=r.random() < .3, factory=fac, tunact=False, **c))
        if r.random() < .5:
            o = [r.choice([0, 1, 2]) for _ in range(4)]
            for i, k in enumerate(("don", "doff", "bon", "boff")):
                if o[i]:
                    self.act[-1][k] = self.g[i if o[i] == 1 else i ^ 1]
            self.act[-1]["opt"] = o
        if not fac:
            self.act[-1]["hold"] = r.choice([600, 600, 300, 1])

    def defaults(self):
        return dict(zip(("don", "doff", "bon", "boff"), self.g))

    def tuner(self):
        r = self.rng
        self.pr.append(dict(cc=200, set=[31]))
        self.tun, self.tpr = len(self.pr), r.random() < .3
        for _ in range(r.randint(0, 1)):
            self.act.append(dict(k="bin", p=self.tun, pd=0, mode=r.choice([50, 50, 20, 30]), hold=600, von=[1], voff=[0], lst=False, ref=1, refdef=False, cmp=0, txt=r.choice(["Tuner", "t"]), txtoff="",
                                 color=self.color(), int=False, factory=False, tunact=True, **self.defaults(), **self.common()))

    def slot(self):
        r = self.rng
        c = self.common()
        cats = [dict(v=[0], none=True, color=self.color(), txt="-")] + [dict(v=[v, v + 10], none=False, color=self.color(), txt=f"T{v}") for v in (1, 2, 3)]
        self.act.append(dict(k="slot", p=self.rparam(), ty=self.rparam(), mode=r.choice([0, 10, 20, 30, 40, 50, 50, 100]), hold=r.choice([600, 300]), von=[1], voff=[0], lst=False, ref=1, cmp=20,
                             txt="", txtoff="", **self.defaults(), int=False, pd=0, cats=cats, nocat=dict(none=True, color=self.color(), txt="-"), **c))

    def rparam(self):
        p = self.param()
        while self.pr[p - 1]["cc"] < 0:
            p = self.param()
        return p

    def raw(self):
        r = self.rng
        return r.choice([[176, r.randint(1, 100), r.randint(0, 127)], [192, r.randint(0, 127)], [240, 1, 2, r.randint(0, 127), 247]])

    def rot(self):
        r = self.rng
        c = self.common()
        L = lambda f, z=.3: [f() for _ in range(r.randint(1, 3))] if r.random() > z else []
        self.act.append(dict(k="rot", msgs=L(self.raw), rel=L(self.raw, .5), lcols=L(lambda: self.color(multi=not c["lab"])), dcols=L(self.color, .6), txts=L(lambda: r.choice(["a", "b", "c"])), **c))

    def msg(self):
        c = self.common()
        self.act.append(dict(k="msg", msg=self.raw(), rel=self.raw() if self.rng.random() < .5 else [], txt=self.rng.choice(["", "m1", "m2"]), color=self.color(multi=not c["lab"]), **c))

    def hid(self):
        r = self.rng
        c = self.common()
        self.act.append(dict(k="hid", codes=[r.randint(4, 90) for _ in range(r.choice([1, 1, 2, 3]))], txt=r.choice(["", "h1"]), color=self.color(multi=not c["lab"]), **c))

    def text(self):
        r = self.rng
        c = self.common()
        c["leds"] = False
        self.act.append(dict(k="text", txt=r.choice(["t1", "t2"]), color=self.color() if r.random() < .6 else [], tcol=list(r.choice(COLORS)) if r.random() < .4 else [], **c))


class PanelBase(Component):
    spec = "Panel"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 160
    walk_budget = 60000
    kinds = ["bin"]
    gen = {}

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        return Gen(rng, self.kinds, **self.gen).cfg()

    def vals(self, cfg, rng, c):
        return rng.choice([0, 1, 1, 2, 3, 5, 11, 64, 127])

    def ccs(self, cfg):
        return sorted({p["cc"] for p in cfg["pr"] if 0 <= p["cc"] < 128}) + [77]

    def random_acts(self, rng, cfg):
        ccs = self.ccs(cfg)
        rate = rng.choice([.05, .2, .5, .8])
        alone = rng.randint(1, len(cfg["sw"])) if cfg["sw"] and rng.random() < .25 else 0     # one switch is used most
        for _ in range(rng.randint(20, 50)):
            sw = [s + 1 for s in range(len(cfg["sw"])) if rng.random() < (.4 if not alone else .7 if s + 1 == alone else .05)]
            msgs = [(lambda c: [c, self.vals(cfg, rng, c)])(rng.choice(ccs)) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < rate else []
            if cfg["tun"] and rng.random() < .25:
                msgs.append([200, rng.choice([1, 1, 1, 0, 0, 3])])
            dt = rng.choice([0, 0, 1, 100, 201, 201, 300, 301, 600, 601, 1000])
            yield dict(op="tick", dt=dt, sw=sw, msgs=msgs, lost=rng.random() < .06)


def mcp(sels, dts="{0, 201}", vals="{0, 1, 5}"):
    return [("MCPanel", f"CONSTANTS Sel = {k} Dts = {dts} Vals = {vals}\nINVARIANT Safety\n", True) for k in sels]


class Binary(PanelBase):
    name = "Binary"
    mc = mcp([1, 2, 3])
    kinds = ["bin"]
    gen = dict(n_act=(1, 4), n_sw=(1, 2), pagers=(0, 0))


class Paging(PanelBase):
    name = "Paging"
    mc = mcp([4, 5], "{201}", "{0, 1}")
    mc_thorough = mcp([4, 5])
    kinds = ["bin", "slot", "rot", "msg", "text", "bin"]
    gen = dict(n_act=(2, 7), n_sw=(1, 5), pagers=(1, 2))


class LedSegments(PanelBase):
    name = "LedSegments"
    mc = mcp([6, 7])
    kinds = ["bin", "bin", "slot", "rot", "msg", "hid", "text"]
    gen = dict(n_act=(2, 8), n_sw=(1, 3), max_px=5, pagers=(0, 1))


class Slots(PanelBase):
    name = "Slots"
    mc = mcp([8, 9])
    kinds = ["slot", "slot", "bin"]
    gen = dict(n_act=(1, 4), n_sw=(1, 2), pagers=(0, 1))


class Messages(PanelBase):
    name = "Messages"
    mc = mcp([10, 11])
    kinds = ["rot", "msg", "hid", "rot", "text"]
    gen = dict(n_act=(1, 5), n_sw=(1, 2), pagers=(0, 1))


class Tuner(PanelBase):
    name = "Tuner"
    mc = mcp([12, 13], "{0, 201}", "{0, 1}") + mcp([14], "{201}", "{0, 1}")
    mc_thorough = mcp([14], "{0, 201}", "{0, 1}")
    kinds = ["rot", "msg", "bin", "slot"]
    gen = dict(n_act=(1, 4), n_sw=(1, 3), pagers=(0, 1), tuner=True)
