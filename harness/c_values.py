import struct
import world, vdev, kemper
from engine import Component
from c_panel import Splash, COLORS, BRI, DIM
from c_bank import flag
from c_inputs import K


def f32(b):
    return struct.unpack("f", struct.pack("f", b))[0]


_EXACT = {}

def exact(col, mx, bri, neg):
    """Are the code's floating point brightnesses unambiguous for this color (bri: brightness in percent)?"""
    key = (tuple(col), mx, bri, neg)
    if key not in _EXACT:
        ok = True
        for v in range(mx + 1):
            d = v / mx
            n = v
            if neg:
                d, n = 1 - d, mx - v
            for c in set(col):
                e = c * n // mx
                x = c * n * bri // (mx * 100)
                b = d * (bri / 100)
                if int(c * d) != e or int(c * b) != x or int(c * f32(b)) != x:
                    ok = False
            if not ok:
                break
        _EXACT[key] = ok
    return _EXACT[key]


class Protocol:
    """Covers all parameters except the rig (which is told without request) and polled ones"""
    def __init__(self, fb, poll=False):
        self.fb, self.poll, self.lost = fb, poll, False
    def init(self, midi, client):
        self.client = client
    def is_bidirectional(self, mapping):
        return not isinstance(mapping.response, (list, tuple)) and not (self.poll and mapping.request)
    def feedback_value(self, mapping):
        return self.fb and self.is_bidirectional(mapping)
    def get_color(self):
        return (0, 0, 0)
    def update(self):
        if self.lost:
            self.lost = False
            self.client.notify_connection_lost()
    def receive(self, msg):
        return False


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        imp = world.imp
        U = imp("pyswitch.ui.ui")
        E = imp("pyswitch.ui.elements")
        M = imp("pyswitch.controller.client").ClientParameterMapping
        PD = imp("pyswitch.controller.callbacks.parameter_display").ParameterDisplayCallback
        UD = imp("pyswitch.clients.local.actions.param_change").PARAMETER_UP_DOWN
        T = imp("pyswitch.clients.kemper.actions.tempo")
        self.mp = []
        for p in cfg["pr"]:
            if p["sys"]:
                kw = dict(set=vdev.sysex(K, [2, 127, 1, 0, p["adr"], 0]), response=vdev.sysex(K, [0, 0, 1, 0, p["adr"], 0]))
            else:
                kw = dict(set=vdev.cc(p["adr"], 0), response=vdev.cc(p["adr"], 0))
            if cfg["poll"]:
                kw["request"] = vdev.sysex(K, [2, 127, 65, 0, p["adr"], 0 if p["sys"] else 1])
            self.mp.append(M.get(name=p["name"], **kw))
        self.labels = []
        for i, l in enumerate(cfg["lab"]):
            lay = {"font": "f", "backColor": tuple(l["b"]), "text": l["t"]}
            if l["c"]:
                lay["textColor"] = tuple(l["c"])
            cb = PD(self.mp[l["p"] - 1], default_text=l["def"]) if l["p"] else None
            self.labels.append(E.DisplayLabel(bounds=U.DisplayBounds(0, 20 * i, 100, 20), layout=lay, callback=cb))
        self.flags = [flag() for _ in range(cfg["nf"])]
        acts = []
        for i, a in enumerate(cfg["act"]):
            lab = lambda n: self.labels[n - 1] if n else None
            kw = dict(display=lab(a["lab"]), id=f"a{i}", use_leds=a["leds"], color=tuple(a["col"]), enable_callback=self.flags[a["en"] - 1] if a["en"] else None)
            if a["k"] == "ud":
                if a["rep"] != 200:
                    kw["repeat_interval_millis"] = a["rep"] or None
                if a["max"] != (16383 if cfg["pr"][a["p"] - 1]["sys"] else 127):
                    kw["max_value"] = a["max"]
                if a["cv"]:
                    kw["preview_text_callback"] = lambda v, c=a["cv"]: c + str(v)
                acts.append(UD(self.mp[a["p"] - 1], a["off"], change_display=lab(a["chg"]), change_timeout_millis=a["tmo"], text=a["pre"] + "{val}" + a["suf"],
                               led_brightness=a["bri"] / 100, **kw))
            elif a["k"] == "tempo":
                acts.append(T.SHOW_TEMPO(change_display=lab(a["chg"]), change_timeout_millis=a["tmo"], text=a["pre"] + "{bpm}" + a["suf"], led_brightness=a["bri"] / 100, **kw))
            else:
                acts.append(T.TAP_TEMPO(**kw))
        self.switches = [vdev.Switch() for _ in cfg["sw"]]
        inputs = [{"assignment": {"model": m, "pixels": tuple(s["px"])}, "actions": [acts[i - 1] for i in s["acts"]]} for s, m in zip(cfg["sw"], self.switches)]
        self.prot = Protocol(cfg["fb"], cfg["poll"])
        self.dev = vdev.Device(inputs, splash_callback=Splash(self.labels), protocol=self.prot,
                               config={"updateInterval": cfg["interval"], "maxRequestLifetimeMillis": 10 ** 9, "ledBrightnessOff": cfg["boff"] / 1000, "displayDimFactorOff": cfg["doff"] / 1000})
        self.dev.init()

    def observe_init(self):
        return self.obs()

    def obs(self):
        scr = self.dev.screen()
        return dict(exc="", sent=self.dev.port.take(), leds=self.dev.leds.obs(), lab=[scr.label_in((0, 20 * i, 100, 20)) for i in range(len(self.labels))])

    def step(self, a):
        for f in a["flip"]:
            self.flags[f - 1].on = not self.flags[f - 1].on
        for s in a["btn"]:
            self.switches[s - 1].down = not self.switches[s - 1].down
        for q, v in a["msgs"]:
            if q > 0:
                p = self.cfg["pr"][q - 1]
                self.dev.recv(vdev.sysex(K, [0, 0, 1, 0, p["adr"], 0, v // 128, v % 128]) if p["sys"] else vdev.cc(p["adr"], v))
            elif q == -4:
                for m in kemper.rig_id(v):
                    self.dev.recv(m)
            else:
                self.dev.recv(kemper.resp(0x7c, 0, v) if q == -1 else kemper.resp(0x7f, 0x7e, v) if q == -2 else kemper.resp(4, 0, v))
        self.prot.lost = a["lost"]
        self.dev.tick(a["dt"])
        self.prot.lost = False
        return self.obs()


class ValuesBase(Component):
    spec = "Values"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 240
    walk_budget = 40000
    kinds = ["ud"]

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        r = rng
        pr = [dict(name=r.choice(["A", "Gain", "x y"]) + str(i), sys=r.random() < .4, adr=40 + i) for i in range(r.randint(1, 3))]
        lab = []
        def label(p=0):
            lab.append(dict(t=r.choice(["", "x", "hello you"]), b=list(r.choice(COLORS + [(0, 0, 0)])), c=list(r.choice(COLORS)) if r.random() < .3 else [], p=p, **{"def": r.choice(["", "?"])}))
            return len(lab)
        own, prev = [], []
        def mine():
            if r.random() < .2:
                return 0
            if own and r.random() < .4:
                return r.choice(own)
            own.append(label())
            return own[-1]
        def preview():
            if r.random() < .3:
                return 0
            if not prev or r.random() < .3:
                prev.append(label(r.choice([0, r.randint(1, len(pr))])))
            return r.choice(prev)
        nf = r.choice([0, 1, 2])
        act = []
        for _ in range(r.randint(1, 4)):
            k = r.choice(self.kinds)
            c = dict(k=k, lab=mine(), leds=r.random() < .85, en=r.choice([0, r.randint(1, nf)]) if nf else 0, col=list(r.choice(COLORS)))
            tmo = r.choice([300, 1500, 1000, 0])
            if k == "ud":
                p = r.randint(1, len(pr))
                for _ in range(200):
                    mx = r.choice([16383, 16383, 1023, 100]) if pr[p - 1]["sys"] else r.choice([127, 127, 64, 5])
                    off = r.choice([1, 3, 10, 512, mx, 2000]) * r.choice([1, -1])
                    bri = r.choice([30, 30, 50, 100, 15, 8, 0])
                    if exact(c["col"], mx, bri, off < 0):
                        break
                    c["col"] = list(r.choice(COLORS))
                else:
                    raise Exception("no exact color")
                c.update(p=p, off=off, max=mx, rep=r.choice([200, 200, 0, 400, 150, 1000]), pre=r.choice(["", "V ", ""]), suf=r.choice(["%", ""]), bri=bri, chg=preview(), tmo=tmo, cv=r.choice(["", "", "v"]))
            elif k == "tempo":
                b = [x for x in (2, 2, 30, 100, 15, 50, 8) if all(int(q * (x / 100)) == q * x // 100 == int(q * f32(x / 100)) for q in c["col"])]
                c.update(chg=preview(), tmo=tmo, pre=r.choice(["", "T="]), suf=r.choice([" bpm", ""]), bri=r.choice(b))
            act.append(c)
        n = r.randint(1, len(act))
        lists = [[] for _ in range(n)]
        for i in range(len(act)):
            lists[i if i < n else r.randint(0, n - 1)].append(i + 1)
        px = list(range(3 * n))
        sw = []
        for l in lists:
            q = r.choice([0, 1, 2, 3, 3])
            sw.append(dict(px=px[:q], acts=l))
            px = px[q:]
        return dict(np=max([x for s in sw for x in s["px"]], default=-1) + 1, interval=200, fb=r.random() < .6, poll=r.random() < .4, boff=r.choice([b for b in BRI if b < 500]), doff=r.choice([d for d in DIM if d < 1000]),
                    nf=nf, pr=pr, lab=lab, sw=sw, act=act)

    def random_acts(self, rng, cfg):
        r = rng
        tempo = any(a["k"] == "tempo" for a in cfg["act"])
        rigs = r.sample([0, 1, 5, 130, 600], 2)
        bpms = r.sample([7680, 7744, 7712, 7648, 6431, 0, 16383], 4)
        for _ in range(r.randint(25, 60)):
            msgs = []
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                if tempo and r.random() < .8:
                    q = r.choice([-1, -1, -1, -2, -3, -3, -4])
                    msgs.append([q, {-1: r.choice([0, 1, 1]), -2: r.choice([1, 3, 3, 0]), -3: r.choice(bpms), -4: r.choice(rigs)}[q]])
                else:
                    p = r.randint(1, len(cfg["pr"]))
                    mx = 16383 if cfg["pr"][p - 1]["sys"] else 127
                    msgs.append([p, r.choice([0, 1, 2, 5, mx, mx - 1, mx // 2, r.randint(0, mx)])])
            yield dict(op="tick", dt=r.choice([0, 0, 1, 100, 151, 201, 201, 201, 301, 401, 1001]), btn=[s + 1 for s in range(len(cfg["sw"])) if r.random() < .3], msgs=msgs,
                       lost=r.random() < .05, flip=[f for f in range(1, cfg["nf"] + 1) if r.random() < .12])


def mcv(sels, dts="{201, 401}"):
    return [("MCValues", f"CONSTANTS Sel = {k} Dts = {dts}\nINVARIANT Safety\n", True) for k in sels]


class UpDown(ValuesBase):
    name = "ParamUpDown"
    kinds = ["ud"]
    mc = mcv([1, 2, 5])


class Tempo(ValuesBase):
    name = "Tempo"
    kinds = ["tempo", "tempo", "tap", "ud"]
    mc = mcv([3, 4, 6])
