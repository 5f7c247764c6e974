"""Tuner screen and strobe tuner."""
from fractions import Fraction as F
import world, vdev, kemper
from engine import Component
from c_panel import COLORS
from c_values import f32, Protocol
from vdev import col

NAMES = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"]
GREEN, ORANGE = [0, 255, 0], [255, 125, 0]


def led_exact(c, num, den, b):
    """c * b = c * num / den without rounding trouble?"""
    return int(c * b) == c * num // den == int(c * f32(b))


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        imp = world.imp
        U, E, Kp = imp("pyswitch.ui.ui"), imp("pyswitch.ui.elements"), imp("pyswitch.clients.kemper")
        CM = imp("pyswitch.clients.local.actions.custom").CUSTOM_MESSAGE
        b = U.DisplayBounds(*cfg["b"])
        self.root = U.DisplayElement(bounds=b)
        kw = dict(color_in_tune=tuple(cfg["cin"]), color_out_of_tune=tuple(cfg["cout"]), calibration_high=cfg["hi"], calibration_low=cfg["lo"],
                  note_names=None if cfg["names"] == NAMES else tuple(cfg["names"]))
        tuner = None
        if not cfg["std"]:
            tuner = E.TunerDisplay(mapping_note=Kp.KemperMappings.TUNER_NOTE() if cfg["hn"] else None, mapping_deviance=Kp.KemperMappings.TUNER_DEVIANCE() if cfg["hd"] else None,
                                   bounds=b, layout={"font": "f"}, scale=2, deviance_height=cfg["dh"], deviance_width=cfg["dw"], deviance_zoom=cfg["zoom"] / 100 if cfg["zoom"] != 100 else 1, **kw)
            kw = {}
        st = cfg["st"]
        if st["on"] and not st["own"]:
            kw.update(strobe=True, strobe_color=tuple(st["col"]), strobe_dim=st["dim"] / 100, strobe_speed=st["speed"] / 2000, strobe_max_fps=st["fps"], strobe_reverse=st["rev"])
        splash = Kp.TunerDisplayCallback(splash_default=self.root, splash_tuner=tuner, process_overridden_actions=cfg["tpr"], **kw)
        self.switches = [vdev.Switch() for _ in cfg["sw"]]
        inputs = []
        for i, (s, m) in enumerate(zip(cfg["sw"], self.switches)):
            acts = [CM(message=[176, i + 1, 1], message_release=[176, i + 1, 0], color=tuple(s["col"]), led_brightness=s["bri"] / 100, text="x")] if s["k"] else []
            asg = {"model": m, "pixels": tuple(s["px"])}
            if s["ord"]:
                asg["strobeOrder"] = s["ord"]
            inputs.append({"assignment": asg, "actions": acts})
        self.dev = vdev.Device(inputs, splash_callback=splash, protocol=Protocol(cfg["fb"]), config={"updateInterval": 200})
        if st["own"]:
            imp("pyswitch.controller.strobe").StrobeController(
                mapping_state=Kp.KemperMappings.TUNER_MODE_STATE(), mapping_deviance=Kp.KemperMappings.TUNER_DEVIANCE(), dim_factor=st["dim"] / 100, speed=st["speed"] / 2000,
                width=st["w"] / 10, color=tuple(st["col"]), max_fps=st["fps"], reverse=st["rev"]).init(self.dev.ctl)
        self.dev.init()
        self.dev.tick(0)

    def observe_init(self):
        return self.obs()

    def obs(self):
        cfg, scr = self.cfg, self.dev.screen()
        on = 0 if self.dev.display.tft.shown is self.root.splash else 1
        note, bar = [], []
        if on and cfg["hn"]:
            note = scr.label_in(cfg["b"])[:2]
        if on and cfg["hd"]:
            bar = [[x, y, e.width, e.height, col(e.fill)] for x, y, e in scr.rects]
        return dict(exc="", sent=self.dev.port.take(), leds=self.dev.leds.obs(), scr=on, note=note, bar=bar)

    def step(self, a):
        for s in a["btn"]:
            self.switches[s - 1].down = not self.switches[s - 1].down
        for q, v in a["msgs"]:
            self.dev.recv({"mode": lambda: kemper.resp(0x7f, 0x7e, v), "note": lambda: kemper.resp(0x7d, 0x54, v), "dev": lambda: kemper.resp(0x7c, 0x0f, v)}[q]())
        self.dev.tick(a["dt"])
        return self.obs()


def level_exact(st, n, sp):
    """Are the levels of the LEDs unambiguous at this position?"""
    w, S = F(st["w"], 10), st["speed"]
    wf = st["w"] / 10
    for k in range(n):
        p, q = F(sp, S) + F(k, n), (sp % float(S)) / S + k / n
        if p > 1:
            p -= 1
        while q > 1:
            q -= 1
        if abs(float(p) - q) > 1e-6:
            return False
        l = 16 * (1 - p / w) if p <= w else 16 * (p - 1 + w) / w if p >= 1 - w else F(0)
        m = 1 - q * (1 / wf) if q <= wf else (q - 1 + wf) * (1 / wf) if q >= 1 - wf else 0
        if int(m * 16) != l.numerator // l.denominator:
            return False
    return True


class Filter:
    """Follows the position of the strobe, only to leave out reports where the floating point result is a matter of rounding"""
    def __init__(self, cfg):
        self.st, self.n = cfg["st"], len(cfg["sw"])
        self.fb, self.tpr = cfg["fb"], cfg["tpr"]
        self.sp, self.el, self.on = 0, 0, False
        self.iv = 1000 * self.n // self.st["fps"]
    def mode(self, v):
        if v == 1 and not self.on:
            self.el = 0
        self.on = v == 1
    def dev(self, v):
        st = self.st
        if not (st["on"] and self.n > 1 and self.on and self.el > self.iv):
            return True
        d = 8191 - v if st["rev"] else v - 8191
        th = 100 * self.iv
        d = max(-th, min(d, th))
        if abs(d * self.el) > 10**9:
            return False
        sp = (self.sp - d * self.el) % st["speed"]
        if not level_exact(st, self.n, sp):
            return False
        self.sp, self.el = sp, 0
        return True


class Tuner(Component):
    name = "Tuner"
    spec = "Tuner"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 300
    walk_budget = 40000
    mc = [("MCTuner", f"CONSTANTS Sel = {k} Dts = {{25}}\nINVARIANT Safety\n", True) for k in (1, 2, 3, 4, 5)]


    def make(self, cfg):
        cfg = dict(cfg)
        cfg.setdefault("std", False)
        return Sut(cfg)

    def random_cfg(self, r):
        std = r.random() < .5
        w, h = r.choice([240, 205, 100, 121]), r.choice([240, 100])
        n = r.choice([1, 2, 2, 3, 4, 4, 6, 10])
        px, sw = 0, []
        for _ in range(n):
            m = r.choice([0, 1, 3, 3, 2])
            while True:
                c, bri = list(r.choice(COLORS)), r.choice([30, 50, 100, 15])
                if all(led_exact(x, bri, 100, bri / 100) for x in c):
                    break
            sw.append(dict(px=list(range(px, px + m)), k=int(r.random() < .6), col=c, bri=bri, ord=r.choice([0, r.randint(1, 12)])))
            px += m
        while True:
            c, dim = list(r.choice(COLORS + [(255, 255, 255)])), r.choice([10, 10, 50, 100, 25])
            if all(led_exact(x, l * l * dim, 25600, (l / 16 * (l / 16)) * (dim / 100)) for x in c for l in range(17)):
                break
        on = r.random() < .75
        own = on and r.random() < .25
        st = dict(on=on, own=own, col=c, dim=dim, speed=2000 * r.choice([997, 97, 1000, 1009, 7, 1]), w=r.choice([3, 5, 1, 2]) if own else 3, fps=r.choice([120, 120, 30, 60, 1000, 3]), rev=r.random() < .5)
        zoom = 240 if std else r.choice([100, 240, 500, 1000, 50, 300])
        lo, hi = r.choice([(7842, 8542), (7842, 8542), (8192, 8192), (0, 8191), (8000, 16383)])
        names = NAMES if r.random() < .7 else ["do", "do#", "re", "re#", "mi", "fa", "fa#", "so", "so#", "la", "la#", "ti"]
        return dict(std=std, b=[r.choice([0, 5, 120]), r.choice([0, 10])] + [w, h], dh=40 if std else r.choice([40, 17, 5]), dw=5 if std else r.choice([5, 1, 8]), zoom=zoom, lo=lo, hi=hi, names=names,
                    cin=GREEN if r.random() < .5 else [1, 2, 3], cout=ORANGE if r.random() < .5 else [9, 8, 7], hn=std or r.random() < .8, hd=std or r.random() < .8,
                    tpr=r.random() < .4, fb=r.random() < .7, np=px, sw=sw, st=st)

    def random_acts(self, r, cfg):
        flt = Filter(cfg)
        down, pb = [False] * len(cfg["sw"]), False
        z = cfg["zoom"] / 100 if cfg["zoom"] != 100 else 1
        def ok(v):
            d = v - 8192
            e = abs(d) * cfg["zoom"] // 100 * (1 if d >= 0 else -1)
            return int(d * z) == e
        devs = [v for v in [8191, 8192, 8193, 0, 16383, cfg["lo"], cfg["lo"] - 1, cfg["hi"], cfg["hi"] + 1, 8200, 8100, 4000, 12000, 8190, r.randint(0, 16383), r.randint(8000, 8400)] if 0 <= v < 16384 and ok(v)]
        iv = flt.iv
        for _ in range(r.randint(25, 60)):
            dt = r.choice([0, 0, 1, 5, 10, 50, iv, iv + 1, iv + 1, iv + 1, iv + 7, 201, 300])
            if flt.on:
                flt.el += dt
            btn = [s + 1 for s in range(len(down)) if r.random() < .04]
            for s in btn:
                down[s - 1] = not down[s - 1]
                if flt.on and down[s - 1]:
                    pb = True
                elif flt.on and pb:
                    pb = False
                    if cfg["fb"]:
                        flt.mode(0)
            msgs = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                q = r.choice(["dev", "dev", "dev", "dev", "note", "mode"])
                if q == "mode":
                    v = r.choice([1, 1, 1, 0, 3]) if flt.on else 1 if r.random() < .8 else 0
                    flt.mode(v)
                    if v != 1:
                        pb = False
                elif q == "note":
                    v = r.choice([0, 11, 12, 60, 127, r.randint(0, 127)])
                else:
                    v = r.choice(devs)
                    if not flt.dev(v):
                        continue
                msgs.append([q, v])
            yield dict(op="tick", dt=dt, btn=btn, msgs=msgs)
