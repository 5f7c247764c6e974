"""Ready-made switches for the Boomerang III (Panel specification). The table is written down from the MIDI documentation of the
device (two programs for each button) and the actions' documentation."""
import world
from c_panel import Sut, Gen, PanelBase, one, mcp, COLORS, _safe

#          name             programs   text          color
SWITCHES = {"PLAY_STOP_ALL": (17, 25, "PlayStp", (0, 255, 0)), "SYNC_SERIAL": (43, 65, "SyncSerial", (255, 255, 0)), "MUTE_THRU": (3, 8, "MuteThru", (180, 0, 120)),
            "PANIC": (11, 40, "PANIC", (255, 0, 0)), "ERASE": (16, 61, "ERASE", (255, 0, 0)), "ERASE_ALL": (28, 35, "ERASEALL", (255, 0, 0)), "STACK": (15, 23, "Stack", (255, 255, 0)),
            "COPY": (1, 4, "Copy", (0, 0, 255)), "FADE": (21, 32, "Fade", (100, 100, 255)), "OCTAVE": (2, 49, "Octave", (255, 255, 255)), "ONCE": (10, 18, "Once", (100, 255, 100)),
            "REVERSE": (47, 56, "Reverse", (64, 242, 208))}
DIMS = [300, 20, 150, 500, 1000, 80, 0]


class BoomSut(Sut):
    def __init__(self, cfg):
        n = len(cfg["act"])
        heads = [i for i, a in enumerate(cfg["act"]) if "fac" not in a or a["fac"][2] == 0]
        self.heads = {i + 1 for i in heads}
        own = dict(cfg, sw=[dict(s, acts=[i for i in s["acts"] if i in self.heads]) for s in cfg["sw"]])
        super().__init__(own)

    def action(self, i, a):
        if "fac" not in a:
            return super().action(i, a)
        name, num, k, b1, b2, color, text = a["fac"]
        if k:
            return None
        kw = dict(id=a["page"] if a["en"] else f"a{i}", enable_callback=self.acts[a["en"] - 1].enable_callback if a["en"] else None)
        if (b1, b2) != (300, 20) or color:
            kw.update(led_brightness_1=b1 / 1000, led_brightness_2=b2 / 1000)
        if color:
            kw["color"] = tuple(color)
        if text:
            kw["text"] = text
        if num > 1:
            kw["num_leds"] = num
        m = world.imp("pyswitch.clients.boomerang.actions.boomerang")
        return getattr(m, "BOOMERANG_" + name)(display=self.labels[a["lab"] - 1] if a["lab"] else None, use_leds=a["leds"], **kw)


class BoomGen(Gen):
    def boom(self):
        r = self.rng
        c = self.common()
        n = r.choice(sorted(SWITCHES))
        p1, p2, txt, col = SWITCHES[n]
        color = list(r.choice(COLORS)) if r.random() < .25 else []
        text = r.choice(["own", "B"]) if r.random() < .25 else ""
        x = color or list(col)
        dims = [d for d in DIMS if _safe(x, d)]
        b1, b2 = (300, 20) if r.random() < .6 and {300, 20} <= set(dims) else (r.choice(dims), r.choice(dims))
        d = lambda b: [[v * b // 1000 for v in x]]
        num = r.choice([1, 1, 2, 3, 4])
        c["b"] = 1000
        for i in range(num):
            lc = [d(b1), d(b2)] if num == 1 else [d(b1 if i == num - j - 1 else b2) for j in range(num)]
            self.act.append(dict(k="rot", msgs=[[207, p1], [207, p2]] if i == 0 else [], rel=[], lcols=lc, dcols=[[x]] if i == 0 else [], txts=[text or txt] if i == 0 else [],
                                 fac=[n, num, i, b1, b2, color, text], **dict(c, lab=c["lab"] if i == 0 else 0)))

    def __init__(self, rng, kinds, **kw):
        super().__init__(rng, kinds, **kw)
        # The actions created by one function come together
        for s in self.sw:
            s["acts"] = [i for i in s["acts"] if self.act[i - 1].get("fac", [0, 0, 0])[2] == 0]
            s["acts"] = [j for i in s["acts"] for j in range(i, i + (self.act[i - 1]["fac"][1] if "fac" in self.act[i - 1] else 1))]
            s["nest"] = False


class Boomerang(PanelBase):
    name = "Boomerang"
    mc = mcp([17], "{0, 201}", "{0}")
    kinds = ["boom", "boom", "boom", "msg", "rot"]
    gen = dict(n_act=(1, 4), n_sw=(1, 3), pagers=(0, 1))

    def make(self, cfg):
        return BoomSut(cfg)

    def random_cfg(self, rng):
        return BoomGen(rng, self.kinds, **self.gen).cfg()
