"""The screen: areas, labels, parameter displays, connection dot, several screens, low memory."""
import world, vdev, kemper
from vdev import col
from engine import Component

CUTS = ["remove_from_top", "remove_from_bottom", "remove_from_left", "remove_from_right"]
LOOKS = ["top", "bottom", "left", "right", "translated", "with_position"]


class Protocol:
    """A bidirectional protocol which covers all parameters"""
    def __init__(self):
        self.lost, self.color = False, (0, 0, 0)
    def init(self, midi, client): self.client = client
    def is_bidirectional(self, mapping): return True
    def feedback_value(self, mapping): return False
    def get_color(self): return self.color
    def receive(self, msg): return False
    def update(self):
        if self.lost:
            self.lost = False
            self.client.notify_connection_lost()


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        world.Mem.free = cfg["lim"] - (1 if cfg["low"] else 0)
        U = world.imp("pyswitch.ui.ui")
        L = world.imp("pyswitch.ui.layout")
        D = world.imp("pyswitch.ui.DisplaySplitContainer")
        E = world.imp("pyswitch.ui.elements")
        K = world.imp("pyswitch.clients.kemper")
        T = world.imp("pyswitch.clients.kemper.callbacks.tempo_bpm")
        P = world.imp("pyswitch.controller.callbacks.parameter_display").ParameterDisplayCallback
        Cb = world.imp("pyswitch.controller.callbacks").Callback
        M = world.imp("pyswitch.controller.client").ClientParameterMapping
        rest, parts = U.DisplayBounds(0, 0, 240, 240), []
        for q in cfg["cuts"]:
            f = getattr(L, q["f"])
            parts.append(f(rest, q["n"], q["m"]) if q["f"] in ("translated", "with_position") else f(rest, q["n"]))
        area = [rest] + parts
        mp = lambda i: K.KemperMappings.RIG_NAME() if cfg["pr"][i - 1] == "str" else M.get(name=f"p{i}", response=vdev.cc(i, 0))
        conv = [None, lambda v: None if v is None else f"{v} dB".strip(), lambda v: None, lambda v: "-" if v is None else v]
        self.el, tops = [], {1: [], 2: []}
        for e in cfg["el"]:
            if e["k"] == "none":
                x = None
            elif e["k"] == "box":
                x = U.DisplayElement(bounds=area[e["a"] - 1])
            elif e["k"] in ("hsplit", "vsplit"):
                x = D.DisplaySplitContainer(direction=D.DisplaySplitContainer.HORIZONTAL if e["k"] == "hsplit" else D.DisplaySplitContainer.VERTICAL, bounds=area[e["a"] - 1])
            elif e["k"] == "dot":
                x = E.BidirectionalProtocolState(bounds=area[e["a"] - 1])
            else:
                lay = dict(font="f", text=" ".join(e["t"]), stroke=e["s"], lineSpacing=e["ls"] / 100)
                if e["b"]: lay["backColor"] = tuple(e["b"])
                if e["c"]: lay["textColor"] = tuple(e["c"])
                if e["w"]: lay["maxTextWidth"] = e["w"]
                cb = None
                if e["p"]:
                    cb = T.KemperTempoDisplayCallback() if cfg["pr"][e["p"] - 1] == "bpm" else P(mapping=mp(e["p"]), convert_value=conv[e["conv"]], default_text=" ".join(e["d"]))
                x = E.DisplayLabel(layout=lay, bounds=area[e["a"] - 1], scale=e["sc"], callback=cb)
            self.el.append(x)
            if e["up"]:
                self.el[e["up"] - 1].add(x)
            else:
                tops[e["r"]].append(x)
        roots = {r: U.DisplayElement(bounds=U.DisplayBounds(0, 0, 240, 240), children=tops[r]) for r in (1, 2)}

        class Two(Cb):
            def __init__(self):
                self.m = mp(cfg["sp"])
                super().__init__(mappings=[self.m])
            def get_root(self):
                return roots[2 if (self.m.value or 0) >= 64 else 1]

        self.prot = Protocol()
        S = world.imp("pyswitch.clients.local.callbacks.splashes").SplashesCallback
        self.dev = vdev.Device([], splash_callback=Two() if cfg["sp"] else S(roots[1]), protocol=self.prot, config={"updateInterval": cfg["interval"], "memoryWarnLimitBytes": cfg["lim"]})
        self.dev.init()

    def observe_init(self):
        return self.obs()

    def obs(self):
        v = self.dev.screen()
        return dict(exc="", rects=[dict(r=[x, y, r.width, r.height], f=col(r.fill)) for x, y, r in v.rects],
                    texts=[dict(t=e.text, c=col(e.color), p=[x, y], sc=e.scale, ls=int(round(e.line_spacing * 100))) for x, y, e in v.labels])

    def step(self, a):
        for m in a["msgs"]:
            k = self.cfg["pr"][m["p"] - 1]
            self.dev.recv(vdev.cc(m["p"], m["v"]) if k == "num" else kemper.resp_str(1, " ".join(m["v"])) if k == "str" else kemper.resp(4, 0, m["v"]))
        self.prot.lost = self.prot.lost or a["lost"]
        self.prot.color = tuple(a["dot"])
        self.dev.tick(a["dt"])
        for u in a["user"]:
            x = self.el[u["l"] - 1]
            if u["op"] == "text": x.text = " ".join(u["v"])
            elif u["op"] == "back": x.back_color = tuple(u["v"])
            elif u["op"] == "tc": x.text_color = tuple(u["v"]) or None
            else: x.update_label()
        return self.obs()


WORDS = ["a", "Rig", "Plexi", "Clean", "very-long-word-indeed", "x2", "Solo!", "99%"]


class Display(Component):
    name = "Display"
    spec = "Display"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 400
    mc = [("MCDisplay", f"CONSTANTS Sel = {k} Dts = {d}\nINVARIANT Safety\n", True) for k, d in ((1, "{0, 201}"), (2, "{0, 201}"), (3, "{0, 201}"), (4, "{0, 201}"))]

    def make(self, cfg):
        return Sut(cfg)

    def color(self, r):
        return r.choice([[0, 0, 0], [255, 255, 255], [r.randrange(256) for _ in range(3)], [r.randrange(256) for _ in range(3)]])

    def words(self, r, n=6):
        return [r.choice(WORDS) for _ in range(r.randint(0, n))]

    def random_cfg(self, r):
        cuts, w, h = [], 240, 240
        only = r.random() < .6
        for _ in range(r.randint(1, 7)):
            f = r.choice(CUTS if only else CUTS + LOOKS)
            if f in ("translated", "with_position"):
                cuts.append(dict(f=f, n=r.randint(-5, 60), m=r.randint(-5, 60)))
                continue
            d = h if f in ("remove_from_top", "remove_from_bottom", "top", "bottom") else w
            n = r.randint(0, min(d, 90))
            if f in CUTS[:2]: h -= n
            if f in CUTS[2:]: w -= n
            cuts.append(dict(f=f, n=n, m=0))
        pr = r.choice([["num"], ["num", "str"], ["num", "bpm"], ["num", "num", "str", "bpm"], ["num", "str", "num"]])
        el, path = [], []
        sp = r.choice([0, 1])
        root = 1
        for i in range(r.randint(1, 14)):
            if sp and root == 1 and r.random() < .25:
                root, path = 2, []
            while path and r.random() < .2:
                path.pop()
            k = r.choice(["lab", "lab", "lab", "lab", "lab", "dot", "box", "none", "hsplit", "vsplit"])
            if k == "dot" and path and el[path[-1] - 1]["k"] != "box":       # A state dot derives its size from its area: it needs an own one
                k = "lab"
            e = dict(k=k, r=root, up=path[-1] if path else 0, a=r.randint(1, len(cuts) + 1))
            if k in ("box", "hsplit", "vsplit"):
                path.append(i + 1)
            if k == "lab":
                e.update(b=self.color(r) if r.random() < .6 else [], c=self.color(r) if r.random() < .4 else [], s=r.choice([0, 1, 2]), w=r.choice([0, 30, 70, 220]),
                         t=self.words(r, 3), p=r.choice([0] + list(range(1, len(pr) + 1)) * 2), conv=r.choice([0, 0, 1, 2, 3]), d=self.words(r, 2), sc=r.choice([1, 1, 2]),
                         ls=r.choice([100, 80, 125]))
            el.append(e)
        return dict(interval=r.choice([0, 10, 200]), low=r.random() < .25, lim=r.choice([15360, 15360, 1000, 60000]), cuts=cuts, pr=pr, sp=sp, el=el)

    def random_acts(self, r, cfg):
        labs = [i + 1 for i, e in enumerate(cfg["el"]) if e["k"] == "lab"]
        dot = [0, 0, 0]
        for _ in range(r.randint(8, 30)):
            msgs = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
                p = r.randint(1, len(cfg["pr"]))
                k = cfg["pr"][p - 1]
                msgs.append(dict(p=p, v=r.choice([0, 1, 63, 64, 100, 127]) if k == "num" else self.words(r, 5) if k == "str" else r.choice([0, 31, 32, 33, 96, 160, 7680, 7712, 16383, r.randrange(16384)])))
            if r.random() < .3:
                dot = self.color(r)
            us = []
            if labs and r.random() < .3:
                for _ in range(r.randint(1, 3)):
                    l = r.choice(labs)
                    op = r.choice(["text", "back", "tc", "upd"])
                    if op == "back" and not cfg["el"][l - 1]["b"]:
                        op = "text"
                    us.append(dict(l=l, op=op, v=self.words(r) if op == "text" else self.color(r) if op == "back" else r.choice([[], self.color(r)]) if op == "tc" else []))
            yield dict(op="tick", dt=r.choice([0, 1, 10, 11, 100, 201, 1000]), msgs=msgs, lost=r.random() < .1, dot=dot, user=us)
