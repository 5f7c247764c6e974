"""Explore mode on the simulated board."""
import contextlib, io
import world, hwboard
from vdev import ScreenView, col
from engine import Component

ALONE = """
import board
from pyswitch.controller.explore import ExploreModeController
from pyswitch.ui.UiController import UiController
from pyswitch.hardware.adafruit.AdafruitSwitch import AdafruitSwitch
from pyswitch.hardware.adafruit import AdafruitFontLoader, AdafruitNeoPixelDriver
class F:
    def create_switch(self, port):
        return AdafruitSwitch(port)
class Tft:
    shown = None
    def show(self, g):
        self.shown = g
class D:
    width, height, tft = 240, 240, Tft()
c = ExploreModeController(board = board, switch_factory = F(), led_driver = AdafruitNeoPixelDriver(), ui = UiController(display_driver = D(), font_loader = AdafruitFontLoader()), num_pixels_per_switch = {n}, num_port_columns = {cols})
board.TFT = D.tft
c.init()
while c.tick():
    pass
"""


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        self.b = b = hwboard.Board(cfg["pins"])
        b.fixed = set(cfg["busy"])
        self.con = io.StringIO()
        with contextlib.redirect_stdout(self.con):
            self.m = hwboard.Machine(b, {"config": "Config = {'exploreMode': True}\n"}, None if cfg["std"] else ALONE.format(**cfg))
            self.m.tick()
        self.con.truncate(0)

    def observe_init(self):
        return self.obs([])

    def obs(self, con):
        import board
        tft = self.b.tft if self.cfg["std"] else getattr(board, "TFT", None)
        scr = ScreenView(tft.shown if tft else None)
        labels = []
        for x, y, e in scr.labels:
            box = [[rx, ry, r.width, r.height, col(r.fill)] for rx, ry, r in scr.rects if rx <= x < rx + r.width and ry <= y < ry + r.height]
            box = box[-1] if box else [0, 0, 0, 0, [-1]]
            labels.append(dict(t=e.text, p=[x, y], c=col(e.color), f=box[4], r=box[:4]))
        pix = [l for l in labels if l["p"][1] >= 200]
        return dict(exc="", run=self.m.ended, leds=[list(x) for x in self.b.leds.get(7, [])], labels=[l for l in labels if l["p"][1] < 200], pix=pix[0] if len(pix) == 1 else {}, con=con)

    def step(self, a):
        self.b.low ^= set(a["pins"])
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            self.m.tick(a["dt"])
        return self.obs([x for x in s.getvalue().splitlines() if x])


class Explore(Component):
    name = "Explore"
    spec = "Explore"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 160
    mc = [("MCExplore", f"CONSTANTS Sel = {k} Dts = {{0}}\nINVARIANT Safety\n", True) for k in range(1, 5)]

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, r):
        std = r.random() < .6
        need = [7, 12, 13, 14, 15]
        k = r.choice([1, 2, 5, 6, 9, 11, 24])
        pins = need + r.sample([p for p in range(29) if p not in need], min(k, 29 - len(need)))
        busy = r.sample([p for p in pins if p not in need], min(len(pins) - len(need) - 1, r.choice([0, 0, 1, 3])))
        return dict(std=std, pins=sorted(pins), busy=busy, n=3 if std else r.choice([1, 2, 3, 4]), cols=5 if std else r.choice([1, 2, 3, 4, 5, 7, 30]))

    def random_acts(self, r, cfg):
        for _ in range(r.randint(8, 25)):
            yield dict(op="tick", dt=r.choice([0, 10, 300]), pins=r.sample(range(29), r.choice([0, 1, 2, 5, 12])))
