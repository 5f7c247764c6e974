"""The whole firmware on the board: boot.py, code.py, device definitions, drivers, MIDI byte streams."""
import world, vdev, hwboard
from engine import Component

SW = {"10": ["1", "2", "3", "4", "Up", "A", "B", "C", "D", "Down"], "mini": ["1", "2", "3", "A", "B", "C"], "nano": ["1", "2", "A", "B"]}
MODULE = {"10": "pa_midicaptain_10", "mini": "pa_midicaptain_mini_6", "nano": "pa_midicaptain_nano_4"}
PREFIX = {"10": "PA_MIDICAPTAIN_10_", "mini": "PA_MIDICAPTAIN_MINI_", "nano": "PA_MIDICAPTAIN_NANO_"}
CONST = {"Up": "SWITCH_UP", "Down": "SWITCH_DOWN", "ExpSw1": "EXP_SWITCH_1", "ExpSw2": "EXP_SWITCH_2", "WhlButton": "WHEEL_BUTTON", "Exp1": "EXP_PEDAL_1", "Exp2": "EXP_PEDAL_2", "Wheel": "WHEEL_ENCODER"}
COLORS = [c for c in [(200, 100, 50), (255, 0, 0), (0, 255, 0), (100, 100, 100), (10, 20, 30), (255, 255, 255), (0, 50, 250), (5, 250, 90)] if all(int(x * .2) == x * 20 // 100 for x in c)]


def wire(m, run=None):
    k, ch, a, b = m
    return bytes({"cc": [176 + ch, a, b], "pc": [192 + ch, a], "sx": [240, 0, 32, 51, a, b, 247], "no": [144 + ch, a, b]}[k])


def files(cfg):
    ends = {1: "usb", 2: "din"}
    used = sorted({x for r in cfg["routes"] for x in r} - {0})
    def port(d):
        c = cfg[ends[d]]
        return f"{ends[d]} = {['', 'PA_MIDICAPTAIN_USB_MIDI', 'PA_MIDICAPTAIN_DIN_MIDI'][d]}(in_channel = {c['inc'] if c['inc'] >= 0 else None}, out_channel = {c['outc']})\n"
    name = lambda x: "MidiRouting.APPLICATION" if x == 0 else ends[x]
    com = ("from pyswitch.controller.midi import MidiRouting\nfrom pyswitch.hardware.devices.pa_midicaptain import *\nfrom pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_USB_MIDI, PA_MIDICAPTAIN_DIN_MIDI\n"
           + "".join(port(d) for d in used)
           + "Communication = {\"midi\": {\"routings\": [" + ", ".join(f"MidiRouting(source = {name(s)}, target = {name(t)})" for s, t in cfg["routes"]) + "]}}\n")
    conf = "Config = " + repr(dict({"updateInterval": 10**7, "clearBuffers": cfg["clear"]}, **({"enableMidiBridge": True} if cfg["bridge"] else {}), **({"debugStats": True, "debugStatsInterval": 10**7} if cfg["stats"] else {}))) + "\n"
    disp = """from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
from pyswitch.controller.callbacks import Callback
from pyswitch.controller.callbacks.parameter_display import ParameterDisplayCallback
from pyswitch.controller.client import ClientParameterMapping
from pyswitch.controller.midi import ControlChange
LABEL = DisplayLabel(bounds = DisplayBounds(0, 0, 100, 20), layout = {"font": "/fonts/H20.pcf"},
    callback = ParameterDisplayCallback(ClientParameterMapping.get(name = "x", response = ControlChange(119, 0)), default_text = "?"))
ROOT = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [LABEL])
class _Splash(Callback):
    def get_root(self):
        return ROOT
Splashes = _Splash()
"""
    inp = [f"from pyswitch.hardware.devices.{MODULE[cfg['dev']]} import *", "from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE", "from pyswitch.clients.local.actions.binary_switch import BINARY_SWITCH",
           "from pyswitch.controller.actions import PushButtonAction, Action", "from pyswitch.controller.actions.AnalogAction import AnalogAction", "from pyswitch.controller.actions.EncoderAction import EncoderAction",
           "from pyswitch.controller.client import ClientParameterMapping", "from pyswitch.controller.midi import ControlChange",
           "from pyswitch.controller.callbacks import Callback",
           "class Broken(Callback):\n    def init(self, appl, listener = None):\n        pass\n    def push(self):\n        raise OSError('broken')\n    def release(self):\n        pass\n    def update_displays(self):\n        self.action.switch_color = self.c\n        self.action.switch_brightness = .2",
           "def broken(c):\n    b = Broken()\n    b.c = c\n    return Action({'callback': b, 'useSwitchLeds': True})",
           "def m(n):\n    return ClientParameterMapping.get(name = 'p' + str(n), set = ControlChange(n, 0))"]
    items = []
    for i in cfg["inp"]:
        n = i["n"]
        const = PREFIX[cfg["dev"]] + CONST.get(n, "SWITCH_" + n)
        if n in ("Exp1", "Exp2"):
            acts = [f"AnalogAction(m({i['num']}))"]
        elif n == "Wheel":
            acts = [f"EncoderAction(m({i['num']}))"]
        else:
            acts = []
            for a in i["acts"]:
                if a["k"] == "msg":
                    acts.append(f"CUSTOM_MESSAGE(message = [144, {a['num']}, 100], message_release = [128, {a['num']}, 0], color = {tuple(a['c'])}, led_brightness = .2)")
                elif a["k"] == "cc":
                    acts.append(f"BINARY_SWITCH(m({a['num']}), mode = PushButtonAction.MOMENTARY, value_on = 127, use_leds = False)")
                else:
                    acts.append(f"broken({tuple(a['c'])})")
        items.append(f"{{\"assignment\": {const}, \"actions\": [{', '.join(acts)}]}}")
    if cfg["fail"]:
        inp.append("raise KeyError('broken file')")
    inp.append("Inputs = [" + ", ".join(items) + "]\n")
    return {"config": conf, "communication": com, "display": disp, "inputs": "\n".join(inp)}


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        self.b = b = hwboard.Board()
        if cfg["boot"]:
            b.low.add(1)
        hwboard.boot(b)
        b.low.clear()
        for k, ms in zip(("usb", "din"), cfg["pre"]):
            for m in ms:
                b.rx[k] += wire(m)
        self.m = hwboard.Machine(b, files(cfg))
        self.m.tick(0)

    def observe_init(self):
        b = self.b
        o = dict(drive=b.usb_drive, writable=b.writable, reload=b.autoreload, disp=b.tft.d if b.tft else [], uart=b.uart, bridged=b.bridged)
        o.update(self.obs())
        return o

    def obs(self):
        b, e = self.b, self.m.ended
        tx = {k: list(v) for k, v in b.tx.items()}
        for v in b.tx.values():
            v.clear()
        leds = [list(x) for x in b.leds.get(7, [])]
        lab = vdev.ScreenView(b.tft.shown).label_in((0, 0, 100, 20))[0] if b.tft and b.tft.shown is not None else ""
        return dict(exc="", run="bridge " + ",".join(b.bridge) if b.bridge and e == "end" else e, usb=tx["usb"], din=tx["din"], leds=leds, lab=lab)

    def step(self, a):
        b = self.b
        b.low ^= set(a["pins"])
        b.adc = {27: a["adc"][0], 28: a["adc"][1]}
        b.quad = {(2, 3): 2 * a["quad"]}
        for k in ("usb", "din"):
            for m in a[k]:
                b.rx[k] += wire(m)
        self.m.tick(a["dt"])
        return self.obs()


class Board(Component):
    name = "Board"
    spec = "Board"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 300
    mc = [("MCBoard", f"CONSTANTS Sel = {k} Dts = {{0}}\nINVARIANT Safety\n", True) for k in range(1, 7)]

    def make(self, cfg):
        cfg = dict(cfg)
        cfg.setdefault("stats", False)
        return Sut(cfg)

    def random_cfg(self, r):
        dev = r.choice(["10", "10", "mini", "nano"])
        names = list(SW[dev])
        if dev == "10":
            names += [r.choice(["ExpSw1", "Exp1"]), r.choice(["ExpSw2", "Exp2"]), "WhlButton", "Wheel"]
        r.shuffle(names)
        names = names[:r.choice([2, 4, len(names), len(names)])]
        num = iter(range(1, 118))
        inp = []
        broken = r.random() < .15
        for n in names:
            if n in ("Exp1", "Exp2", "Wheel"):
                inp.append(dict(n=n, num=next(num)))
                continue
            k = r.choice([0, 1, 1, 1, 2, 3, 3])
            inp.append(dict(n=n, acts=[dict(k=r.choice(["msg", "msg", "cc"] + ["err"] * broken), num=next(num), c=list(r.choice(COLORS))) for _ in range(k)]))
        rts = [[1, 0], [0, 1], [2, 0], [0, 2], [1, 2], [2, 1]]
        routes = r.choice([[[1, 0], [0, 1]], [[2, 0], [0, 2]], rts, r.sample(rts, r.randint(1, 6)), [[0, 1], [2, 0], [0, 2]]])
        r.shuffle(routes)
        ports = {p: dict(inc=r.choice([-1, -1, -1, r.randint(0, 15)]), outc=r.choice([0, 15, r.randint(0, 15)])) for p in ("usb", "din")}
        clear = r.random() < .8
        ext = {s for s, t in routes if s and t}
        pre = [[self.msg(r, ports[p]) for _ in range(r.choice([0, 0, 1, 2]))] if any(d in x for x in routes) and (clear or d not in ext) else [] for d, p in ((1, "usb"), (2, "din"))]
        return dict(dev=dev, inp=inp, routes=routes, bridge=r.random() < .5, clear=clear, pre=pre, fail=r.random() < .06, boot=r.random() < .5, stats=r.random() < .3, **ports)

    def msg(self, r, port):
        k = r.choice(["cc", "cc", "cc", "pc", "sx", "no"])
        ch = port["inc"] if port["inc"] >= 0 and r.random() < .6 else r.randint(0, 15)
        return [k, ch if k != "sx" else 0, r.choice([119, 119, r.randint(0, 127)]) if k == "cc" else r.randint(0, 127), r.randint(0, 127) if k != "pc" else 0]

    def random_acts(self, r, cfg):
        dev = cfg["dev"]
        pins = [0, 1, 9, 10, 11, 18, 19, 20, 23, 24, 25, 27, 28, 7, 2, 16]
        adc, quad = [0, 0], 0
        used = {x for rt in cfg["routes"] for x in rt}
        for _ in range(r.randint(10, 35)):
            if r.random() < .3:
                adc = [r.choice([0, 65535, 1023, 1024, 30000, r.randint(0, 65535)]) for _ in range(2)]
                adc = [x + 1 if (x + 256) % 512 == 0 else x for x in adc]
            if r.random() < .3:
                quad += r.choice([1, -1, 1, 2, -3, 40, -20])
            o = yield dict(op="tick", dt=r.choice([0, 1, 20, 42, 42, 100]), pins=r.sample(pins, r.choice([0, 0, 1, 1, 2, 4])), adc=list(adc), quad=quad,
                           usb=[self.msg(r, cfg["usb"]) for _ in range(r.choice([0, 0, 1, 2]))] if 1 in used else [], din=[self.msg(r, cfg["din"]) for _ in range(r.choice([0, 0, 1, 2]))] if 2 in used else [])
            if o and o.get("run") and r.random() < .5:
                return
