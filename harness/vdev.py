"""Simulated device around the real Controller: ports, switches, pots, encoders, LEDs, display."""
import world
from world import CLOCK, enc


class Port:
    def __init__(self):
        self.inq, self.sent = [], []

    def receive(self):
        return self.inq.pop(0) if self.inq else None

    def send(self, m):
        self.sent.append(enc(m))

    def take(self):
        s, self.sent = self.sent, []
        return s


class Switch:
    def __init__(self):
        self.down = False
        self.inits = 0
        self.on_read = None

    def init(self):
        self.inits += 1

    @property
    def pushed(self):
        if self.on_read:
            self.on_read()
        return self.down


class Pot:
    def __init__(self, v=0):
        self.v = v
        self.on_read = None

    def init(self):
        pass

    @property
    def value(self):
        if self.on_read:
            self.on_read()
        return self.v


class Encoder:
    def __init__(self, p=0):
        self.p = p
        self.on_read = None

    def init(self):
        pass

    @property
    def position(self):
        if self.on_read:
            self.on_read()
        return self.p


class Leds:
    def __init__(self):
        self.leds = None
        self.n = 0

    def init(self, n):
        self.n = n
        self.leds = [(0, 0, 0)] * n

    def obs(self):
        return [[world.weird(c) for c in led] if isinstance(led, (tuple, list)) and len(led) == 3 else [-999, -999, -999] for led in (self.leds or [])]


class Tft:
    def __init__(self):
        self.shown = None
        self.count = 0

    def show(self, group):
        self.shown = group
        self.count += 1


class DisplayDriver:
    def __init__(self, w=240, h=240):
        self.width, self.height = w, h
        self.tft = Tft()


class Fonts:
    def __init__(self):
        self.fonts = {}

    def get(self, path):
        return self.fonts.setdefault(path, ("font", path))


def col(c):
    """Color as list of ints; a multi color as flat list of all components."""
    if c is None:
        return [-1]
    if isinstance(c, (tuple, list)):
        if len(c) and isinstance(c[0], (tuple, list)):
            return [world.weird(y) for x in c for y in x]
        return [world.weird(x) for x in c]
    if isinstance(c, int):
        return [(c >> 16) & 255, (c >> 8) & 255, c & 255]
    return [-999]


class ScreenView:
    """What is visible of a displayio group: the labels and rectangles at their absolute positions."""
    def __init__(self, group):
        self.labels, self.rects = [], []
        if group is not None:
            self._walk(group, group.x, group.y)

    def _walk(self, g, x, y):
        for e in g:
            if isinstance(e, world.Group):
                self._walk(e, x + e.x, y + e.y)
            elif isinstance(e, world.Label):
                ap = e.anchored_position or (0, 0)
                self.labels.append((x + ap[0], y + ap[1], e))
            elif isinstance(e, world.Rect):
                self.rects.append((x + e.x, y + e.y, e))

    def label_in(self, b):
        """(text, text color, background) of the label whose text lies in bounds b = (x, y, w, h)"""
        t, c, f = "", [-1], [-1]
        for x, y, e in self.labels:
            if b[0] <= x < b[0] + b[2] and b[1] <= y < b[1] + b[3]:
                t, c = e.text, col(e.color)
        for x, y, e in self.rects:
            if b[0] <= x < b[0] + b[2] and b[1] <= y < b[1] + b[3]:
                f = col(e.fill)
        return [t, c, f]


DEFAULTS = {"updateInterval": 200, "maxRequestLifetimeMillis": 2000, "maxConsecutiveMidiMessages": 10, "clearBuffers": True, "memoryWarnLimitBytes": 15360}


class Device:
    """inputs: list of dicts as in inputs.py (assignment filled in by the caller)."""
    def __init__(self, inputs=(), splash_callback=None, protocol=None, config=None, display=None, n_ports=1):
        C = world.imp("pyswitch.controller.controller").Controller
        M = world.imp("pyswitch.controller.midi")
        config = {k: v for k, v in (config or {}).items() if v != DEFAULTS.get(k)}      # defaults need not be given
        self.port = Port()
        self.leds = Leds()
        self.display = display or DisplayDriver()
        ui = None
        if splash_callback:
            U = world.imp("pyswitch.ui.UiController").UiController
            ui = U(display_driver=self.display, font_loader=Fonts(), splash_callback=splash_callback)
        self.ctl = C(led_driver=self.leds, midi=M.MidiController([M.MidiRouting(self.port, M.MidiRouting.APPLICATION),
                                                                   M.MidiRouting(M.MidiRouting.APPLICATION, self.port)]),
                     protocol=protocol, config=config, inputs=list(inputs), ui=ui)

    def init(self):
        self.ctl.init()

    def tick(self, dt=0):
        CLOCK.ms += dt
        return self.ctl.tick()

    def recv(self, msg):
        self.port.inq.append(msg)

    def screen(self):
        return ScreenView(self.display.tft.shown)


def cc(c, v):
    return world.ControlChange(c, v)

def pc(p):
    return world.ProgramChange(p)

def sysex(man, data):
    return world.SystemExclusive(man, data)
