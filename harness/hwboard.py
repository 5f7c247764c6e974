"""A simulated board underneath the real firmware: GPIO pins, ADC, quadrature encoders, NeoPixel chain, SPI display, UART and USB MIDI byte streams, USB drive.

The program which is run is the firmware's own code.py (which imports pyswitch.process), with the MIDI library the repository ships (web/htdocs/python/adafruit_midi),
in a thread which is stopped at every tick of the main loop. Only what happens at the pins and ports is observed.
"""
import ctypes, importlib.abc, importlib.machinery, importlib.util, os, sys, threading, types
import world
from world import CLOCK, _mod

PYLIB = os.path.join(world.REPO, "web", "htdocs", "python")
CONTENT = os.path.join(world.REPO, "content")


class Stop(BaseException):
    pass


class Pin:
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return f"board.GP{self.n}"


class Board:
    """State of the hardware"""
    def __init__(self, pins=range(29)):
        self.pins = {n: Pin(n) for n in pins}
        self.low = set()            # pins pulled to ground by a switch
        self.adc = {}
        self.quad = {}              # (a, b) -> quadrature steps
        self.used = {}              # claimed pins
        self.leds = {}              # pin -> NeoPixel
        self.rx = {"usb": bytearray(), "din": bytearray()}
        self.tx = {"usb": bytearray(), "din": bytearray()}
        self.uart = []
        self.tft = None
        self.usb_drive, self.writable, self.autoreload = True, False, True
        self.bridge = []
        self.bridged = False
        self.fonts = []
        self.fixed = set()          # pins which cannot be used as digital inputs

    def claim(self, pin, what):
        if not isinstance(pin, Pin):
            raise TypeError("no pin")
        if pin.n in self.used or pin.n in self.fixed:
            raise ValueError(f"GP{pin.n} in use")
        self.used[pin.n] = what


def install(b):
    class Direction:
        INPUT, OUTPUT = object(), object()

    class Pull:
        UP, DOWN = object(), object()

    class DigitalInOut:
        def __init__(self, pin):
            b.claim(pin, "digital")
            self.n, self.direction, self.pull = pin.n, Direction.INPUT, None
        @property
        def value(self):
            if self.direction is not Direction.INPUT:
                return False
            return self.pull is Pull.UP and self.n not in b.low
        def deinit(self):
            b.used.pop(self.n, None)

    class AnalogIn:
        def __init__(self, pin):
            b.claim(pin, "analog")
            if pin.n not in (26, 27, 28):
                raise ValueError("Invalid pin")
            self.n = pin.n
        @property
        def value(self):
            return b.adc.get(self.n, 0)

    class IncrementalEncoder:
        def __init__(self, pin_a, pin_b, divisor=4):
            b.claim(pin_a, "encoder")
            b.claim(pin_b, "encoder")
            self.k, self.d = (pin_a.n, pin_b.n), divisor
        @property
        def position(self):
            q = b.quad.get(self.k)
            q = -b.quad.get((self.k[1], self.k[0]), 0) if q is None else q
            return int(q / self.d)

    class UART:
        def __init__(self, tx, rx, *, baudrate=9600, timeout=1, **kw):
            b.claim(tx, "uart")
            b.claim(rx, "uart")
            b.uart.append([tx.n, rx.n, baudrate])
            self.ok = [tx.n, rx.n, baudrate] == [16, 17, 31250]
        def read(self, n):
            r = b.rx["din"]
            x = bytes(r[:n])
            del r[:n]
            return (x or None) if self.ok else (bytes([0]) * len(x) or None)
        def write(self, data, n=None):
            b.tx["din"].extend(data[:n] if self.ok else bytes(len(data)))

    class UsbPort:
        def __init__(self, inp):
            self.inp = inp
        def read(self, n):
            if not self.inp:
                raise AttributeError("read")
            r = b.rx["usb"]
            x = bytes(r[:n])
            del r[:n]
            return x or None
        def write(self, data, n=None):
            if self.inp:
                raise AttributeError("write")
            b.tx["usb"].extend(data[:n])

    class SPI:
        def __init__(self, clock, MOSI=None, MISO=None):
            b.claim(clock, "spi")
            b.claim(MOSI, "spi")
            self.pins, self.baud, self.locked, self.tries = [clock.n, MOSI.n], None, False, 0
        def try_lock(self):
            self.tries += 1
            if self.locked or self.tries < 2:
                return False
            self.locked = True
            return True
        def unlock(self):
            self.locked = False
        def configure(self, baudrate=100000, **kw):
            if not self.locked:
                raise RuntimeError("not locked")
            self.baud = baudrate

    class FourWire:
        def __init__(self, spi, *, command, chip_select, reset=None, **kw):
            b.claim(command, "display")
            b.claim(chip_select, "display")
            if spi.locked:
                raise RuntimeError("locked")
            self.d = spi.pins + [command.n, chip_select.n]

    class ST7789:
        def __init__(self, bus, *, width, height, rowstart=0, colstart=0, rotation=0, **kw):
            self.d = bus.d + [width, height, rowstart, rotation]
            self.shown, self.count, self.auto = None, 0, None
            b.tft = self
        def show(self, g):
            self.shown = g
            self.count += 1
        @property
        def root_group(self):
            return self.shown
        @root_group.setter
        def root_group(self, g):
            self.show(g)

    class NeoPixel(list):
        def __init__(self, pin, n, **kw):
            b.claim(pin, "neopixel")
            list.__init__(self, [(0, 0, 0)] * n)
            self.n = n
            b.leds[pin.n] = self
        def __setitem__(self, i, v):
            if isinstance(i, slice) or not isinstance(v, (tuple, list)) or len(v) != 3 or any(not isinstance(c, int) or not 0 <= c <= 255 for c in v):
                raise ValueError("pixel")
            list.__setitem__(self, i, tuple(v))
        def fill(self, c):
            for i in range(len(self)):
                self[i] = c
        def show(self):
            pass

    class MidiBridgeWrapper:
        def __init__(self, midi, temp_file_path, **kw):
            self.midi, b.bridged = midi, True
        def send(self, m):
            return self.midi.send(m)
        def receive(self):
            return self.midi.receive()
        def error(self, ex):
            b.bridge.append(type(ex).__name__)

    def load_font(path):
        b.fonts.append(path)
        return ("font", path)

    def drive():
        b.usb_drive = False

    def remount(path, readonly=False, **kw):
        if path == "/":
            b.writable = not readonly

    def noreload():
        b.autoreload = False

    board = _mod("board", LED=Pin(99), VBUS_SENSE=Pin(98), **{f"GP{n}": p for n, p in b.pins.items()})
    mods = [board, _mod("digitalio", DigitalInOut=DigitalInOut, Direction=Direction, Pull=Pull), _mod("analogio", AnalogIn=AnalogIn),
            _mod("rotaryio", IncrementalEncoder=IncrementalEncoder), _mod("busio", UART=UART, SPI=SPI), _mod("usb_midi", ports=(UsbPort(True), UsbPort(False))),
            _mod("storage", disable_usb_drive=drive, remount=remount), _mod("supervisor", disable_autoreload=noreload), _mod("fourwire", FourWire=FourWire),
            _mod("displayio", Group=world.Group, release_displays=lambda: None, FourWire=FourWire), _mod("adafruit_misc"), _mod("adafruit_misc.adafruit_st7789", ST7789=ST7789),
            _mod("adafruit_misc.neopixel", NeoPixel=NeoPixel), _mod("adafruit_bitmap_font", bitmap_font=types.SimpleNamespace(load_font=load_font)),
            _mod("adafruit_bitmap_font.bitmap_font", load_font=load_font), _mod("pymidibridge"), _mod("pymidibridge.MidiBridgeWrapper", MidiBridgeWrapper=MidiBridgeWrapper)]
    for m in mods:
        sys.modules[m.__name__] = m
    # The MIDI library of the repository
    for n in [n for n in sys.modules if n == "adafruit_midi" or n.startswith("adafruit_midi.")]:
        del sys.modules[n]
    for n in ("config", "display", "inputs", "communication", "code"):
        sys.modules.pop(n, None)


class _Finder(importlib.abc.MetaPathFinder):
    """Configuration files (as source text) and the MIDI library"""
    files = {}

    def find_spec(self, name, path=None, target=None):
        if name in self.files:
            return importlib.machinery.ModuleSpec(name, _Text(self.files[name], name))
        if name == "adafruit_midi" or name.startswith("adafruit_midi."):
            base = os.path.join(PYLIB, *name.split("."))
            p = os.path.join(base, "__init__.py") if name == "adafruit_midi" else base + ".py"
            if os.path.isfile(p):
                s = importlib.machinery.ModuleSpec(name, world._Loader(name, p, name == "adafruit_midi"), origin=p, is_package=name == "adafruit_midi")
                if name == "adafruit_midi":
                    s.submodule_search_locations = [base]
                return s
        return None


class _Text(importlib.abc.Loader):
    _code = {}
    def __init__(self, text, name):
        self.text, self.name = text, name
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        k = (self.name, self.text)
        if k not in self._code:
            if len(self._code) > 300:
                self._code.clear()
            self._code[k] = compile(self.text, self.name + ".py", "exec", dont_inherit=True)
        exec(self._code[k], module.__dict__)


_finder = None
_current = None


class Machine:
    """Runs the program until the main loop asks for its next tick."""
    def __init__(self, board, files, program=None):
        global _finder, _current
        if _current:
            _current.close()
        _current = self
        if _finder is None:
            _finder = _Finder()
            sys.meta_path.insert(0, _finder)
        self.b = board
        install(board)
        _finder.files = files
        self.go, self.ready = threading.Semaphore(0), threading.Semaphore(0)
        self.ended, self.stop = "", False
        me = self
        for m, c in (("controller", "Controller"), ("explore", "ExploreModeController")):
            cls = getattr(world.imp("pyswitch.controller." + m), c)
            def gate(self, orig=cls.tick):
                me.ready.release()
                me.go.acquire()
                if me.stop:
                    raise Stop()
                return orig(self)
            cls.tick = gate
        text = program if program is not None else open(os.path.join(CONTENT, "code.py")).read()
        def main():
            try:
                exec(compile(text, "code.py", "exec", dont_inherit=True), {"__name__": "__main__"})
                self.ended = self.ended or "end"
            except Stop:
                self.ended = "stop"
            except Exception as ex:
                self.ended = "raised " + type(ex).__name__
            except BaseException as ex:
                self.ended = "raised " + type(ex).__name__
            self.ready.release()
        self.thread = threading.Thread(target=main, daemon=True)
        self.thread.start()
        self._wait()

    def _wait(self):
        while not self.ready.acquire(timeout=1):
            pass

    def tick(self, dt=0):
        CLOCK.ms += dt
        if self.ended:
            return
        self.go.release()
        self._wait()

    def close(self):
        if not self.ended and self.thread.is_alive():
            self.stop = True
            self.go.release()
            self.thread.join(.5)
            if self.thread.is_alive():
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.thread.ident), ctypes.py_object(Stop))
                self.thread.join(1)


def boot(board):
    """Runs boot.py (at power on, before code.py; pins are released afterwards)"""
    install(board)
    with open(os.path.join(CONTENT, "boot.py")) as f:
        exec(compile(f.read(), "boot.py", "exec", dont_inherit=True), {"__name__": "__main__"})
    board.used.clear()
