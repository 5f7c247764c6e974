"""Loads a fresh copy of the firmware (/repo/content/lib/pyswitch) against stub hardware libraries and a fake clock.

Only hardware-level effects are recorded: MIDI messages handed to the ports, NeoPixel values, the displayio tree of
the group which is shown, USB HID key presses. Nothing here reads private attributes of the code under test.
"""
import importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types
import time as _real_time

sys.dont_write_bytecode = True

REPO = os.environ.get("PYSW_REPO", "/repo")
LIB = os.path.join(REPO, "content", "lib")


class Clock:
    ms = 1000

CLOCK = Clock()


# ------------------------------------------------------------------------------------------------ stub modules

def _mod(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class MIDIMessage:
    _STATUS = None
    channel = None

    @classmethod
    def register_message_type(cls):
        pass


class MIDIUnknownEvent(MIDIMessage):
    def __init__(self, status=0):
        self.status = status


class MIDIBadEvent(MIDIMessage):
    def __init__(self, msg_bytes=b"", exception=None):
        self.data = bytes(msg_bytes)
        self.exception_text = repr(exception)


class ControlChange(MIDIMessage):
    _STATUS = 0xB0
    def __init__(self, control, value=0, *, channel=None):
        self.control = control
        self.value = value
        self.channel = channel
        if not 0 <= control <= 127 or not 0 <= value <= 127:
            raise ValueError("Out of range")


class ProgramChange(MIDIMessage):
    _STATUS = 0xC0
    def __init__(self, patch, *, channel=None):
        self.patch = patch
        self.channel = channel
        if not 0 <= patch <= 127:
            raise ValueError("Out of range")


class SystemExclusive(MIDIMessage):
    _STATUS = 0xF0
    def __init__(self, manufacturer_id, data):
        self.manufacturer_id = bytes(manufacturer_id)
        self.data = bytes(data)


class NoteOn(MIDIMessage):
    """A message type known to the MIDI library which the application has no use for."""
    _STATUS = 0x90
    def __init__(self, note, velocity=64):
        self.note = note
        self.velocity = velocity


def weird(x):
    """Integers only: anything else becomes a sentinel no specification ever produces."""
    if isinstance(x, bool) or not isinstance(x, int):
        return -999
    return x if -2**31 < x < 2**31 else -998


def enc(msg):
    """Snapshot of a MIDI message as list of ints (status byte first)."""
    if isinstance(msg, ControlChange):
        return [176, weird(msg.control), weird(msg.value)]
    if isinstance(msg, ProgramChange):
        return [192, weird(msg.patch)]
    if isinstance(msg, SystemExclusive):
        try:
            return [240] + list(bytes(msg.manufacturer_id)) + list(bytes(msg.data))
        except Exception:
            return [240, -999]
    if isinstance(msg, NoteOn):
        return [144, weird(msg.note), weird(msg.velocity)]
    if isinstance(msg, MIDIUnknownEvent):
        return [0, weird(msg.status)]
    if hasattr(type(msg), "__bytes__"):
        return list(msg.__bytes__())
    return [-997]


class Group(list):
    def __init__(self, scale=1, x=0, y=0):
        super().__init__()
        self.scale, self.x, self.y = scale, x, y
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)
    __bool__ = lambda self: True


class Label:
    def __init__(self, font=None, anchor_point=None, anchored_position=None, text="", color=0xffffff, line_spacing=1.25, scale=1, **kw):
        self.font, self.anchor_point, self.anchored_position = font, anchor_point, anchored_position
        self.text, self.color, self.line_spacing, self.scale = text, color, line_spacing, scale


class Rect:
    def __init__(self, x=0, y=0, width=0, height=0, fill=None, outline=None, stroke=1):
        self.x, self.y, self.width, self.height = x, y, width, height
        self.fill, self.outline, self.stroke = fill, outline, stroke


def wrap_text_to_pixels(text, width, font=None, indent0="", indent1=""):
    # Greedy wrap with 10 px per character, never breaking words. Enough to make wrapping observable.
    lines, cur = [], ""
    for w in str(text).split(" "):
        t = w if not cur else cur + " " + w
        if len(t) * 10 > width and cur:
            lines.append(cur)
            cur = w
        else:
            cur = t
    lines.append(cur)
    return lines


class HidLog:
    sent = []
    fail_init = False

class Keyboard:
    def __init__(self, devices):
        if HidLog.fail_init:
            raise OSError("USB not connected")
    def send(self, *codes):
        HidLog.sent.append([weird(c) for c in codes])
    def press(self, *codes):
        HidLog.sent.append([-1] + [weird(c) for c in codes])
    def release_all(self):
        pass
    def release(self, *codes):
        pass


class Mem:
    free = 200000
    alloc = 1000


class _Pin:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "board." + self.name


def _install_stubs():
    def const(x):
        return x
    mods = [
        _mod("micropython", const=const),
        _mod("adafruit_midi", MIDI=None),
        _mod("adafruit_midi.midi_message", MIDIMessage=MIDIMessage, MIDIUnknownEvent=MIDIUnknownEvent, MIDIBadEvent=MIDIBadEvent),
        _mod("adafruit_midi.control_change", ControlChange=ControlChange),
        _mod("adafruit_midi.program_change", ProgramChange=ProgramChange),
        _mod("adafruit_midi.system_exclusive", SystemExclusive=SystemExclusive),
        _mod("adafruit_midi.note_on", NoteOn=NoteOn),
        _mod("displayio", Group=Group, release_displays=lambda: None),
        _mod("adafruit_display_text", wrap_text_to_pixels=wrap_text_to_pixels, label=types.SimpleNamespace(Label=Label)),
        _mod("adafruit_display_shapes"),
        _mod("adafruit_display_shapes.rect", Rect=Rect),
        _mod("gc", collect=lambda: 0, mem_free=lambda: Mem.free, mem_alloc=lambda: Mem.alloc, enable=lambda: None, disable=lambda: None,
             freeze=lambda: None, get_count=lambda: (0, 0, 0), isenabled=lambda: True),
        _mod("usb_hid", devices=[1]),
        _mod("adafruit_hid"),
        _mod("adafruit_hid.keyboard", Keyboard=Keyboard),
    ]
    for m in mods:
        sys.modules[m.__name__] = m
    for m in mods:
        if "." in m.__name__:
            p, c = m.__name__.rsplit(".", 1)
            setattr(sys.modules[p], c, m)
    # Keycodes: the repository ships the library's table
    kc = importlib.util.spec_from_file_location("adafruit_hid.keycode", os.path.join(REPO, "web/htdocs/python/adafruit_hid/keycode.py"))
    try:
        k = importlib.util.module_from_spec(kc)
        kc.loader.exec_module(k)
    except FileNotFoundError:
        k = _mod("adafruit_hid.keycode", Keycode=types.SimpleNamespace(A=4, B=5, C=6))
    sys.modules["adafruit_hid.keycode"] = k
    # Fake clock
    t = types.ModuleType("time")
    for n in dir(_real_time):
        if not n.startswith("__"):
            setattr(t, n, getattr(_real_time, n))
    t.monotonic = lambda: (CLOCK.ms + 0.25) / 1000
    t.monotonic_ns = lambda: CLOCK.ms * 1000000 + 250000
    t.time = t.monotonic
    t.sleep = lambda s: None
    sys.modules["time"] = t


class _Loader(importlib.abc.Loader):
    _code = {}

    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self._code.get(self.path)
        if code is None:
            with open(self.path, "rb") as f:
                code = compile(f.read(), self.path, "exec", dont_inherit=True)
            self._code[self.path] = code
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "pyswitch" and not name.startswith("pyswitch."):
            return None
        base = os.path.join(LIB, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.machinery.ModuleSpec(name, _Loader(name, p, pkg), origin=p, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


_installed = False

def fresh():
    """Forget all firmware modules: the next imports build a new world (class level state included)."""
    global _installed
    if not _installed:
        _install_stubs()
        sys.meta_path.insert(0, _Finder())
        _installed = True
    for n in [n for n in sys.modules if n == "pyswitch" or n.startswith("pyswitch.")]:
        del sys.modules[n]
    CLOCK.ms = 1000
    HidLog.sent = []
    HidLog.fail_init = False
    Mem.free, Mem.alloc = 200000, 1000


def imp(name):
    return importlib.import_module(name)


class Hang(BaseException):
    pass
