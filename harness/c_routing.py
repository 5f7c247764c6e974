import world
from engine import Component


class Dev:
    def __init__(self, i):
        self.i, self.inq, self.sent = i, [], []

    def receive(self):
        return self.inq.pop(0) if self.inq else None

    def send(self, m):
        self.sent.append(m)


class Sut:
    def __init__(self, cfg):
        m = world.imp("pyswitch.controller.midi")
        self.n = cfg["n"]
        self.devs = [Dev(i + 1) for i in range(self.n)]
        self.ids = {}
        self.keep = []
        d = lambda x: m.MidiRouting.APPLICATION if x == 0 else self.devs[x - 1]
        self.midi = m.MidiController([m.MidiRouting(source=d(s), target=d(t)) for s, t in cfg["routes"]])

    def msg(self, m):
        k, no = m % 10, m // 10
        if k == 1:
            o = world.MIDIUnknownEvent(no % 128) if no % 2 else world.MIDIBadEvent(bytes([0x90, 200]), ValueError())
        else:
            o = [lambda: world.ControlChange(no % 128, 5), lambda: world.ProgramChange(no % 128),
                 lambda: world.SystemExclusive([0, 0x20, 0x33], [0, 0, 1, 0, 4, no % 128, 1, 1]),
                 lambda: world.NoteOn(no % 128)][no % 4]()
        self.ids[id(o)] = m
        self.keep.append(o)
        return o

    def obs(self, ret=None):
        sent = []
        for d in self.devs:
            row = [[] for _ in range(self.n + 1)]
            for o in d.sent:
                m = self.ids.get(id(o), -1)
                org = m // 100
                row[org - 1 if 1 <= org <= self.n + 1 else self.n].append(m)
            d.sent.clear()
            sent.append(row)
        return dict(exc="", ret=0 if ret is None else self.ids.get(id(ret), -1), sent=sent)

    def observe_init(self):
        return self.obs()

    def step(self, a):
        if a["op"] == "arrive":
            self.devs[a["d"] - 1].inq.append(self.msg(a["m"]))
            return self.obs()
        if a["op"] == "receive":
            return self.obs(self.midi.receive())
        self.midi.send(self.msg(a["m"]))
        return self.obs()


class Routing(Component):
    name = spec = "Routing"
    mc = [("MCRouting", "CONSTANT MaxMsgs = 2\nINVARIANT Safety\n", True)]
    mc_thorough = [("MCRouting", "CONSTANT MaxMsgs = 4\nINVARIANT Safety\n", False)]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 320

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        n = rng.randint(1, 4)
        routes = []
        for _ in range(rng.randint(1, 8)):
            s, t = rng.randint(0, n), rng.randint(0, n)
            if s or t:
                routes.append([s, t])
        if rng.random() < .7:
            routes.insert(rng.randrange(len(routes) + 1), [rng.randint(1, n), 0])
        return dict(n=n, routes=routes or [[1, 0]])

    def random_acts(self, rng, cfg):
        cnt = [0] * (cfg["n"] + 1)
        n = cfg["n"]
        for _ in range(rng.randint(10, 60)):
            x = rng.random()
            if x < .45:
                for _ in range(rng.choice([1, 1, 1, 3])):
                    d = rng.randint(1, n)
                    if cnt[d] < 10:
                        yield dict(op="arrive", d=d, m=100 * d + 10 * cnt[d] + (1 if rng.random() < .15 else 0))
                        cnt[d] += 1
            elif x < .9:
                yield dict(op="receive")
            else:
                yield dict(op="send", m=100 * (n + 1) + 10 * rng.randint(0, 9))
