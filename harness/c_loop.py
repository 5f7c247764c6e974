import world, vdev
from engine import Component


class Sut:
    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.polled = set()
        world.CLOCK.ms = cfg["uptime"]
        self.sw, self.pot, self.encd = vdev.Switch(), vdev.Pot(), vdev.Encoder()
        for i, x in enumerate((self.sw, self.pot, self.encd)):
            x.on_read = lambda i=i: self.poll(i)
        self.dev = vdev.Device(
            inputs=[{"assignment": {"model": x}, "actions": []} for x in (self.sw, self.pot, self.encd)],
            config={"updateInterval": cfg["interval"], "maxConsecutiveMidiMessages": cfg["burst"], "clearBuffers": cfg["clear"] == 1})
        cl = world.imp("pyswitch.controller.client")
        mp = cl.ClientParameterMapping.get(name="probe", response=vdev.cc(20, 0))

        class L:
            def parameter_changed(s, mapping):
                self.event([1, world.weird(mapping.value)])
            def request_terminated(s, mapping):
                self.event([9])
        self.dev.ctl.client.register(mp, L())
        Upd = world.imp("pyswitch.misc").Updateable
        self.inj = {}

        class U(Upd):
            def __init__(s, n):
                s.n = n
            def update(s):
                self.event([2, s.n])
                for m in self.inj.get(s.n, []):
                    self.dev.recv(vdev.cc(20, m))
        for n in range(1, cfg["nupd"] + 1):
            self.dev.ctl.add_updateable(U(n))

    def poll(self, i):
        self.polled.add(i)
        if len(self.polled) == 3 and (not self.log or self.log[-1] != [0]):
            self.log.append([0])

    def event(self, e):
        self.log.append(e)
        self.polled.clear()

    def obs(self, alive=True):
        r = dict(exc="", log=self.log, alive=1 if alive is True else 0)
        self.log = []
        self.polled.clear()
        return r

    def observe_init(self):
        self.log = []
        return self.obs()

    def step(self, a):
        op = a["op"]
        if op == "arrive":
            for m in a["ms"]:
                self.dev.recv(vdev.cc(20, m))
            return self.obs()
        if op == "startup":
            self.dev.init()
            self.log = [e for e in self.log if e != [0]]
            return self.obs()
        self.inj = {i + 1: ms for i, ms in enumerate(a["inj"])}
        return self.obs(self.dev.tick(a["dt"]))


class Loop(Component):
    name = spec = "Loop"
    mc = [("MCLoop", "CONSTANTS MaxMsgs = 7 Bursts = {0, 2}\nINVARIANT Safety\nCONSTRAINT Bound\n", True)]
    mc_thorough = [("MCLoop", "CONSTANTS MaxMsgs = 14 Bursts = {0, 1, 2, 5, 10}\nINVARIANT Safety\nCONSTRAINT Bound\n", False)]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 200

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        return dict(interval=rng.choice([1, 20, 100, 200, 200, 1000, 2500]), burst=rng.choice([0, 1, 2, 3, 5, 10, 10]), nupd=rng.choice([0, 1, 2, 3, 6]),
                    clear=rng.randint(0, 1), uptime=rng.choice([50, 1000, 4000]))

    def random_acts(self, rng, cfg):
        n = 0
        started = False
        for k in range(rng.randint(8, 45)):
            if n < 110 and rng.random() < .5:
                c = min(rng.choice([1, 1, 2, 5, 12, 25]), 120 - n)
                yield dict(op="arrive", ms=list(range(n + 1, n + c + 1)))
                n += c
            if not started:
                if k > 1 or rng.random() < .6:
                    started = True
                    yield dict(op="startup")
                continue
            inj = [[] for _ in range(cfg["nupd"])]
            age_due = rng.random() < .4
            i = cfg["interval"]
            dt = rng.choice([i, i + 1, i + 7, 2 * i]) if age_due else rng.choice([0, 1, 5, i // 2, i - 1 if i > 1 else 0])
            # messages arriving during updates: only meaningful if updates are surely due
            if cfg["nupd"] and dt > i and n < 110 and rng.random() < .5:
                u = rng.randrange(cfg["nupd"])
                c = rng.choice([1, 2, 3])
                inj[u] = list(range(n + 1, n + c + 1))
                n += c
            yield dict(op="tick", dt=dt, inj=inj)
