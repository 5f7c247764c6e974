import world, vdev
from engine import Component


class Lis:
    def __init__(self, sut, l):
        self.sut, self.l = sut, l
    def parameter_changed(self, mapping):
        self.sut.log.append([1, self.l, self.sut.index(mapping), self.sut.v(mapping)])
        self.nested()
    def request_terminated(self, mapping):
        self.sut.log.append([2, self.l, self.sut.index(mapping)])
        self.nested()
    def nested(self):
        q = self.sut.cfg["nest"][self.l - 1]
        if q:
            self.sut.dev.ctl.client.request(self.sut.mp[q - 1], self.sut.cbs[self.l - 1])


class Sut:
    def __init__(self, cfg):
        self.cfg, self.log = cfg, []
        M = world.imp("pyswitch.controller.client").ClientParameterMapping
        CB = world.imp("pyswitch.controller.callbacks").Callback
        self.dev = vdev.Device(config={"updateInterval": cfg["interval"], "maxRequestLifetimeMillis": cfg["life"]})
        self.mp = []
        for i, p in enumerate(cfg["pr"]):
            rq = [vdev.sysex([0, 1], [i + 1, k + 1]) for k in range(p["nreq"])]
            self.mp.append(M.get(name=f"p{i}", request=None if not rq else rq[0] if len(rq) == 1 else [None] + rq, response=vdev.cc(p["cc"], 0),
                                 depends=self.mp[p["dep"] - 1] if p["dep"] else None))
        self.cbs = []
        for l, ps in enumerate(cfg["party"]):
            cb = CB(mappings=[self.mp[p - 1] for p in ps])
            self.cbs.append(cb)
            cb.init(self.dev.ctl, Lis(self, l + 1))
        self.dev.init()

    def index(self, mapping):
        return self.mp.index(mapping) + 1 if mapping in self.mp else -99

    def v(self, m):
        return -1 if m.value is None else world.weird(m.value)

    def observe_init(self):
        return self.obs()

    def obs(self):
        r = dict(exc="", sent=[m[3:] if m[:3] == [240, 0, 1] else [-9] + m for m in self.dev.port.take()], log=self.log, val=[self.v(m) for m in self.mp])
        self.log = []
        return r

    def step(self, a):
        if a["op"] == "ask":
            self.dev.ctl.client.request(self.mp[a["p"] - 1], self.cbs[a["l"] - 1] if a["l"] else None)
        else:
            for c, v in a["msgs"]:
                self.dev.recv(vdev.cc(c, v))
            self.dev.tick(a["dt"])
        return self.obs()


class Requests(Component):
    name = spec = "Requests"
    mc = [("MCRequests", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a}\nINVARIANT Safety\nCONSTRAINT Bound\n", True)
          for k, d, a in ((1, "{0, 100, 201}", "{0, 1}"), (2, "{0, 201}", "{1}"), (3, "{0, 201}", "{1}"), (4, "{0, 201}", "{}"), (5, "{0, 201}", "{0}"))]
    mc_thorough = [("MCRequests", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a}\nINVARIANT Safety\nCONSTRAINT Bound\n", False)
                   for k, d, a in ((2, "{0, 100, 201}", "{0, 1}"), (3, "{0, 100, 201}", "{0, 1}"))]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 200
    walk_budget = 100000

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        n = rng.randint(1, 5)
        pr = []
        for i in range(n):
            nondep = [j + 1 for j in range(i) if pr[j]["dep"] == 0]
            dep = rng.choice(nondep) if nondep and rng.random() < .4 else 0
            pr.append(dict(cc=rng.choice([1, 2, 3, 4, 5, 6]), nreq=rng.choice([1, 1, 1, 2, 3]) if dep or rng.random() < .8 else 0, dep=dep))
        party = [rng.sample(range(1, n + 1), rng.randint(1, min(3, n))) for _ in range(rng.randint(1, 4))]
        nest = [rng.randint(1, n) if rng.random() < .3 else 0 for _ in party]
        return dict(pr=pr, party=party, nest=nest, life=rng.choice([2000, 2000, 500, 400, 1000, 3001]), interval=rng.choice([200, 200, 100, 500]))

    def random_acts(self, rng, cfg):
        n = len(cfg["pr"])
        ccs = [p["cc"] for p in cfg["pr"]]
        style = rng.random()
        for _ in range(rng.randint(20, 60)):
            if rng.random() < .1:
                yield dict(op="ask", l=rng.randint(0, len(cfg["party"])), p=rng.randint(1, n))
                continue
            msgs = []
            if rng.random() < (.7 if style < .6 else .2):
                msgs = [[rng.choice(ccs + [9]), rng.choice([0, 1, 2, 64, 127])] for _ in range(rng.choice([1, 1, 2, 3, 6]))]
            i = cfg["interval"]
            yield dict(op="tick", dt=rng.choice([0, 1, 20, i // 2, i, i + 1, i + 1, cfg["life"] // 2, cfg["life"] + 1]), msgs=msgs)
