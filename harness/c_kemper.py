import world, vdev, kemper
from engine import Component


class Lis:
    def __init__(self, sut, l):
        self.sut, self.l = sut, l
    def parameter_changed(self, mapping):
        self.sut.log.append([1, self.l, self.sut.index(mapping), self.sut.v(mapping)])
        self.nested()
    def request_terminated(self, mapping):
        self.sut.log.append([2, self.l, self.sut.index(mapping)])
        self.nested()
    def nested(self):
        q = self.sut.cfg["nest"][self.l - 1]
        if q:
            self.sut.dev.ctl.client.request(self.sut.mp[q - 1], self.sut.cbs[self.l - 1])


class Splash:
    def __init__(self):
        U = world.imp("pyswitch.ui.ui")
        E = world.imp("pyswitch.ui.elements")
        B = U.DisplayBounds(0, 0, 200, 100)
        self.root = U.DisplayElement(bounds=B, children=[E.BidirectionalProtocolState(B)])
    def init(self, appl, ui):
        pass
    def get_root(self):
        return self.root


class Sut:
    def __init__(self, cfg):
        self.cfg, self.log = cfg, []
        CB = world.imp("pyswitch.controller.callbacks").Callback
        KP = world.imp("pyswitch.clients.kemper").KemperBidirectionalProtocol
        self.dev = vdev.Device(config={"updateInterval": cfg["interval"], "maxRequestLifetimeMillis": cfg["life"]},
                               protocol=KP(cfg["lease"], tuner_mode=cfg["tm"]), splash_callback=Splash())
        self.cat = [kemper.ALL[p["cc"]] for p in cfg["pr"]]
        self.mp = [e.mk() for e in self.cat]
        self.cbs = []
        for l, ps in enumerate(cfg["party"]):
            cb = CB(mappings=[self.mp[p - 1] for p in ps])
            self.cbs.append(cb)
            cb.init(self.dev.ctl, Lis(self, l + 1))
        self.dev.init()

    def index(self, mapping):
        return self.mp.index(mapping) + 1 if mapping in self.mp else -99

    def v(self, m):
        if m.value is None:
            return -1
        if isinstance(m.value, str):
            return ord(m.value) if len(m.value) == 1 else -2
        return world.weird(m.value)

    def observe_init(self):
        return self.obs()

    def obs(self):
        rs = self.dev.screen().rects
        r = dict(exc="", sent=self.dev.port.take(), log=self.log, val=[self.v(m) for m in self.mp], dot=vdev.col(rs[0][2].fill) if len(rs) == 1 else [-1])
        self.log = []
        return r

    def step(self, a):
        if a["op"] == "ask":
            self.dev.ctl.client.request(self.mp[a["p"] - 1], self.cbs[a["l"] - 1] if a["l"] else None)
        elif a["op"] == "set":
            self.dev.ctl.client.set(self.mp[a["p"] - 1], a["v"])
        else:
            for c, v in a["msgs"]:
                for m in ([kemper.sense()] if c == 0 else [kemper.other(v)] if c == -1 else kemper.ALL[c].report(v)):
                    self.dev.recv(m)
            self.dev.tick(a["dt"])
        return self.obs()


def par(c, dep=0):
    e = kemper.ALL[c]
    p = e.proto
    return dict(cc=c, nreq=0 if p else len(e.rq), dep=dep, proto=p, rq=[] if p else e.rq, set=e.set)


class Kemper(Component):
    """Connection handling (C08)"""
    name = "KemperLink"
    spec = "Kemper"
    mc = [("MCKemper", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a} Vals = {v} Sets = {s}\nINVARIANT Safety\n", True)
          for k, d, a, v, s in ((1, "{500, 1501, 5001}", "{}", "{1}", "{}"), (4, "{500, 1400, 2000}", "{}", "{}", "{}"), (5, "{500, 1501, 2501, 5001}", "{}", "{}", "{}"))]
    mc_thorough = [("MCKemper", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a} Vals = {v} Sets = {s}\nINVARIANT Safety\n", False)
                   for k, d, a, v, s in ((1, "{0, 201, 250, 500, 1501, 5001}", "{1}", "{1}", "{}"), (4, "{0, 100, 201, 1400, 4800}", "{}", "{}", "{}"))]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 240
    walk_budget = 60000
    p_report, p_ask, p_set = .3, .02, .04
    own = []

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        ids = rng.sample(sorted(kemper.CAT), rng.randint(1, 5))
        pr = [par(c) for c in ids]
        n = len(pr)
        party = [rng.sample(range(1, n + 1), rng.randint(1, min(3, n))) for _ in range(rng.randint(1, 4))]
        used = sorted({p for ps in party for p in ps})
        nest = [rng.choice(used) if rng.random() < .2 else 0 for _ in party]
        return dict(pr=pr, party=party, nest=nest, life=rng.choice([2000, 2000, 500, 1000, 3001]), interval=rng.choice([200, 200, 100, 500]),
                    lease=rng.choice([2, 4, 10, 20, 30, 7, 254]), tm=rng.random() < .6)

    def random_acts(self, rng, cfg):
        n = len(cfg["pr"])
        alive = rng.random() < .5          # Profiler answers in time
        sense_age = 0
        def report():
            c = rng.choice([p["cc"] for p in cfg["pr"] if kemper.ALL[p["cc"]].report(65)] or [-1])
            if c == -1:
                return [-1, rng.randint(0, 8)]
            if kemper.ALL[c].string:
                return [c, rng.choice([65, 66, 90])]
            return [c, rng.choice([0, 1, 2, 127, 128, 16383, rng.randint(0, 16383) if self.own else 5]) if c != 25 else rng.choice([0, 1, 127, 128, 624])]
        used = sorted({p for ps in cfg['party'] for p in ps})
        settable = [i + 1 for i, p in enumerate(cfg["pr"]) if p["set"]]
        for _ in range(rng.randint(25, 70)):
            r = rng.random()
            if r < self.p_ask:
                yield dict(op="ask", l=rng.randint(0, len(cfg["party"])), p=rng.choice(used))
                continue
            if r < self.p_ask + self.p_set and settable:
                q = rng.choice(settable)
                yield dict(op="set", p=q, v=rng.choice([0, 1, 64, 127]) if len(cfg["pr"][q - 1]["set"]) == 2 else rng.choice([0, 1, 127, 128, 16383, rng.randint(0, 16383)]))
                continue
            if rng.random() < .05:
                alive = not alive
            dt = rng.choice([0, 1, 100, 201, 201, 500, 501, 1000, 1500, 1501, 2001, 5000, 5001, cfg["lease"] * 500, cfg["lease"] * 500 + 1])
            if alive:
                dt = min(dt, 1400)
            msgs = [report() for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < self.p_report else []
            if rng.random() < .1:
                msgs.append([-1, rng.randint(0, 8)])
            sense_age += dt
            if (alive and sense_age > 400) or rng.random() < .05:
                msgs.insert(rng.randint(0, len(msgs)), [0, 0])
                sense_age = 0
            yield dict(op="tick", dt=dt, msgs=msgs)


class Params(Kemper):
    """Parameters pushed by the Profiler (C09)"""
    name = "KemperParams"
    mc = [("MCKemper", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a} Vals = {v} Sets = {s}\nINVARIANT Safety\n", True)
          for k, d, a, v, s in ((2, "{0, 1501, 5001}", "{}", "{1}", "{1, 2}"), (3, "{0, 1501, 2001}", "{1}", "{0, 1}", "{1}"))]
    mc_thorough = [("MCKemper", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a} Vals = {v} Sets = {s}\nINVARIANT Safety\n", False)
                   for k, d, a, v, s in ((2, "{0, 500, 1501, 5001}", "{1}", "{1}", "{1, 2}"),)]
    p_report, p_ask, p_set = .8, .08, .15


class Mappings(Kemper):
    """The ready-made parameters (C32)"""
    name = "KemperMappings"
    mc = [("MCKemper", f"CONSTANTS Sel = {k} Dts = {d} AskL = {a} Vals = {v} Sets = {s}\nINVARIANT Safety\n", True)
          for k, d, a, v, s in ((6, "{0, 2001}", "{}", "{16383}", "{1, 2}"), (7, "{2001}", "{}", "{65, 90}", "{}"), (8, "{0, 2001}", "{1}", "{0, 5000}", "{1, 2, 3}"))]
    mc_thorough = []
    p_report, p_ask, p_set = .45, .1, .25
    own = sorted(kemper.MORE)

    def random_cfg(self, rng):
        ids = []
        for c in rng.sample(self.own, rng.randint(1, 6)) + rng.sample(sorted(kemper.CAT), rng.choice([0, 0, 1])):
            e = kemper.ALL[c]
            if e.group and any(kemper.ALL[x].group == e.group for x in ids) or c in ids:
                continue
            if e.dep and e.dep not in ids:
                ids.append(e.dep)
            ids.append(c)
        pr = [par(c, ids.index(kemper.ALL[c].dep) + 1 if kemper.ALL[c].dep else 0) for c in ids]
        n = len(pr)
        ask = [i + 1 for i, c in enumerate(ids)]
        party = [rng.sample(ask, rng.randint(1, min(4, n))) for _ in range(rng.randint(1, 3))]
        party.append(ask)
        return dict(pr=pr, party=party, nest=[0] * len(party), life=rng.choice([2000, 2000, 500]), interval=200, lease=30, tm=True)
