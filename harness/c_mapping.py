import world, vdev
from engine import Component
K = [0, 32, 51]


def tmpl(t):
    if t["k"] == "cc":
        return vdev.cc(t["c"], t["v"])
    if t["k"] == "pc":
        return vdev.pc(t["v"])
    if t["k"] == "sx":
        return vdev.sysex(t["man"], t["dat"])
    return None


class Sut:
    def __init__(self, cfg):
        self.cfg, self.log = cfg, []
        C = world.imp("pyswitch.controller.client")
        self.dev = vdev.Device(config={"maxRequestLifetimeMillis": 1000000})
        self.cl = self.dev.ctl.client
        self.mp = []
        for i, p in enumerate(cfg["pr"]):
            kw = dict(name=f"p{i}")
            if p["str"]:
                kw["type"] = C.ClientParameterMapping.PARAMETER_TYPE_STRING
            if p["req"]:
                kw["request"] = vdev.sysex([9], [i + 1])
            if p["set"]:
                s = [tmpl(t) for t in p["set"]]
                kw["set"] = s if p["list"] else s[0]
            r = [tmpl(t) for t in p["resp"]]
            if len(r) == 2:
                m = C.ClientTwoPartParameterMapping.get(response=r, **kw)
            else:
                m = C.ClientParameterMapping.get(response=r[0], **kw)
            self.mp.append(m)
            self.cl.register(m, self)
        self.dev.init()

    def parameter_changed(self, mapping):
        self.log.append([self.mp.index(mapping) + 1] + self.v(mapping))

    def request_terminated(self, mapping):
        self.log.append([-1])

    def v(self, m):
        if m.value is None:
            return []
        if isinstance(m.value, str):
            return [-7] + [ord(c) for c in m.value]
        return [world.weird(m.value)]

    def observe_init(self):
        return self.obs()

    def obs(self):
        r = dict(exc="", sent=self.dev.port.take(), log=sorted(self.log), val=[self.v(m) for m in self.mp])
        self.log = []
        return r

    def step(self, a):
        if a["op"] == "msg":
            self.dev.recv(tmpl(a["m"]))
            self.dev.tick(1)
        elif a["op"] == "ask":
            self.cl.request(self.mp[a["p"] - 1], self)
        else:
            p = self.cfg["pr"][a["p"] - 1]
            self.cl.set(self.mp[a["p"] - 1], list(a["vs"]) if p["list"] else a["vs"][0])
        return self.obs()


def T(k, c=0, v=0, man=(), dat=()):
    return dict(k=k, c=c, v=v, man=list(man), dat=list(dat))


class Mapping(Component):
    name = spec = "Mapping"
    mc = [("MCMapping", f"CONSTANTS Sel = {k}\nINVARIANT Safety\n", True) for k in (1, 2, 3)]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 240

    def make(self, cfg):
        return Sut(cfg)

    def sx(self, rng):
        return T("sx", man=rng.choice([K, K, K, [0, 32, 52], [1]]), dat=[rng.choice([0, 2, 127]), rng.choice([0, 127]), rng.choice([1, 1, 3]), rng.choice([0, 0, 1]), rng.choice([4, 5, 127]), rng.choice([0, 1, 20])])

    def any(self, rng):
        return rng.choice([lambda: T("cc", c=rng.choice([0, 20, 21, 127])), lambda: T("pc"), lambda: self.sx(rng), lambda: self.sx(rng)])()

    def random_cfg(self, rng):
        pr = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < .25:
                p = dict(resp=[self.any(rng), self.any(rng)], str=0)
            elif r < .45:
                p = dict(resp=[self.sx(rng)], str=1)
            else:
                p = dict(resp=[self.any(rng)], str=0)
            p["req"] = rng.choice([0, 0, 1])
            n = 0 if p["str"] else rng.choice([0, 1, 1, 1, 2, 3])
            s = [self.any(rng) if rng.random() < .85 or n == 1 else T("none") for _ in range(n)]
            for t in s:
                if t["k"] == "sx":
                    t["dat"] += [[], [], [5], [5, 6], [5, 6, 7]][rng.randrange(5)]
            p.update(set=s, list=int(n > 1 or (n == 1 and rng.random() < .2)))
            pr.append(p)
        return dict(pr=pr)

    def random_acts(self, rng, cfg):
        n = len(cfg["pr"])
        ts = [(p, t) for p in cfg["pr"] for t in p["resp"]]
        echo = None
        for _ in range(rng.randint(20, 60)):
            r = rng.random()
            i = rng.randrange(n)
            p = cfg["pr"][i]
            if r < .15 and p["req"]:
                yield dict(op="ask", p=i + 1)
            elif r < .4 and p["set"]:
                vs = [rng.choice([0, 1, 127, 128, 8191, 16383, rng.randrange(16384)]) if t["k"] == "sx" else rng.choice([0, 127, rng.randrange(128)]) for t in p["set"]]
                yield dict(op="set", p=i + 1, vs=vs)
            else:
                if rng.random() < .75:
                    q, t = rng.choice(ts)
                else:
                    q, t = dict(str=rng.randint(0, 1)), self.any(rng)
                m = dict(t)
                if m["k"] == "sx":
                    m["dat"] = [rng.choice([0, 1, 127]), rng.choice([0, 127])] + m["dat"][2:6]
                    if rng.random() < .15:
                        m["dat"][rng.randrange(2, 6)] ^= 1
                    # messages for text parameters and others differ in their length
                    m["dat"] += [rng.randrange(128) for _ in range(rng.choice([1, 2, 8]))] + [0] if q["str"] else [rng.choice([0, 1, 127, rng.randrange(128)]) for _ in range(2)]
                else:
                    m["v"] = rng.choice([0, 1, 127, rng.randrange(128)])
                yield dict(op="msg", m=m)
