import world, vdev
from engine import Component


class En:
    def __init__(self, sut, i):
        self.sut, self.i = sut, i
    def init(self, appl):
        pass
    def enabled(self, action):
        return self.i not in self.sut.dis


class Cb:
    def __init__(self, sut, i):
        self.sut, self.i = sut, i
    def init(self, appl, listener=None):
        pass
    def push(self):
        self.sut.log.append([1, self.i])
        a, b = self.sut.cfg["eff"]
        if a == self.i and a:
            self.sut.dis ^= {b}
    def release(self):
        self.sut.log.append([2, self.i])
    def update_displays(self):
        pass
    def reset(self):
        pass


class Ovr:
    def __init__(self, sut, o):
        self.sut, self.o = sut, o
    def push(self):
        self.sut.log.append([1, 0])
        return bool(self.o[0])
    def release(self):
        self.sut.log.append([2, 0])
        return bool(self.o[1])


def nest(xs, k):
    if k == 1:
        return [xs]
    if k == 2:
        return xs[:1] + [xs[1:]]
    if k == 3:
        return [xs[:1], xs[1:2]] + xs[2:]
    return xs


class Sut:
    def __init__(self, cfg):
        self.cfg, self.log, self.dis = cfg, [], set(cfg["dis"])
        Action = world.imp("pyswitch.controller.actions").Action
        mk = lambda i: Action({"callback": Cb(self, i), "enableCallback": En(self, i)})
        self.sw, ins = [], []
        for c in cfg["sw"]:
            s = vdev.Switch()
            self.sw.append(s)
            d = {"assignment": {"model": s}, "actions": nest([mk(i) for i in c["acts"]], c["nest"])}
            if c["hold"]:
                d["actionsHold"] = nest([mk(i) for i in c["hold"]], c["nest"])
            if c["repeat"]:
                d["holdRepeat"] = True
            if c["interval"] != 600:
                d["holdTimeMillis"] = c["interval"]
            ins.append(d)
        self.dev = vdev.Device(inputs=ins)
        self.dev.init()

    def observe_init(self):
        return self.obs()

    def obs(self):
        r = dict(exc="", log=self.log)
        self.log = []
        return r

    def step(self, a):
        op = a["op"]
        if op == "enable":
            (self.dis.discard if a["on"] else self.dis.add)(a["a"])
        elif op == "override":
            self.dev.ctl.inputs[a["sw"] - 1].override_action = Ovr(self, a["o"]) if a["o"] else None
        else:
            for s, d in zip(self.sw, a["downs"]):
                s.down = bool(d)
            self.dev.tick(a["dt"])
        return self.obs()


class _Base(Component):
    spec = "Switch"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 240
    walk_budget = 240000
    hold = False

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        sws, k = [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            na = rng.choice([0, 1, 2, 3, 4])
            nh = rng.choice([1, 1, 2, 3]) if self.hold and rng.random() < .85 else 0
            sws.append(dict(acts=list(range(k + 1, k + na + 1)), hold=list(range(k + na + 1, k + na + nh + 1)), repeat=rng.randint(0, 1) if nh else 0,
                            interval=rng.choice([600, 600, 600, 100, 1000, 0]), nest=rng.randint(0, 3)))
            k += na + nh
        ids = list(range(1, k + 1))
        dis = sorted(rng.sample(ids, rng.randint(0, min(2, k)))) if rng.random() < .5 else []
        eff = [rng.choice(ids), rng.choice(ids)] if ids and rng.random() < .25 else [0, 0]
        return dict(sw=sws, dis=dis, eff=eff)

    def random_acts(self, rng, cfg):
        n = len(cfg["sw"])
        downs = [0] * n
        ids = [i for c in cfg["sw"] for i in c["acts"] + c["hold"]]
        ivs = sorted(set(c["interval"] for c in cfg["sw"]))
        wovr = rng.random() < .4
        for _ in range(rng.randint(20, 70)):
            r = rng.random()
            if r < .06 and ids:
                yield dict(op="enable", a=rng.choice(ids), on=rng.randint(0, 1))
            elif r < .16 and wovr:
                yield dict(op="override", sw=rng.randint(1, n), o=rng.choice([[], [], [0, 0], [0, 1], [1, 0], [1, 1]]))
            else:
                i = rng.randrange(n)
                if rng.random() < .5:
                    downs[i] ^= 1
                    for j in range(n):
                        if rng.random() < .3:
                            downs[j] ^= 1
                iv = rng.choice(ivs)
                yield dict(op="tick", dt=rng.choice([0, 1, 10, iv // 2, iv // 3, iv, iv + 1, iv + 50, 2 * iv + 3]), downs=list(downs))


class Press(_Base):
    name = "Switch"
    mc = [("MCSwitch", "CONSTANTS Hold = FALSE Two = FALSE NOvr = 4\nINVARIANT Safety\nCONSTRAINT Bound\n", True),
          ("MCSwitch", "CONSTANTS Hold = FALSE Two = TRUE NOvr = 1\nINVARIANT Safety\nCONSTRAINT Bound\n", True)]


class Hold(_Base):
    name = "SwitchHold"
    hold = True
    mc = [("MCSwitch", "CONSTANTS Hold = TRUE Two = FALSE NOvr = 2\nINVARIANT Safety\nCONSTRAINT Bound\n", True),
          ("MCSwitch", "CONSTANTS Hold = TRUE Two = TRUE NOvr = 1\nINVARIANT Safety\nCONSTRAINT Bound\n", True)]
    mc_thorough = [("MCSwitch", "CONSTANTS Hold = TRUE Two = FALSE NOvr = 4\nINVARIANT Safety\nCONSTRAINT Bound\n", False)]
