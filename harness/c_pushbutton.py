import world, vdev
from engine import Component
MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE", "DEFAULT"]


class Cb:
    """User supplied functionality: is told about changes, and displays the state."""
    def __init__(self, sut, i):
        self.sut, self.i = sut, i
        self.shown = 0
    def init(self, appl, listener=None):
        pass
    def push(self):
        pass
    def release(self):
        pass
    def reset(self):
        pass
    def update_displays(self):
        self.shown = int(bool(self.action.state))
    def state_changed_by_user(self):
        self.sut.told.append([self.i, int(bool(self.action.state))])


class Sut:
    def __init__(self, cfg):
        self.told, self.acts = [], []
        A = world.imp("pyswitch.controller.actions")
        self.cbs = []
        for k, b in enumerate(cfg["b"]):
            cb = Cb(self, k + 1)
            c = {"callback": cb}
            if b["mode"] != "DEFAULT":
                c["mode"] = getattr(A.PushButtonAction, b["mode"])
            if b["hold"] != 600:
                c["holdTimeMillis"] = b["hold"]
            self.cbs.append(cb)
            self.acts.append(A.PushButtonAction(c))
        self.sw = vdev.Switch()
        d = {"assignment": {"model": self.sw}, "actions": self.acts}
        if cfg["click"]:
            d["actionsHold"] = [A.Action({})]
        self.dev = vdev.Device(inputs=[d])
        self.dev.init()
        world.CLOCK.ms = 1000

    def observe_init(self):
        return self.obs()

    def obs(self):
        r = dict(exc="", state=[int(bool(a.state)) for a in self.acts], shown=[c.shown for c in self.cbs], told=self.told)
        self.told = []
        return r

    def step(self, a):
        op = a["op"]
        if op == "tick":
            self.sw.down = bool(a["down"])
            self.dev.tick(a["dt"])
        else:
            x = self.acts[a["i"] - 1]
            if op == "feedback":
                x.feedback_state(bool(a["s"]))
                x.update_displays()
            elif op == "reset":
                x.reset()
            elif op == "set":
                x.state = bool(a["s"])
        return self.obs()


class PushButton(Component):
    name = spec = "PushButton"
    mc = [("MCPushButton", "INVARIANT Safety\nCONSTRAINT Bound\n", True)]
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 300

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, rng):
        return dict(b=[dict(mode=rng.choice(MODES), hold=rng.choice([600, 600, 100, 1000, 0, 5])) for _ in range(rng.choice([1, 1, 2, 3, 5]))], click=int(rng.random() < .15))

    def random_acts(self, rng, cfg):
        down = 0
        n = len(cfg["b"])
        hs = [b["hold"] for b in cfg["b"]]
        for _ in range(rng.randint(20, 60)):
            r = rng.random()
            if r < .7:
                if rng.random() < .6:
                    down ^= 1
                h = rng.choice(hs)
                yield dict(op="tick", dt=rng.choice([0, 1, 5, h, h + 1, h // 2, 30, 600, 601, 2000]), down=down)
            elif r < .82:
                yield dict(op="feedback", i=rng.randint(1, n), s=rng.randint(0, 1))
            elif r < .9:
                yield dict(op="reset", i=rng.randint(1, n))
            else:
                yield dict(op="set", i=rng.randint(1, n), s=rng.randint(0, 1))
