SEEDS = []
def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

seed("c06-cleanup-skip", "C06", "two requests time out in the same cleanup pass", "the second of two adjacent lost requests is not given up in the same pass: its listeners are told late or never",
     [("controller/client.py", """            if request.lifetime and request.lifetime.exceeded:
                request.terminate()

        self.__cleanup_requests()""", """            if request.lifetime and request.lifetime.exceeded:
                request.terminate()
                self.__requests.remove(request)""")],
     """
M = world.imp("pyswitch.controller.client").ClientParameterMapping
dev = vdev.Device(); dev.init()
log = []
class L:
    def parameter_changed(s, m): pass
    def request_terminated(s, m): log.append(m.name)
l = L()
for i in range(3):
    dev.ctl.client.request(M.get(name="p%d" % i, request=sysex([0], [i]), response=cc(10 + i, 0)), l)
dev.tick(10)
dev.tick(2500)
assert log == ["p0", "p1", "p2"], log
""")

seed("c04-hold-timer", "C04", "a hold action disabled while the switch is held and another short press following", "a disabled hold action keeps the hold pending, so that the press is judged as a hold and as short press",
     [("controller/inputs.py", """            if self.__hold_repeat:
                self.__hold_was_active = True
            else:
                self.__hold_active = False

            # Hold click
            for action in self.__actions_hold:
                if not action.enabled:
                    continue
""", """            # Hold click
            for action in self.__actions_hold:
                if not action.enabled:
                    continue

                if self.__hold_repeat:
                    self.__hold_was_active = True
                else:
                    self.__hold_active = False
""")],
     """
A = world.imp("pyswitch.controller.actions").Action
log, en = [], [True]
class Cb:
    def __init__(s, n): s.n = n
    def init(s, a, l=None): pass
    def push(s): log.append(s.n)
    def release(s): pass
    def update_displays(s): pass
    def reset(s): pass
class En:
    def init(s, a): pass
    def enabled(s, a): return en[0]
sw = vdev.Switch()
dev = vdev.Device(inputs=[{"assignment": {"model": sw}, "actions": [A({"callback": Cb("short")})], "actionsHold": [A({"callback": Cb("hold"), "enableCallback": En()})]}])
dev.init()
en[0] = False
sw.down = True; dev.tick(10)
dev.tick(700)
dev.tick(100)
sw.down = False; dev.tick(10)
assert log == [], log
""")

seed("c03-release-snapshot", "C03", "two switches, one released while the other is pressed", "the release of a switch is only noticed once no other switch changed in the same pass",
     [("controller/controller.py", """            for input in self.inputs:
                input.process()
            """, """            for input in self.inputs:
                if input.process():
                    break
            """), ("controller/inputs.py", """            action.push()

    # Checks hold time""", """            action.push()

        return len(self.__actions) > 1

    # Checks hold time""")],
     """
A = world.imp("pyswitch.controller.actions").Action
log = []
class Cb:
    def __init__(s, n): s.n = n
    def init(s, a, l=None): pass
    def push(s): log.append("push" + s.n)
    def release(s): log.append("release" + s.n)
    def update_displays(s): pass
    def reset(s): pass
s1, s2 = vdev.Switch(), vdev.Switch()
dev = vdev.Device(inputs=[{"assignment": {"model": s1}, "actions": [A({"callback": Cb("a")}), A({"callback": Cb("b")})]}, {"assignment": {"model": s2}, "actions": [A({"callback": Cb("c")})]}])
dev.init()
dev.tick(300)
s1.down = s2.down = True; dev.tick(10)
s1.down = s2.down = False; dev.tick(10)
assert sorted(log) == ["pusha", "pushb", "pushc", "releasea", "releaseb", "releasec"], log
""")

seed("c01-one-source", "C01", "two external sources, the first of which has no message pending", "messages of further sources are dropped while the first one is idle",
     [("controller/midi.py", """                msg = results[i]
        
                if not msg:
                    continue
""", """                msg = results[i]
        
                if not msg:
                    return
""")],
     """
M = world.imp("pyswitch.controller.midi")
a, b, c = vdev.Port(), vdev.Port(), vdev.Port()
m = M.MidiController([M.MidiRouting(a, c), M.MidiRouting(b, c)])
b.inq.append(cc(1, 2))
m.receive()
a.inq.append(cc(3, 4))
m.receive()
assert c.take() == [[176, 1, 2], [176, 3, 4]]
""")
