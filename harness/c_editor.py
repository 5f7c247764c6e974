"""Web editor (web/htdocs/python/parser): needs libcst, which is used as installed."""
import ast, contextlib, json, os, sys, tempfile, textwrap
import world
from engine import Component
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WEB = os.path.join(os.path.dirname(os.path.dirname(world.LIB)), "web", "htdocs")
CLIENTS = '["boomerang", "kemper"]'

# ----------------------------------------------------------------------------- nodes
def node(k, n="", u=(), a=()):
    return {"k": k, "n": n, "u": list(u), "a": [dict(n=x, v=v) for x, v in a], "as": "", "cl": ""}

NONE = node("none")

def used(e):
    return sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)})

def root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None

def plain_key(k):
    return isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isprintable() and not set('"\\') & set(k.value)

def from_ast(e, deep=True):
    if isinstance(e, ast.Name):
        return node("r", e.id, [e.id])
    if isinstance(e, ast.Attribute) and root(e):
        return node("at", ast.unparse(e), [root(e)])
    if deep and isinstance(e, ast.Call) and not any(isinstance(x, ast.Starred) for x in e.args) and all(k.arg for k in e.keywords):
        return node("call", ast.unparse(e.func), [root(e.func)], [("", from_ast(x)) for x in e.args] + [(k.arg, from_ast(k.value)) for k in e.keywords])
    if deep and isinstance(e, ast.List) and not any(isinstance(x, ast.Starred) for x in e.elts):
        return node("list", a=[("", from_ast(x)) for x in e.elts])
    if deep and isinstance(e, ast.Dict) and all(plain_key(k) for k in e.keys):
        return node("dict", a=[(k.value, from_ast(v)) for k, v in zip(e.keys, e.values)])
    return node("c", ast.unparse(e), used(e))

def code(s, deep=False):
    return from_ast(ast.parse(s.strip(), mode="eval").body, deep)

def from_data(d):
    """What the editor hands out -> node"""
    if d is None:
        return NONE
    if isinstance(d, str):
        return code(d)
    if isinstance(d, list):
        return node("list", a=[("", from_data(x)) for x in d])
    if "name" in d:
        x = node("call", ast.unparse(ast.parse(d["name"])), [root(ast.parse(d["name"], mode="eval").body)], [(y.get("name", ""), from_data(y["value"])) for y in d["arguments"]])
        x["cl"] = d["client"]
    elif "arguments" in d:
        x = node("dict", a=[(y["name"], from_data(y["value"])) for y in d["arguments"]])
    else:
        x = from_data(d["value"])
    if d.get("assign"):
        x["as"] = d["assign"]
    return x

class Proxy:
    """JavaScript object"""
    def __init__(self, d):
        self.d = d
    def to_py(self):
        return json.loads(json.dumps(self.d))

def to_data(x, raw=lambda s: s):
    if x["k"] == "call":
        d = dict(name=x["n"], arguments=[dict(value=to_data(y["v"], raw), **({"name": y["n"]} if y["n"] else {})) for y in x["a"]], client=x["cl"])
    elif x["k"] == "dict":
        d = dict(arguments=[dict(name=y["n"], value=to_data(y["v"], raw)) for y in x["a"]])
    elif x["k"] == "list":
        d = [to_data(y["v"], raw) for y in x["a"]]
    else:
        d = raw(x["n"])
    if x["as"]:
        if isinstance(d, dict):
            d["assign"] = x["as"]
        else:
            d = dict(value=d, assign=x["as"])
    return d

# ----------------------------------------------------------------------------- source files as a user writes them
def render(x, r, ind):
    """r: random.Random deciding the formatting"""
    if x["k"] in ("c", "at", "r"):
        return x["n"]
    o, c = dict(call="()", list="[]", dict="{}")[x["k"]]
    wide = x["a"] and r.random() < .5
    pad = "\n" + "    " * (ind + 1)
    items = []
    for y in x["a"]:
        s = render(y["v"], r, ind + 1)
        if x["k"] == "dict":
            q = r.choice("\"\"'") if "'" not in y["n"] else '"'
            s = q + y["n"] + q + r.choice([": ", ":  ", ":"]) + s
        elif y["n"]:
            s = y["n"] + r.choice([" = ", "="]) + s
        items.append(s)
    if not wide:
        return (x["n"] if o == "(" else "") + o + ", ".join(items) + c
    return (x["n"] if o == "(" else "") + o + r.choice(["", "  # c"]) + "".join(pad + s + ("," if i < len(items) - 1 or r.random() < .5 else "") + r.choice(["", "", "  # x"]) for i, s in enumerate(items)) + "\n" + "    " * ind + c


def source(f, com, r):
    """-> (source text, texts of the statements)"""
    out, texts, com = [], [], list(com)
    for i in f["imp"]:
        m, _, o = i["m"].partition(":")  # module[:original name]
        out.append(f"from {m} import {o + ' as ' if o else ''}{i['n']}" + r.choice(["", "  # i"]))
    for k, s in enumerate(f["body"]):
        if r.random() < .5:
            out.append("")
        n = len(com) if k == len(f["body"]) - 1 else r.choice([0, 0, 1, 2])
        for _ in range(min(n, len(com))):
            out.append(com.pop(0))
        if s["k"] == "oth":
            t = s["n"]
        else:
            t = s["n"] + r.choice([" = ", "  =  ", "="]) + render(s["v"], r, 0)
        texts.append(t)
        out.append(t + (r.choice(["", "", "  # tail"]) if "\n" not in t else ""))
    return "\n".join(out) + r.choice(["\n", "\n", "", "\n\n"]) if out else "", texts


def exports():
    """Modules of the firmware and what they define"""
    d = {}
    for p, _, fs in os.walk(os.path.join(world.LIB, "pyswitch")):
        for f in fs:
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(p, f), world.LIB)[:-3].replace(os.sep, ".").removesuffix(".__init__")
                d[m] = {getattr(x, "name", None) for x in ast.parse(open(os.path.join(p, f)).read()).body} | \
                       {t.id for x in ast.parse(open(os.path.join(p, f)).read()).body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    return d

EXP = {}

class Sut:
    def __init__(self, cfg):
        import random
        self.cfg = cfg
        r = random.Random(json.dumps(cfg["f"], sort_keys=True))
        if not EXP:
            EXP.update(exports())
        if SITE not in sys.path:
            sys.path.append(SITE)
        import libcst  # noqa
        for n in [n for n in sys.modules if n == "parser" or n.startswith("parser.")]:
            del sys.modules[n]
        sys.path.insert(0, WEB + "/python")
        try:
            import importlib
            self.P = importlib.import_module("parser.PySwitchParser").PySwitchParser
        finally:
            sys.path.remove(WEB + "/python")
        self.src, self.texts = {}, {}
        for f in ("in", "ds"):
            self.src[f], t = source(cfg["f"][f], cfg["com"][f], r)
            self.texts[f] = {s["n"]: x for s, x in zip(cfg["f"][f]["body"], t)}
        self.touched = {"in": set(), "ds": set()}
        with self.root():
            self.p = self.P("pyswitch.hardware.devices.pa_midicaptain_10", CLIENTS)
            self.p.from_source(self.src["in"], self.src["ds"])

    @contextlib.contextmanager
    def root(self):
        """Working directory like the one of the editor's Python runtime"""
        old, d = os.getcwd(), tempfile.mkdtemp(prefix="pysw_web_")
        try:
            os.symlink(WEB + "/definitions", d + "/definitions")
            os.symlink(world.LIB + "/pyswitch", d + "/pyswitch")
            os.chdir(d)
            yield
        finally:
            os.chdir(old)
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            os.rmdir(d)

    def observe_init(self):
        return self.obs()

    def tree(self, get):
        return from_data(json.loads(get()))

    def obs(self, save=False, code=NONE):
        with self.root():
            r = dict(exc="", code=code, files=[], disp=json.loads(self.p.displays()), **{"in": self.tree(self.p.inputs), "ds": self.tree(self.p.splashes)})
            if save:
                s = self.p.to_source()
                r["files"] = [self.file("in", s["inputs_py"]), self.file("ds", s["display_py"])]
                r.update({"in": self.tree(self.p.inputs), "ds": self.tree(self.p.splashes)})
        return r

    def file(self, f, text):
        imp, body = [], []
        for s in ast.parse(text).body:
            if isinstance(s, ast.ImportFrom) and s.names[0].name != "*":
                for a in s.names:
                    late = any(isinstance(x, (ast.Assign, ast.FunctionDef)) for x in ast.parse(text).body if x.lineno < s.lineno)
                    bad = s.module in EXP and a.name not in EXP[s.module] or s.module.startswith("pyswitch") and s.module not in EXP
                    imp.append([a.asname or a.name, s.module + (":" + a.name if a.asname else "") + (" (late)" if late else "") + (" (not there)" if bad else "")])
                continue
            t = ast.get_source_segment(text, s)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                body.append(dict(n=n, same=0 if n in self.touched[f] else int(t == self.texts[f].get(n)), v=from_ast(s.value)))
            else:
                body.append(dict(n=t, same=1, v=NONE))
        com = sorted(x.strip() for x in text.splitlines() if x.startswith("# keep"))
        return dict(com=com, imp=sorted(imp), body=body)

    def step(self, a):
        c = NONE
        with self.root():
            for x in a["set"]:
                self.touched[x["f"]] |= {y for y in names_as(x["d"])} | {"Inputs" if x["f"] == "in" else "Splashes"}
                (self.p.set_inputs if x["f"] == "in" else self.p.set_splashes)(Proxy(to_data(x["d"])) if not isinstance(to_data(x["d"]), str) else Str(x["d"]["n"]))
            if a["op"] == "code":
                d = to_data(a["d"])
                c = code(self.p.code_for_data_node(d if isinstance(d, str) else Proxy(d), a["fmt"]), True)
        return self.obs(a["save"], c)


class Str:
    def __init__(self, s):
        self.s = s
    def to_py(self):
        return self.s


def names_as(x):
    return ([x["as"]] if x["as"] else []) + [n for y in x["a"] for n in names_as(y["v"])]

# ----------------------------------------------------------------------------- drivers
def functions():
    """Actions and mappings offered by the firmware: everything public and written in capitals in these folders"""
    d = []
    for c in ("boomerang", "kemper", "local"):
        for k in ("actions", "mappings"):
            p = os.path.join(world.LIB, "pyswitch", "clients", c, k)
            for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
                if f.endswith(".py"):
                    for x in ast.parse(open(os.path.join(p, f)).read()).body:
                        if isinstance(x, ast.FunctionDef) and x.name.isupper() and not x.name.startswith("_"):
                            d.append((x.name, f"pyswitch.clients.{c}.{k}" + ("" if f == "__init__.py" else "." + f[:-3])))
    return sorted(d)

IN = [("Colors", "pyswitch.colors"), ("DEFAULT_SWITCH_COLOR", "pyswitch.colors"), ("KemperEffectSlot", "pyswitch.clients.kemper"), ("KemperMappings", "pyswitch.clients.kemper"),
      ("PagerAction", "pyswitch.clients.local.actions.pager"), ("EncoderAction", "pyswitch.controller.actions.EncoderAction"), ("AnalogAction", "pyswitch.controller.actions.AnalogAction"),
      ("PushButtonAction", "pyswitch.controller.actions"), ("BinaryParameterCallback", "pyswitch.controller.callbacks"), ("Keycode", "adafruit_hid.keycode"), ("PYSWITCH_VERSION", "pyswitch.misc"),
      ("RIG_SELECT_DISPLAY_TARGET_RIG", "pyswitch.clients.kemper.actions.rig_select"), ("FIXED_SLOT_ID_WAH", "pyswitch.clients.kemper.actions.fixed_fx")]
DS = [("Colors", "pyswitch.colors"), ("DEFAULT_LABEL_COLOR", "pyswitch.colors"), ("const", "micropython"), ("DisplayElement", "pyswitch.ui.ui"), ("DisplayBounds", "pyswitch.ui.ui"),
      ("DisplayLabel", "pyswitch.ui.elements"), ("BidirectionalProtocolState", "pyswitch.ui.elements"), ("PYSWITCH_VERSION", "pyswitch.misc"), ("TunerDisplayCallback", "pyswitch.clients.kemper"),
      ("KemperRigNameCallback", "pyswitch.clients.kemper"), ("KemperTempoDisplayCallback", "pyswitch.clients.kemper.callbacks.tempo_bpm"), ("SplashesCallback", "pyswitch.clients.local.callbacks.splashes")]
OWN = [("MY_ACTION", "my_actions"), ("TUNER_MODE", "my_actions"), ("helper", "lib.stuff"), ("DisplayLabel", "my_ui"), ("Colors", "my_colors"), ("unused", "my_actions"), ("other", "my_actions:Original"), ("helper2", "lib.stuff:helper"), ("Button", "pyswitch.controller.actions:PushButtonAction")]
LABELS = ["DISPLAY_1", "DISPLAY_HEADER_2", "TUNER", "_private"]
LOCAL = {"in": ["_a", "_pager", "_accept", "ACTIONS", "PAGE"], "ds": LABELS + ["_LAYOUT", "_W"]}
ATOMS = ["1", "-5", "None", "True", "'text'", "'a \\'q\\''", "(1, 2, 3)", "1.5", "lambda action: action.id == 3", "[i for i in (1, 2)]", "'x' 'y'", "1 + 2", "{1: 2}", "X(*y)", "b'ab'", "'\\n'", "not z", "(lambda: 4)", "{**q}", "[*q]", "f'{q}'", "q[0]", "q.x[1]", "(q or 3)", "{'a\"b': 1}"]


def client(m):
    return next((c for c in ("boomerang", "kemper") if m.startswith("pyswitch.clients." + c)), "local")

class Gen:
    def __init__(self, r, f, known, assigned):
        self.r, self.f, self.known, self.assigned = r, f, known, assigned

    def atom(self):
        r = self.r
        x = r.random()
        if x < .2:
            n = r.choice(self.known)
            return code(n + "." + r.choice(["RED", "A", "b.c"])) if r.random() < .7 else code(n)
        if x < .3:
            n = r.choice(self.known)
            return code(r.choice([f"({n}, 1)", f"lambda x: {n}(x)", f"{n} + 1", f"[{n} for _ in q]", f"X(*{n})", f"-{n}.Y"]))
        if x < .4 and self.f == "in":
            return code(r.choice(LABELS[:3]))
        return code(r.choice(ATOMS))

    def value(self, depth, refs=()):
        r = self.r
        x = r.random()
        if refs and x < .25:
            return code(r.choice(refs))
        if depth <= 0 or x < .4:
            return self.atom()
        sub = lambda: self.value(depth - 1, refs)
        n = r.choice([0, 1, 1, 2, 3])
        if x < .7:
            fn = r.choice(self.known + ["unknown_function"] + (["DisplayBounds"] if self.f == "ds" else []))
            if fn == "KemperMappings":
                fn += ".RIG_NAME"
            elif refs and r.random() < .1:
                fn = r.choice(refs) + ".proxy"
            pos = r.choice([0, 0, 1, 4]) if fn == "DisplayBounds" else r.choice([0, 0, 1])
            names = r.sample(["id", "display", "color", "text", "actions", "slot_id", "mapping"], n)
            return node("call", fn, [fn.split(".")[0]], [("", sub()) for _ in range(pos)] + [(k, sub()) for k in names])
        if x < .85:
            return node("list", a=[("", sub()) for _ in range(n)])
        return node("dict", a=[(k, sub()) for k in r.sample(["assignment", "actions", "actionsHold", "font", "a b", "it's"], n)])


def walk(x, out=None):
    out = [] if out is None else out
    out.append(x)
    for y in x["a"]:
        walk(y["v"], out)
    return out

def deps(x, top, edges):
    """Adds who uses whom; top: names being defined"""
    if x["as"]:
        for t in top:
            edges.setdefault(t, set()).add(x["as"])
        top = top + [x["as"]]
    for n in x["u"]:
        for t in top:
            edges.setdefault(t, set()).add(n)
    for y in x["a"]:
        deps(y["v"], top, edges)

def cyclic(edges):
    state = {}
    def go(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2:
            return False
        state[n] = 1
        if any(go(m) for m in edges.get(n, ())):
            return True
        state[n] = 2
        return False
    return any(go(n) for n in list(edges))


class Editor(Component):
    name = "Editor"
    spec = "Editor"
    trace_cfg = "INVARIANT Safety\n"
    n_traces = 160
    thorough_factor = 8
    walk_budget = 9000
    walk_len = 40
    mc = [("MCEditor", f"CONSTANTS Sel = {k} Dts = {{0}}\nINVARIANT Safety\n", True) for k in (1, 2, 3)]

    def make(self, cfg):
        return Sut(cfg)

    def random_cfg(self, r):
        fs = {"in": functions() + IN, "ds": DS}
        f, com, known = {}, {}, {}
        for k in ("in", "ds"):
            pick = r.sample(fs[k], 8)
            if k == "ds" and r.random() < .7:
                pick += [x for x in DS if x[0] in ("DisplayElement", "DisplayBounds", "DisplayLabel") and x not in pick]
            own = r.sample(OWN, r.choice([0, 0, 1, 2]))
            known[k] = pick
            imp = own + [x for x in r.sample(pick, r.choice([0, 1, 3, 6])) if x[0] not in [o[0] for o in own]]
            g = Gen(r, k, sorted({x[0] for x in pick + own} - {"unused"}), None)
            body, names = [], []
            t = "Inputs" if k == "in" else "Splashes"
            for n in r.sample(LOCAL[k], r.randint(0, 4)):
                v = g.value(r.choice([0, 1, 2, 3]), names)
                if v["k"] == "r":
                    v = g.value(0)
                body.append(dict(k="asg", n=n, v=v, u=[], same=1))
                names.append(n)
            if r.random() < .95:
                v = g.value(3, names)
                if k == "in" and r.random() < .8:
                    v = node("list", a=[("", g.value(3, names)) for _ in range(r.randint(0, 4))])
                body.insert(len(body) if r.random() < .8 or any(s["n"] in walkn(v) for s in body) else r.randint(0, len(body)), dict(k="asg", n=t, v=v, u=[], same=1))
            kn = g.known
            for o in r.sample([("print(1)", []), ('"""doc"""', []), ("def f(x):\n    return [{0}, x]", 1), ("q.x = {0}", 1), ("q['x'] = {0}", 1), ("p, q = 1, {0}", 1), ("if 1:\n    w = {0}\nelse:\n    pass", 1),
                               ("from pyswitch.hardware.devices.pa_midicaptain_10 import *", []), ("z: int = 5", []), ("for y in [{0}]:\n    pass", 1), ("class Foo({0}):\n    x = 3", 1)], r.choice([0, 0, 1, 2, 3])):
                s = o[0]
                if o[1] == 1:
                    s = s.format(r.choice(kn))
                body.insert(r.randint(0, len(body)) if not s.startswith('"""') else 0, dict(k="oth", n=s, v=NONE, u=used(ast.parse(s)), same=1))
            body.sort(key=lambda s: 0 if s["n"].startswith('"""') else 1)
            f[k] = dict(imp=[dict(n=n, m=m, c=client(m)) for n, m in imp], body=body)
            com[k] = [f"# keep {x}" for x in range(r.choice([0, 1, 3]) if body else 0)]
        cand = {k: sorted([list(x) for x in set(fs[k] + OWN)] + ([[n, "display"] for n in LABELS[:3]] if k == "in" else [])) for k in f}
        return dict(f=f, com=com, known={k: [dict(n=n, m=m, c=client(m)) for n, m in fs[k]] for k in fs}, pub=LABELS[:3] + ["Splashes"], cand=cand)

    def random_acts(self, r, cfg):
        edit = lambda s, save=False, **kw: dict(dict(op="edit", set=s, save=save, d=NONE, fmt=False), **kw)
        out = yield edit([])
        edges = {}
        for k in ("in", "ds"):
            e = edges[k] = {}
            for s in cfg["f"][k]["body"]:
                if s["k"] == "asg":
                    deps(s["v"], [s["n"]], e)
        for _ in range(r.randint(3, 8)):
            sets = []
            for k in r.choice([["in"], ["in"], ["ds"], ["ds"], ["in", "ds"], []]):
                d = json.loads(json.dumps(out.get(k, NONE)))
                t = "Inputs" if k == "in" else "Splashes"
                if d["as"] == t and r.random() < .3:
                    d["as"] = ""
                if d["k"] == "none":
                    if r.random() < .3:
                        continue
                    d = node("list") if k == "in" else node("call", "DisplayElement", ["DisplayElement"])
                known = sorted({x["n"] for x in cfg["known"][k]} | {x["n"] for x in cfg["f"][k]["imp"]} - {"unused"})
                g = Gen(r, k, r.sample(known, min(len(known), 6)), None)
                for _ in range(r.choice([0, 1, 1, 2, 4])):
                    old = json.dumps(d)
                    self.mutate(r, d, g, k, t)
                    e = {x: set(y) for x, y in edges[k].items()}
                    deps(dict(d, **{"as": ""}), [t], e)
                    if cyclic(e):
                        d = json.loads(old)
                if d["k"] in ("c", "r", "at"):
                    continue
                deps(dict(d, **{"as": ""}), [t], edges[k])
                sets.append(dict(f=k, d=d))
            if r.random() < .2:
                g = Gen(r, "in", ["RIG_SELECT", "Colors"], None)
                d = r.choice(walk(out["in"]) if "in" in out and out["in"]["k"] != "none" else [g.value(3)])
                out = yield edit(sets, r.random() < .3, op="code", d=d, fmt=r.random() < .5)
            else:
                out = yield edit(sets, r.random() < .4)
            if not out or out.get("exc"):
                return
        yield edit([], True)

    def mutate(self, r, d, g, f, t):
        nodes = walk(d)
        x = r.choice(nodes)
        op = r.random()
        new = [n for n in LOCAL[f]]
        inner = [y for y in nodes[1:]]
        if op < .25 and x["k"] in ("call", "dict", "list"):
            v = g.value(2)
            n = "" if x["k"] == "list" else next(q for q in ["volume", "rig", "bank", "x2", "x3", "x4", "x5", "x6"] + ["y%d" % i for i in range(99)] if q not in [y["n"] for y in x["a"]])
            if x["k"] == "call" and x["a"] and r.random() < .2:
                x["a"].insert(0, dict(n="", v=v))
            else:
                x["a"].append(dict(n=n, v=v))
        elif op < .4 and x["a"]:
            x["a"].pop(r.randrange(len(x["a"])))
        elif op < .5 and x["k"] in ("c", "at", "r") and not x["as"]:
            x.update(g.atom())
        elif op < .7 and inner:
            y = r.choice(inner)
            if y["k"] not in ("r",):
                y["as"] = r.choice(new)
        elif op < .78 and inner:
            r.choice(inner)["as"] = ""
        elif op < .9 and inner and x["k"] in ("list", "dict", "call"):
            y = json.loads(json.dumps(r.choice(inner)))
            x["a"].append(dict(n="" if x["k"] == "list" else "cp%d" % len(x["a"]), v=y)) if "cp%d" % len(x["a"]) not in [z["n"] for z in x["a"]] else None
        elif x["k"] == "list":
            r.shuffle(x["a"])


def walkn(x):
    return {n for y in walk(x) for n in y["u"]}
