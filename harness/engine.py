"""Binds a TLA+ specification to the code in both directions.

 model -> code : TLC enumerates the bounded state graph of spec/<MC>.tla and prints every transition; walks which cover
                 all transitions are executed on the real code and every observation is compared with the specified one.
 code -> model : random drivers run the real code, the recorded traces are validated by TLC against the same spec
                 (spec/Trace.tla.in instantiated for the component).
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
from multiprocessing.pool import ThreadPool
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
STEP_LIMIT = 5       # seconds per step of the real code


class MachineryError(Exception):
    pass


# ----------------------------------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = self.generated = 0
        self.edges = []
        self.inits = []
        self.violation = None
        self.output = ""


def run_tlc(module, cfg_text, workdir, env=None, edges=False, workers=1, timeout=800, heap="4g", extra=()):
    """Runs TLC on `module` (a .tla file in workdir). Returns TlcResult.
    One worker per process: TLC normalizes records shared by its workers in place without locking, so printing them from
    several workers can yield damaged records. Parallel work is done by several TLC processes instead."""
    cfg = os.path.join(workdir, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", f"-Djava.io.tmpdir={workdir}", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPEC}:{workdir}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(workdir, "meta"), "-noGenerateSpecTE", "-config", cfg, *extra, os.path.join(workdir, module + ".tla")]
    r = TlcResult()
    keep = []
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=workdir, env=e, text=True)
    signal_alarm = time.time() + timeout
    for line in p.stdout:
        if line.startswith('"@E'):
            r.edges.append(line)
        elif line.startswith('"@I'):
            r.inits.append(line)
        else:
            keep.append(line)
            if len(keep) > 20000:
                del keep[:5000]
        if time.time() > signal_alarm:
            p.kill()
            raise MachineryError(f"TLC timed out on {module}")
    p.wait()
    r.output = "".join(keep)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.output.replace(",", "").replace("states generated ", "states generated, ")) \
        or re.findall(r"(\d+) states generated.*?(\d+) distinct states found", r.output)
    if m:
        r.generated, r.states = int(m[-1][0]), int(m[-1][1])
    if p.returncode == 0 and "No error has been found" in r.output:
        return r
    m = re.search(r"(Invariant|Action property|Temporal properties|property) ?(\w+)? ?(is|were) violated", r.output)
    if m or "is violated" in r.output:
        r.violation = (m.group(2) if m else None) or "property"
        return r
    if "Attempted to check equality" in r.output or "Attempted to compare" in r.output:
        # The code produced a value of another type than the specified one
        r.violation = "Conforms"
        return r
    raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + r.output[-6000:])


def _unquote(line):
    # TLC prints a TLA+ string: "@E {...}" with escaped quotes
    s = line.strip()[1:-1]
    s = s.replace('\\\\', '\x00').replace('\\"', '"').replace('\x00', '\\')
    return json.loads(s[3:])


GEN = """---- MODULE {gen} ----
EXTENDS {mc}, TLC, Json
GenInit == Init /\\ PrintT("@I " \\o ToJson([c |-> cfg, o |-> out, t |-> View]))
GenCheck == @CHECK@
GenEmit == GenCheck /\\ PrintT("@E " \\o ToJson([f |-> View, a |-> act', o |-> out', t |-> View']))
====
"""


def model_check(mc, cfg_lines, workdir, edges=True, timeout=800, consts=None):
    """Exhaustive TLC run of spec/<mc>.tla. With edges: also returns the labelled state graph."""
    gen = mc + "Gen"
    # StepOK: properties of single steps (of the observation made). Asserted for every transition of the graph, as the
    # VIEW hides the observation from the state comparison.
    step = any("\nStepOK ==" in open(os.path.join(SPEC, m + ".tla")).read() for m in (mc, mc[2:].rstrip("0123456789")) if os.path.exists(os.path.join(SPEC, m + ".tla")))
    check = 'Assert(StepOK, <<"StepOK violated", act\'>>)' if step else "TRUE"
    with open(os.path.join(workdir, gen + ".tla"), "w") as f:
        f.write(GEN.format(gen=gen, mc=mc).replace("@CHECK@", check))
    if edges:
        text = "INIT GenInit\nNEXT Next\nVIEW View\nACTION_CONSTRAINT GenEmit\nCHECK_DEADLOCK FALSE\n" + cfg_lines
        r = run_tlc(gen, text, workdir, edges=True, timeout=timeout)
    else:
        text = "INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT GenCheck\nCHECK_DEADLOCK FALSE\n" + cfg_lines
        r = run_tlc(gen, text, workdir, timeout=timeout)
    if r.violation:
        raise MachineryError(f"specification {mc} violates its own property {r.violation}:\n" + r.output[-6000:])
    return r


# ----------------------------------------------------------------------------------------------------- walks

def _key(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).digest()[:10]


class Graph:
    def __init__(self, r):
        self.ids = {}
        self.inits = []          # (node, cfg, out)
        self.succ = {}           # node -> list of (act, out, node)
        self.n_edges = 0
        seen = set()
        r.inits.sort()
        for line in r.inits:
            d = _unquote(line)
            n = self._id(d["t"])
            if n not in seen:
                seen.add(n)
                self.inits.append((n, d["c"], d["o"]))
        dup = set()
        r.edges.sort()
        for line in r.edges:
            d = _unquote(line)
            f, t = self._id(d["f"]), self._id(d["t"])
            k = (f, _key(d["a"]), t)
            if k in dup:
                continue
            dup.add(k)
            self.succ.setdefault(f, []).append((d["a"], d["o"], t))
            self.n_edges += 1
        for v in self.succ.values():
            v.sort(key=lambda e: json.dumps(e[0], sort_keys=True))

    def _id(self, x):
        return self.ids.setdefault(_key(x), len(self.ids))

    def walks(self, rng, max_len=60, max_walks=None, budget_steps=None):
        """Walks from initial states which together take every transition (or as many as the budget allows)."""
        unc = {n: list(range(len(es))) for n, es in self.succ.items()}
        for v in unc.values():
            rng.shuffle(v)
        # Nodes reachable from which init? plain BFS tree from all inits
        parent = {}
        dq = deque()
        for n, c, o in self.inits:
            if n not in parent:
                parent[n] = None
                dq.append(n)
        order = []
        while dq:
            n = dq.popleft()
            order.append(n)
            for i, (a, o, t) in enumerate(self.succ.get(n, ())):
                if t not in parent:
                    parent[t] = (n, i)
                    dq.append(t)
        initinfo = {n: (c, o) for n, c, o in self.inits}
        todo = deque(order)
        res, steps = [], 0
        while todo:
            n = todo[0]
            if not unc.get(n):
                todo.popleft()
                continue
            path = []
            x = n
            while parent[x] is not None:
                path.append(parent[x])
                x = parent[x][0]
            path.reverse()
            walk = []
            for (m, i) in path:
                walk.append(self.succ[m][i])
                if i in unc[m]:
                    unc[m].remove(i)
            cur = n
            base = len(walk)
            while len(walk) - base < max_len:
                if unc.get(cur):
                    i = unc[cur].pop()
                else:
                    # nearest node with something uncovered (small BFS)
                    i = None
                    q, prev = deque([cur]), {cur: None}
                    goal = None
                    while q and len(prev) < 400:
                        y = q.popleft()
                        if y != cur and unc.get(y):
                            goal = y
                            break
                        for j, (a, o, t) in enumerate(self.succ.get(y, ())):
                            if t not in prev:
                                prev[t] = (y, j)
                                q.append(t)
                    if goal is None:
                        break
                    hop = []
                    y = goal
                    while prev[y] is not None:
                        hop.append(prev[y])
                        y = prev[y][0]
                    for (m, j) in reversed(hop):
                        walk.append(self.succ[m][j])
                    cur = goal
                    continue
                e = self.succ[cur][i]
                walk.append(e)
                cur = e[2]
            res.append((initinfo[x], [(a, o) for a, o, _ in walk]))
            steps += len(walk)
            if (max_walks and len(res) >= max_walks) or (budget_steps and steps >= budget_steps):
                break
        left = sum(len(v) for v in unc.values())
        return res, left


# ----------------------------------------------------------------------------------------------------- running the code

def _alarm(sig, frm):
    from world import Hang
    raise Hang()


def run_code(comp, cfg, acts, expect=None, init_expect=None, on_step=None):
    """Executes acts (an iterable or a generator receiving the last observation) on a fresh instance of the code.
    Returns (init_out, [(act, out)], mismatch index or None)."""
    import world
    signal.signal(signal.SIGVTALRM, _alarm)
    steps = []
    signal.setitimer(signal.ITIMER_VIRTUAL, STEP_LIMIT)
    try:
        world.fresh()
        try:
            sut = comp.make(cfg)
            init_out = sut.observe_init()
        except world.Hang:
            return {"exc": "hang in setup"}, steps, -1
        except Exception as ex:
            return {"exc": "setup: " + _exc(ex)}, steps, -1
        if init_expect is not None and init_out != init_expect:
            return init_out, steps, -1
        it = iter(acts)
        i = 0
        out = init_out
        gen = hasattr(it, "send")
        while True:
            try:
                a = it.send(None if i == 0 else out) if gen else next(it)
            except StopIteration:
                break
            signal.setitimer(signal.ITIMER_VIRTUAL, STEP_LIMIT)
            try:
                out = sut.step(a)
            except world.Hang:
                out = {"exc": "hang"}
            except Exception as ex:
                out = {"exc": _exc(ex)}
            steps.append((a, out))
            if expect is not None and out != expect[i]:
                return init_out, steps, i
            if out.get("exc", "") != "" and expect is None:
                break
            i += 1
        return init_out, steps, None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _exc(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ""
    for f in tb:
        if "/pyswitch/" in f.filename:
            where = f" at {os.path.basename(f.filename)}:{f.name}"
    return f"{type(ex).__name__}{where}"


_COMP = None


def _replay_chunk(chunk):
    bad = None
    n = 0
    for ci, ((cfg, o0), walk) in chunk:
        io, steps, m = run_code(_COMP, cfg, [a for a, _ in walk], [o for _, o in walk], o0)
        n += len(steps)
        if m is not None:
            bad = dict(direction="model->code", cfg=cfg, acts=[a for a, _ in walk][:m + 1] if m >= 0 else [],
                       expected=(walk[m][1] if m >= 0 else o0), observed=(steps[m][1] if m >= 0 else io), step=m)
            break
    return n, bad


def _record_chunk(args):
    seed, items = args
    res = []
    for k in items:
        rng = random.Random(f"{seed}/{_COMP.name}/{k}")
        cfg = _COMP.random_cfg(rng)
        gen = _COMP.random_acts(rng, cfg)
        io, steps, m = run_code(_COMP, cfg, gen)
        res.append(dict(cfg=cfg, init=io, steps=[dict(act=a, out=o) for a, o in steps], bad=(0 if m is None else m)))
    return res


def _pool_init(comp):
    global _COMP
    _COMP = comp
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.stdout = open(os.devnull, "w")      # the code under test prints


def pool_map(comp, fn, chunks):
    ctx = mp.get_context("fork")
    global _COMP
    _COMP = comp
    with ctx.Pool(NPROC, initializer=_pool_init, initargs=(comp,)) as pool:
        for x in pool.imap(fn, chunks):
            yield x


TRACE = open(os.path.join(SPEC, "Trace.tla.in")).read() if os.path.exists(os.path.join(SPEC, "Trace.tla.in")) else ""


def shrink(comp, cfg, acts, still_bad, limit=150, tmax=20):
    """Greedy removal of steps while the failure persists (only for readability of the replay)."""
    t0 = time.time()
    n = 0
    size = max(1, len(acts) // 2)
    while size >= 1 and n < limit and time.time() - t0 < tmax:
        i, changed = 0, False
        while i < len(acts) - 1 and n < limit and time.time() - t0 < tmax:
            cand = acts[:i] + acts[min(i + size, len(acts) - 1):]
            n += 1
            if len(cand) < len(acts) and still_bad(cand):
                acts, changed = cand, True
            else:
                i += size
        if not changed or size == 1:
            size //= 2
    return acts


def validate_traces(comp, traces, workdir, timeout=800):
    """TLC trace validation. Returns (states, None | (trace index, step, expected text))."""
    chunks = _chunks(list(range(len(traces))), NPROC)
    dirs = [tempfile.mkdtemp(dir=workdir) for _ in chunks]
    tp = ThreadPool(len(chunks))
    rs = tp.map(lambda k: _validate(comp, [traces[i] for i in chunks[k]], dirs[k], timeout), range(len(chunks)))
    res, bad = rs[0][0], None
    for (r, b), idx in zip(rs, chunks):
        if r is not res:
            res.states += r.states
            res.generated += r.generated
        if b and bad is None:
            bad = (idx[b[0]],) + b[1:]
    return res, bad


def _validate(comp, traces, workdir, timeout):
    mod = comp.spec + "Trace"
    with open(os.path.join(workdir, mod + ".tla"), "w") as f:
        f.write(TRACE.replace("@MOD@", mod).replace("@SPEC@", comp.spec))
    tf = os.path.join(workdir, "traces.json")
    with open(tf, "w") as f:
        json.dump([dict(cfg=t["cfg"], init=t["init"], steps=t["steps"]) for t in traces], f)
    text = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\n" + comp.trace_cfg
    r = run_tlc(mod, text, workdir, env={"TRACES": tf}, timeout=timeout, heap="3g")
    if r.violation == "Conforms":
        m = re.findall(r"/\\ tid = (\d+)", r.output)
        ls = re.findall(r"/\\ l = (\d+)", r.output)
        if not m or not ls:
            raise MachineryError("no position in trace validation:\n" + r.output[-3000:])
        outs = re.findall(r"/\\ out = (.*?)(?=\n/\\ |\n\n)", r.output, re.S)
        return r, (int(m[-1]) - 1, int(ls[-1]) - 1, outs[-1] if outs else "?")
    if r.violation:
        m = re.findall(r"/\\ tid = (\d+)", r.output)
        ls = re.findall(r"/\\ l = (\d+)", r.output)
        if m and ls:
            return r, (int(m[-1]) - 1, int(ls[-1]) - 1, f"specification property {r.violation} fails")
        raise MachineryError("property violated in trace validation:\n" + r.output[-3000:])
    want = sum(len(t["steps"]) + 1 for t in traces)
    if r.states != want:
        # Some step of a trace had no specified successor: the driver did something outside of the spec
        raise MachineryError(f"trace validation of {comp.spec} consumed {r.states} of {want} states\n" + r.output[-2000:])
    return r, None


# ----------------------------------------------------------------------------------------------------- one component

def _chunks(xs, n):
    xs = list(xs)
    return [xs[i::n] for i in range(n) if xs[i::n]]


def check_component(comp, tier, seed, log):
    """Returns (coverage dict, violation dict or None)."""
    thorough = tier == "thorough"
    cov = dict(states=0, transitions=0, replayed_transitions=0, replayed_steps=0, model_walks=0, traces=0, trace_steps=0,
               uncovered_transitions=0, models=[], samples=[])
    rng = random.Random(f"{seed}/{comp.name}")
    wd = tempfile.mkdtemp(prefix=f"pysw_{comp.name}_")
    try:
        models = comp.mc + (comp.mc_thorough if thorough else [])

        def run_model(k):
            d = os.path.join(wd, f"m{k}")
            os.makedirs(d)
            t0 = time.time()
            return model_check(models[k][0], models[k][1], d, edges=models[k][2]), time.time() - t0

        tp = ThreadPool(min(NPROC, max(1, len(models))) if not thorough else 4)
        results = [tp.apply_async(run_model, (k,)) for k in range(len(models))]
        for k, (mc, cfg_lines, edges) in enumerate(models):
            t0 = time.time()
            r, t_tlc = results[k].get()
            results[k] = None
            cov["states"] += r.states
            cov["transitions"] += r.generated
            info = dict(model=mc, states=r.states, transitions=r.generated, exhaustive=True)
            cov["models"].append(info)
            if r.states < comp.min_states.get(mc, 2):
                raise MachineryError(f"{mc}: only {r.states} states")
            if edges:
                g = Graph(r)
                r.edges = r.inits = None
                walks, left = g.walks(rng, max_len=comp.walk_len, budget_steps=comp.walk_budget * (6 if thorough else 1))
                cov["replayed_transitions"] += g.n_edges - left
                cov["uncovered_transitions"] += left
                cov["model_walks"] += len(walks)
                acts = set(json.dumps(a.get("op", a), sort_keys=True) for es in g.succ.values() for a, _, _ in es)
                info["actions"] = sorted(acts)
                bad = None
                for n, b in pool_map(comp, _replay_chunk, [list(enumerate(c)) for c in _chunks(walks, NPROC * 4)]):
                    cov["replayed_steps"] += n
                    if b and not bad:
                        bad = b
                log(f"  {mc}: {r.states} states, {g.n_edges} transitions, {len(walks)} walks replayed ({cov['replayed_steps']} steps), "
                    f"{left} transitions left, TLC {t_tlc:.1f}s, {time.time()-t0:.1f}s")
                if walks and len(cov["samples"]) < 3:
                    w = walks[rng.randrange(len(walks))]
                    cov["samples"].append(dict(kind="model->code", cfg=w[0][0], steps=[dict(act=a, out=o) for a, o in w[1][:6]]))
                if bad:
                    bad["model"] = mc
                    return cov, bad
            else:
                log(f"  {mc}: {r.states} states (properties only), TLC {t_tlc:.1f}s")
        n = comp.n_traces * (comp.thorough_factor if thorough else 1)
        batch = comp.batch
        k0 = 0
        while k0 < n:
            t0 = time.time()
            ks = list(range(k0, min(n, k0 + batch)))
            k0 += batch
            traces = []
            for res in pool_map(comp, _record_chunk, [(seed, c) for c in _chunks(ks, NPROC * 2)]):
                traces += res
            for t in traces:
                if t["bad"] == -1:
                    return cov, dict(direction="code->model", cfg=t["cfg"], acts=[], expected="set up without exception", observed=t["init"], step=-1)
            r, bad = validate_traces(comp, traces, wd)
            steps = sum(len(t["steps"]) for t in traces)
            cov["states"] += r.states
            cov["transitions"] += r.generated
            log(f"  {comp.spec}Trace: {len(traces)} recorded traces, {steps} steps validated, {time.time()-t0:.1f}s")
            if bad:
                ti, si, exp = bad
                t = traces[ti]
                acts = [s["act"] for s in t["steps"][:si + 1]]
                return cov, dict(direction="code->model", cfg=t["cfg"], acts=acts, expected=exp,
                                 observed=t["steps"][si]["out"] if si >= 0 else t["init"], step=si)
            cov["traces"] += len(traces)
            cov["trace_steps"] += steps
            if traces and len(cov["samples"]) < 5:
                t = traces[rng.randrange(len(traces))]
                cov["samples"].append(dict(kind="code->model", cfg=t["cfg"], steps=t["steps"][:6]))
        return cov, None
    finally:
        shutil.rmtree(wd, ignore_errors=True)


class Component:
    name = "?"
    spec = "?"
    mc = []
    mc_thorough = []
    trace_cfg = ""
    n_traces = 240
    batch = 400
    thorough_factor = 15
    walk_len = 60
    walk_budget = 80000
    min_states = {}

    def make(self, cfg):
        raise NotImplementedError

    def random_cfg(self, rng):
        raise NotImplementedError

    def random_acts(self, rng, cfg):
        raise NotImplementedError
