#!/usr/bin/python3
"""check.py <property id> [--replay FILE] : decides one property. See DESIGN.md."""
import importlib, json, os, sys, time, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import engine


def components(pid):
    import registry
    return [getattr(importlib.import_module(m), c)() for m, c in registry.PROPS[pid]]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    comps = components(pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rp = json.load(open(sys.argv[3]))
        comp = [c for c in comps if c.name == rp["component"]][0]
        io, steps, m = engine.run_code(comp, rp["cfg"], rp["acts"])
        print("cfg", json.dumps(rp["cfg"]))
        print("init", json.dumps(io))
        for a, o in steps:
            print(json.dumps(a), "->", json.dumps(o))
        print("expected at the last step:", rp["expected"] if isinstance(rp["expected"], str) else json.dumps(rp["expected"]))
        return 0
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], components={})
    viol = None
    for comp in comps:
        print(f"[{pid}] {comp.name}", flush=True)
        c, v = engine.check_component(comp, tier, seed, lambda s: print(s, flush=True))
        cov["states"] += c["states"]
        cov["transitions"] += c["transitions"]
        cov["traces_validated_against_impl"] += c["traces"] + c["model_walks"]
        cov["samples"] += c.pop("samples")
        cov["components"][comp.name] = c
        if v:
            viol = v
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join("replays", f"{pid}_{comp.name}.json")
            v["component"] = comp.name
            v["property"] = pid
            json.dump(v, open(os.path.join(VERIF, path), "w"), indent=1)
            print(f"  {v['direction']} mismatch at step {v['step']} of {json.dumps(v['acts'])[-1500:]}")
            print(f"  cfg      {json.dumps(v['cfg'])[:1500]}")
            print(f"  expected {v['expected'] if isinstance(v['expected'], str) else json.dumps(v['expected'])}")
            print(f"  observed {json.dumps(v['observed'])}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            break
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0,
              assumptions=["hardware libraries, display and clock replaced by recording stand-ins (harness/world.py)",
                           "bounded model constants as in spec/MC*.tla; random traces sample beyond them"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"[{pid}] {'VIOLATED' if viol else 'held'} in {time.time()-t0:.1f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("CHECK ERROR (machinery)", flush=True)
        rc = 3
    sys.exit(rc)
