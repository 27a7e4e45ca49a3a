#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property on /repo's tree.

exit 0  every explored behaviour satisfied the property
exit 1  VIOLATION property=<id> replay=<file>
exit 2  the machinery failed
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
if sys.prefix != "/opt/venv" and not os.environ.get("VERIF_IN_VENV"):
    os.environ["VERIF_IN_VENV"] = "1"
    if os.path.exists(PY):
        os.execv(PY, [PY] + sys.argv)
os.environ.setdefault("PYTHONHASHSEED", "0")

import vlib  # noqa: E402

AREAS = {"B": "drv_bo", "E": "drv_ea", "D": "drv_doe", "P": "drv_problems", "M": "drv_models",
         "A": "drv_acq"}


def driver(prop):
    import importlib
    return importlib.import_module(AREAS[prop[0]])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    drv = driver(prop)
    vlib.setup_env()
    vlib.classes()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    if replay:
        scs = [json.load(open(replay))["scenario"]]
    else:
        scs, info = drv.scenarios(prop, tier, seed)
        models = drv.MODELS[tier]
        if callable(models):
            models = models(prop)
        for mod, cfg in models:
            st = vlib.model_check(mod, cfg)
            cov["design_model_states"] = cov.get("design_model_states", 0) + st["states"]
            cov["states"] += st["states"]
            cov["transitions"] += st["transitions"]
    t1 = time.time()
    traces = vlib.record(drv.__name__, scs)
    t2 = time.time()
    spec = drv.TRACE(prop) if callable(drv.TRACE) else drv.TRACE
    fails, st = vlib.validate(spec[0], spec[1], traces)
    t3 = time.time()
    cov["states"] += st["states"]
    cov["transitions"] += st["transitions"]
    cov["trace_states"] = st["states"]
    cov["traces_validated_against_impl"] = len(traces)
    cov["events"] = sum(len(t["ev"]) for t in traces)
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    cov["events_by_kind"] = ops
    cov["samples"] = [json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) <= 4000 else
                      {"id": s["id"], "kind": s.get("kind", "")} for s in scs[:3]]
    cov["seconds"] = {"models_and_generation": round(t1 - t0, 1), "recording": round(t2 - t1, 1),
                      "trace_checking": round(t3 - t2, 1)}

    mine = []
    other = {}
    for tid, pos, names in fails:
        hit = [n for n in names if n.startswith(prop + ".") or n.startswith("*.")]
        if hit:
            mine.append((tid, pos, hit))
        for n in names:
            if n not in hit:
                other[n] = other.get(n, 0) + 1
    known = [k for k in vlib.known_findings() if k["property"] == prop]
    new, old = [], []
    for tid, pos, hit in mine:
        k = [k for k in known if k["id"] == tid and set(hit) <= k["rules"]]
        (old if k else new).append((tid, pos, hit, k[0]["text"] if k else ""))
    for text in sorted({o[3] for o in old}):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if other:
        print("note: rules of other properties broken: %s" % json.dumps(other, sort_keys=True))

    path = None
    if new:
        os.makedirs(os.path.join(vlib.OUT, prop), exist_ok=True)
        first = {}
        for tid, pos, hit, _ in new:
            first.setdefault(tid, []).append((pos, hit))
        for n, tid in enumerate(first):
            if n >= 5:
                break
            p = os.path.join(vlib.OUT, prop, tid.replace("/", "_") + ".json")
            json.dump({"property": prop, "scenario": [s for s in scs if s["id"] == tid][0],
                       "broken": first[tid], "trace": [t for t in traces if t["id"] == tid][0]},
                      open(p, "w"), indent=1)
            path = path or p
        for tid in list(first)[:8]:
            print("  broken in %s: %s" % (tid, "; ".join(
                "event %d %s" % (p, ",".join(h)) for p, h in first[tid][:4])))
        print("  %d of %d traces break %s" % (len(first), len(traces), prop))
    if not replay:
        os.makedirs(vlib.EVID, exist_ok=True)
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(new),
                   "assumptions": getattr(drv, "ASSUMPTIONS", [])},
                  open(os.path.join(vlib.EVID, prop + ".json"), "w"), indent=1)
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s traces=%d events=%d states=%d %.1fs (%s)" % (
        prop, len(traces), cov["events"], cov["states"], time.time() - t0, cov["seconds"]))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except vlib.Machinery as err:
        print("MACHINERY: %s" % err)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
