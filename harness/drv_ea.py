"""Particle swarm and differential evolution: sessions generated from the
specification, executed on the real optimizers, recorded as traces of
spec/Evolution.tla."""
import os
import pickle

import vlib
from vlib import Scripted, attempt, digest, exc_name, mat, num, vec

TRACE = ("EvolutionTrace", "EvolutionTrace.cfg")
MODELS = {"quick": [("EvolutionMC", "EvolutionMCPso.cfg"), ("EvolutionMC", "EvolutionMCDe.cfg")],
          "thorough": [("EvolutionMC", "EvolutionMCPso.cfg"), ("EvolutionMC", "EvolutionMCDe.cfg"),
                       ("EvolutionMC", "EvolutionMCPsoDeep.cfg"), ("EvolutionMC", "EvolutionMCDeDeep.cfg")]}
ASSUMPTIONS = ["objectives are deterministic and finite", "num_gen >= 1, num_pop >= 2 (PSO) or 3 (DE)",
               "crossover probabilities strictly between 0 and 1 are not judged statistically"]

SPACES = [[[0.0, 1.0]],
          [[-5.0, 10.0], [0.0, 15.0]],
          [[0.0, 1.0], [100.0, 400.0], [-3.0, -2.5]],
          [[-1e-3, 1e-3], [-1e4, 3e4]],
          [[-7.0, -6.0]],
          [[1.0, 2.0], [1.0, 1.0]],
          [[-2.0, 2.0], [5.0, 6.0], [0.0, 0.1], [-1.0, 9.0]],
          [[0, 5], [-2, 9]],                                      # integers
          [[0.0, 1.0]] * 6,
          [[-5.0 - j, 2.0 * j] for j in range(8)],
          [[1e6, 1e6 + 1.0], [-1e-6, 0.0], [0.0, 1e-9]]]


def objective(kind, dom):
    import numpy as np
    lo, w = dom[:, 0], np.where(dom[:, 1] > dom[:, 0], dom[:, 1] - dom[:, 0], 1.0)

    def u(x):
        return (x - lo) / w
    if kind == "smooth":
        return lambda x: np.sum((u(x) - 0.37) ** 2, axis=1)
    if kind == "plateau":
        return lambda x: np.floor(4 * np.sum(u(x), axis=1))
    if kind == "flat":
        return lambda x: np.ones(len(x)) * 0.5
    if kind == "steps":
        return lambda x: np.round(3 * np.cos(9 * u(x)[:, 0])) + 0.0
    if kind == "fine":
        return lambda x: 3.0 + 1e-7 * np.sum(u(x), axis=1)
    if kind == "huge":
        return lambda x: -1e12 * np.sum((u(x) - 0.8) ** 2, axis=1)
    if kind == "tiny":
        return lambda x: 1e-13 * np.sum((u(x) - 0.2) ** 2, axis=1)
    if kind == "ridge":
        return lambda x: np.abs(u(x)[:, 0] - u(x)[:, -1]) + 1e-3 * u(x)[:, 0]
    if kind == "mixed":
        return lambda x: np.where(np.abs(u(x)[:, 0] - 0.5) < 0.06, 1.5 + u(x)[:, -1], np.floor(4 * u(x)[:, 0]) + 3)
    if kind == "zeros":
        return lambda x: np.where(u(x)[:, 0] < 0.3, -0.0, np.where(u(x)[:, 0] < 0.6, 0.0, 1.0))
    if kind == "corner":
        return lambda x: np.sum(u(x), axis=1)
    if kind == "negative":
        return lambda x: -10 - np.sum(np.sin(7 * u(x)), axis=1)
    return lambda x: np.where(np.abs(u(x)[:, 0] - 0.5) < 0.03, -1.0, 1.0)


def build(m):
    from mfpml.optimization.evolutionary_algorithms import DE, PSO
    p = [float(t) for t in m["par"]]
    if m.get("call") == "positional":
        return PSO(m["pop"], m["gens"], p[1], p[2], p[0], p[3]) if m["alg"] == "pso" else \
            DE(m["pop"], m["gens"], p[0], p[1], m["strategy"])
    if m["alg"] == "pso":
        if m.get("call") == "bare":
            own = {k: v for k, v, d in (("cognition_rate", p[1], 1.5), ("social_rate", p[2], 1.5),
                                        ("weight", p[0], 0.8), ("max_velocity_rate", p[3], 0.2)) if v != d}
            return PSO(m["pop"], m["gens"], **own)
        return PSO(num_pop=m["pop"], num_gen=m["gens"], cognition_rate=p[1], social_rate=p[2], weight=p[0],
                   max_velocity_rate=p[3])
    if m.get("call") == "bare":
        own = {k: v for k, v, d in (("step_size", p[0], 0.5), ("crossover_rate", p[1], 0.5),
                                    ("strategy", m["strategy"], "DE/rand/1/bin")) if v != d}
        return DE(m["pop"], m["gens"], **own)
    return DE(num_pop=m["pop"], num_gen=m["gens"], step_size=p[0], crossover_rate=p[1], strategy=m["strategy"])


def par_of(m):
    p = [num(float(t)) for t in m["par"]]
    if m["alg"] == "pso":
        return {"w": p[0], "cog": p[1], "soc": p[2], "vmax": p[3]}
    return {"step": p[0], "cr": p[1], "strategy": m["strategy"]}


def stacks(v):
    """(generations, members, columns) array as nested sequences"""
    import numpy as np
    try:
        a = np.asarray(v, dtype=float)
        if a.ndim != 3:
            return [[["shape"]]]
        return [[[num(t) for t in r] for r in g] for g in a]
    except Exception:
        return [[["bad"]]]


def column(s):
    return [[r[0] if len(r) == 1 else "shape" for r in g] for g in s]


def record_of(res, n=None):
    cut = (lambda v: v) if n is None else (lambda v: v[:n])
    return {"histx": mat(cut(res["best_x_historical"])), "histy": vec(cut(res["best_y_historical"])),
            "samples": stacks(cut(res["all_samples"])), "responses": column(stacks(cut(res["all_responses"]))),
            "dom": mat(res["design_space"]), "popn": int(res["pop"]), "genn": int(res["gen"])}


EMPTY = {"bestx": [], "besty": [], "rety": [], "retx": [], "histx": [], "histy": [], "samples": [],
         "responses": [], "dom": [], "popn": -1, "genn": -1}


def checkpoint(generations):
    import numpy as np
    f = {"written": False, "histx": [], "histy": [], "samples": [], "responses": [], "rest_empty": False,
         "dom": [], "popn": -1, "genn": -1}
    if not os.path.exists("step_results.pickle"):
        return f
    f["written"] = True
    try:
        with open("step_results.pickle", "rb") as fh:
            r = pickle.load(fh)
        f.update(record_of(r, generations))
        f["rest_empty"] = all(not np.any(np.asarray(r[k])[generations:]) for k in
                              ("best_x_historical", "best_y_historical", "all_samples", "all_responses"))
    except Exception as err:
        f["histy"] = ["unreadable " + type(err).__name__]
    return f


def other_run():
    """another optimizer at work inside the objective; leaves the random stream as it was"""
    import numpy as np
    from mfpml.optimization.evolutionary_algorithms import DE, PSO
    state = np.random.get_state()
    here = os.path.exists("step_results.pickle")
    for opt in (PSO(num_pop=4, num_gen=1), DE(num_pop=4, num_gen=1)):
        opt.run_optimizer(func=lambda x: 40 + np.sum(x, axis=1), num_dim=3,
                          design_space=np.array([[50.0, 60.0], [-90.0, -80.0], [7.0, 7.5]]))
    assert here == os.path.exists("step_results.pickle")
    np.random.set_state(state)


def threshold(m, r, f, dom):
    """the stopping value of a run: a constant, or derived from what a silent first run reached"""
    import numpy as np
    if r["thr"] == "none":
        return None
    if r["thr"][0] != "a":
        return float(r["thr"])
    best = []

    def watch(x, *args):
        y = np.asarray(f(np.array(x, dtype=float)), dtype=float)
        if r["shape"] == "int":
            y = np.rint(y)
        best.append(float(min([y.min()] + best)))
        return y
    state = np.random.get_state()
    np.random.seed(1000 * r["seed"] + 7)
    attempt(lambda: build(m).run_optimizer(func=watch, num_dim=len(dom), design_space=dom.copy()), 60)
    np.random.set_state(state)
    if not best:
        return None
    b = best[min(int(r["thr"][-1]), len(best) - 1)]
    return b if r["thr"].startswith("at") else float(np.nextafter(b, np.inf))


def one_run(m, obj, r, events, keyed):
    import numpy as np
    dom = np.array(SPACES[r["space"] - 1])
    space = dom.copy()
    f = objective(r["f"], dom)
    extra = [3.5, "tag"] if r["args"] else []
    calls = [0]
    done = [0]
    kept, given = [], []
    thr = threshold(m, r, f, dom)
    if os.path.exists("step_results.pickle"):
        os.unlink("step_results.pickle")
    events.append({"op": "start", "alg": m["alg"], "pop": m["pop"], "gens": m["gens"], "dom": mat(dom),
                   "par": par_of(m), "thr": "none" if thr is None else num(thr),
                   "args": [str(t) for t in extra], "save": r["save"]})

    def func(x, *args):
        calls[0] += 1
        x = np.array(x, dtype=float)
        ev = {"op": "eval", "rows": mat(x), "vals": [], "args": [str(t) for t in args], "fail": False}
        events.append(ev)
        if calls[0] > m["gens"] + 3:
            raise vlib.Hang("budget")
        if r["fail"] == calls[0] - 1:
            ev["fail"] = True
            raise Scripted()
        if r["nest"] and calls[0] == 2:
            other_run()
        y = np.asarray(f(x), dtype=float)
        if r["shape"] == "int":
            y = np.rint(y).astype(int)
        ev["vals"] = vec(y)
        done[0] += 1
        if r["shape"] == "buffer":
            if not kept:
                kept.append(np.zeros_like(y))
            kept[0][:] = y
            return kept[0]
        if r["shape"] == "cached":
            kept.append(y)
            given.append(y.copy())
            return y
        return {"col": y.reshape(-1, 1), "row": y.reshape(1, -1), "list": y.tolist()}.get(r["shape"], y)

    np.random.seed(1000 * r["seed"] + 7)
    kw = {} if not extra else {"args": tuple(extra)}
    if m.get("call") == "positional":
        go = lambda: obj.run_optimizer(func, len(dom), space, r["print"], r["save"], thr, tuple(extra))
    else:
        if m.get("call") != "bare" or r["print"]:
            kw["print_info"] = r["print"]
        if m.get("call") != "bare" or r["save"]:
            kw["save_step_results"] = r["save"]
        if m.get("call") != "bare" or thr is not None:
            kw["stopping_error"] = thr
        go = lambda: obj.run_optimizer(func=func, num_dim=len(dom), design_space=space, **kw)
    ret, err = attempt(go, 60)
    ev = {"op": "end", "exc": exc_name(err), "res": EMPTY, "file": checkpoint(done[0]), "key": "none",
          "digest": "none"}
    events.append(ev)
    res = None
    if err is None:
        try:
            res, by, bx = ret
            ev["res"] = dict(record_of(res), bestx=mat(res["best_x"]), besty=vec(res["best_y"]), rety=vec(by),
                             retx=mat(bx))
        except Exception as e2:
            ev["exc"] = "result " + type(e2).__name__
            res = None
    if r["fail"] < 0:
        ev["key"] = keyed
        ev["digest"] = digest(res, [e["rows"] for e in events[-1 - calls[0]:-1]]) if res is not None else "none"
    if res is not None and r["scribble"]:
        for key in ("best_x", "best_y", "best_x_historical", "best_y_historical", "all_samples", "all_responses"):
            np.asarray(res[key])[...] = 1e3
    return (res, space, dom, [vec(t) for t in given], [vec(t) for t in kept] if given else [])


def run(sc):
    import numpy as np
    if sc["kind"] == "refuse":
        events = []
        for name in sc["names"]:
            obj = build(dict(alg="de", par=["0.5", "0.5"], strategy=name, pop=5, gens=2))
            _, err = attempt(lambda: obj.run_optimizer(func=lambda x: np.sum(x, axis=1), num_dim=2,
                                                       design_space=np.array([[0.0, 1.0], [0.0, 2.0]])), 60)
            events.append({"op": "refuse", "exc": exc_name(err)})
        return events
    events, made, ran, results = [], {}, {}, []
    for k, e in enumerate(sc["log"], 1):
        if e["op"] == "make":
            made[k] = (e, build(e))
        elif e["op"] == "noise":
            np.random.seed(e["n"])
            np.random.random(e["n"])
        else:
            if e["op"] == "run" and e["fails"] != 1:
                e = dict(e, fail=-1)
            if e["op"] == "again":
                r = ran[e["run"]]
                m, obj = made[r["obj"]]
                if e["fresh"]:
                    obj = build(m)
            else:
                r = e
                m, obj = made[e["obj"]]
            ran[k] = r
            key = repr([m["alg"], m["par"], m["strategy"], m["pop"], m["gens"],
                        r["space"], r["f"], r["thr"], r["seed"], r["shape"] == "int"])
            got = one_run(m, obj, r, events, key)
            results.append((got, digest(got[0])))
    ev = {"op": "later", "results0": [d for _, d in results], "results1": [digest(g[0]) for g, _ in results],
          "values0": [g[3] for g, _ in results], "values1": [g[4] for g, _ in results],
          "space0": [mat(g[2]) for g, _ in results], "space1": [mat(g[1]) for g, _ in results]}
    events.append(ev)
    return events


def scenarios(prop, tier, seed):
    n = {"quick": 110, "thorough": 1500}[tier]
    if prop in ("E04", "E05"):
        n = int(n * 2)
    logs, st = vlib.generate("EvolutionGen", "EvolutionGen.cfg",
                             extra=["-simulate", "num=%d" % n, "-depth", "90", "-seed", str(seed * 131 + 5)])
    out = [dict(id="%s-s%d" % (prop, k), kind="session", log=h) for k, h in enumerate(logs[:n])]
    m = {"quick": 36, "thorough": 300}[tier]
    long, st2 = vlib.generate("EvolutionGen", "EvolutionGenLong.cfg",
                              extra=["-simulate", "num=%d" % m, "-depth", "90", "-seed", str(seed * 61 + 3)])
    out += [dict(id="%s-l%d" % (prop, k), kind="session", log=h) for k, h in enumerate(long[:m])]
    st = {k: st[k] + st2[k] for k in st}
    out.append(dict(id=prop + "-refuse", kind="refuse",
                    names=["DE/rand/2/bin", "", "best", "DE/best/1/exp", "de/rand/1/bin"]))
    return out, st
