"""Bayesian optimization loops: replay of BayesOptMC behaviours, trace recording."""
import json

import vlib
from vlib import Scripted, attempt, digest, exc_name, mat, num, rows_of, vec

TRACE = ("BayesOptTrace", "BayesOptTrace.cfg")


# ------------------------------------------------------------------ scripted world
class World:
    """gives every new point the next scripted response and records what is asked"""

    def __init__(self, sc, log):
        self.log = log
        self.table = {}
        self.ev = log


def make_problem(world, loop, dom, num_cons, optimum):
    import numpy as np
    from mfpml.problems.functions import Functions
    from mfpml.problems.mf_functions import MultiFidelityFunctions

    class Problem(MultiFidelityFunctions if loop == "mf" else Functions):
        def __init__(self):
            self.num_dim = dom.shape[0]
            self.num_obj = 1
            self.num_cons = num_cons
            self.input_domain = dom
            self.optimum = optimum
            self.optimum_scheme = None
            self.low_fidelity = None

        def f(self, x):
            return world.evaluate("f", x)

        def f_cons(self, x):
            return world.evaluate("c", x)

        def hf(self, x):
            return world.evaluate("h", x)

        def lf(self, x, factor=None):
            return world.evaluate("l", x)

        if loop != "mf":
            def __call__(self, x):
                return self.f(x)
    return Problem()


def real_problem(sc):
    """a benchmark problem instead of scripted answers"""
    p = problem_by_name(sc["real"][0])
    return lambda kind, x: {"f": lambda: p.f(x), "c": lambda: p.f_cons(x), "h": lambda: p.hf(x),
                            "l": lambda: p.lf(x)}[kind]()


def real_acquisition(sc):
    from mfpml.optimization import mf_acqusitions as MA
    from mfpml.optimization import sf_cons_acqusitions as CA
    from mfpml.optimization import sf_uncons_acqusitions as UA
    from mfpml.optimization.evolutionary_algorithms import DE, PSO
    kw = {"optimizer": {"pso": PSO, "de": DE}[sc["real"][2]](num_gen=8, num_pop=10)} if sc["real"][2] else {}
    for m in (UA, CA, MA):
        if hasattr(m, sc["real"][1]):
            return getattr(m, sc["real"][1])(**kw)


class Script:
    """one replay"""

    def __init__(self, sc):
        import numpy as np
        self.np = np
        self.sc = sc
        self.todo = list(sc["steps"])
        self.events = []
        self.loop = sc["loop"]
        self.dim = sc["dim"]
        self.dom = np.array(sc["dom"], dtype=float)
        self.init_vals = {}
        self.phase = "new"
        self.opt_obj = None
        self.evals = []
        self.answers = {}
        self.rng = np.random.RandomState(sc["pseed"])
        self.real = real_problem(sc) if "real" in sc else None
        self.inner = real_acquisition(sc) if "real" in sc else None
        self.used = []
        self.pts_of = [[], []]

    # ---- points far enough from all others so that surrogates stay regular
    def fresh_point(self):
        np = self.np
        lo, hi = self.dom[:, 0], self.dom[:, 1]
        known = [np.atleast_2d(a) for a in self.used]
        best, bestd = None, -1
        for k in range(60):
            u = self.rng.uniform(size=self.dim)
            if k == 0 and self.rng.uniform() < 0.25:
                u = self.rng.randint(0, 2, size=self.dim).astype(float)   # corner
            x = lo + u * (hi - lo)
            d = min([1.0] + [float(np.min(np.linalg.norm(((a - lo) / (hi - lo)) - u, axis=1))) for a in known])
            if d > bestd:
                best, bestd = x, d
            if d > 0.12:
                break
        self.used.append(np.atleast_2d(best))
        return best

    # ---- problem side
    def evaluate(self, kind, x):
        np = self.np
        x = np.asarray(x)
        rows = rows_of(x)
        if self.real is not None and self.phase in ("new", "run"):
            v = self.real(kind, x)
            if self.phase == "new":
                self.evals.append({"kind": kind, "rows": rows, "vals": mat(v)})
            else:
                self.events.append({"op": "eval", "kind": kind, "rows": rows, "vals": mat(v), "fail": False})
            return v
        if self.phase == "new":
            given = [e for e in self.sc["new"]["evals"] if e["kind"] == kind]
            given = given[0]["vals"] if given else []
            seen = sum(len(e["rows"]) for e in self.evals if e["kind"] == kind)
            vals = []
            for k in range(len(rows)):
                j = seen + k
                vals.append([float(t) for t in (given[j] if j < len(given) else ["1"] * self.width(kind))])
            self.used.append(np.array(x, dtype=float))
            self.evals.append({"kind": kind, "rows": rows, "vals": [vec(v) for v in vals]})
            if kind in ("f", "h", "l"):
                self.pts_of[1 if kind == "l" else 0].extend(np.array(x, dtype=float).reshape(len(rows), -1))
            return self.typed(np.array(vals, dtype=float).reshape(len(rows), -1))
        if self.phase == "other":
            return np.sin(np.sum(np.atleast_2d(x), axis=1) * (2.0 if kind == "l" else 1.0)).reshape(-1, 1) * \
                np.ones((1, self.width(kind)))
        if kind in self.answers:
            vals = self.answers.pop(kind)
        else:
            vals = {"vals": [["3"] * self.width(kind)], "fail": False}
        if vals["fail"]:
            self.events.append({"op": "eval", "kind": kind, "rows": rows, "vals": [], "fail": True})
            raise self.failure()
        v = np.array([[float(t) for t in vals["vals"][0]]] * len(rows)).reshape(len(rows), -1)
        v = self.typed(v)
        if kind in ("f", "h", "l") and len(rows) == 1:
            self.pts_of[1 if kind == "l" else 0].append(np.array(x, dtype=float).reshape(-1))
        self.events.append({"op": "eval", "kind": kind, "rows": rows, "vals": mat(v), "fail": False})
        return v

    def failure(self):
        """an error of some kind, recognisable as ours"""
        base = self.rng.choice([0, 1, 2, 3, 4, 5])
        kinds = [Scripted, ValueError, RuntimeError, ArithmeticError, OSError, KeyError]
        if base == 0:
            return Scripted("scripted failure")
        return type("Failure", (Scripted, kinds[base]), {})("scripted failure")

    def typed(self, v):
        """whole numbers may come as an integer array"""
        if self.sc.get("ints") and self.np.all(v == self.np.round(v)):
            return v.astype(int)
        return v

    def width(self, kind):
        return self.sc["num_cons"] if kind == "c" else 1

    # ---- acquisition side
    def query(self, surs, fmin=None, cr=None, ask=None):
        np = self.np
        if self.inner is not None:
            snap = self.snap()
            x = ask()
            x, fid = x if self.loop == "mf" else (x, 0)
            self.events.append({"op": "query", "x": vec(x), "fid": int(fid), "fail": False,
                                "fmin": num(fmin) if fmin is not None else "none",
                                "cr": num(cr) if cr is not None else "none", "sur": surs, "snap": snap})
            return x, fid
        # consume scenario up to the next query of this run
        step = self.todo[0] if self.todo else None
        fid, place, fail = 0, {"f": 0, "k": 0}, False
        self.answers = {}
        if step is not None and step["op"] == "query":
            self.todo.pop(0)
            fid, place, fail = step["fid"], step["place"], step["fail"]
            while self.todo and self.todo[0]["op"] == "eval":
                e = self.todo.pop(0)
                self.answers[e["kind"]] = e
        if fail:
            x = []
        elif place["f"] and place["k"] <= len(self.pts_of[place["f"] - 1]):
            x = self.pts_of[place["f"] - 1][place["k"] - 1].copy()
        else:
            x = self.fresh_point()
        self.events.append({"op": "query", "x": vec(x), "fid": fid, "fail": fail,
                            "fmin": num(fmin) if fmin is not None else "none",
                            "cr": num(cr) if cr is not None else "none",
                            "sur": [s for s in surs], "snap": self.snap()})
        if len(self.events) > 200:
            raise Scripted("does not stop")
        if fail:
            raise self.failure()
        if self.sc.get("row"):
            x = x.reshape(1, -1)
        return x, fid

    def role(self, name, idx, model, xs, ys, at, fn):
        try:
            pred = vec(fn(self.np.array(at, dtype=float)))
        except Exception as err:
            pred = ["raised " + type(err).__name__]
        has = "yes" if xs is not None and ys is not None else "no"
        return {"role": name, "num": idx, "has": has, "xs": rows_of(xs) if has == "yes" else [],
                "ys": vec(ys) if has == "yes" else [], "pred": pred}

    def snap(self):
        o, np = self.opt_obj, self.np
        a = self.archives(o, "")
        i = self.archives(o, "init_")
        hx = [self.pts(p) for p in o.history_best_x]
        return {"arch": a, "init": i, "best": num(o.best), "bestx": self.pts(o.best_x),
                "hist": [num(v) for v in o.history_best], "histx": hx,
                "order": [int(v) for v in getattr(o, "fidelity_query_order", [])]
                if self.loop == "mf" else self.order_free(o)}

    def order_free(self, o):
        return []

    def pts(self, p):
        return mat(p)

    def archives(self, o, pre):
        def rows(x, y, c):
            xs, ys = rows_of(x), rows_of(y)
            cs = rows_of(c) if c is not None else None
            return [{"x": xs[k], "y": ys[k][0] if k < len(ys) and ys[k] else "missing",
                     "c": (cs[k] if k < len(cs) else ["missing"]) if cs is not None else []}
                    for k in range(max(len(xs), len(ys)))] if len(xs) == len(ys) else \
                [{"x": ["lengths %d %d" % (len(xs), len(ys))], "y": "missing", "c": []}]
        if self.loop == "sf":
            return [rows(getattr(o, pre + "sample"), getattr(o, pre + "response"), None)]
        if self.loop == "cons":
            return [rows(getattr(o, pre + "sample"), getattr(o, pre + "obj_response"),
                         getattr(o, pre + "cons_response"))]
        s, r = getattr(o, pre + "sample"), getattr(o, pre + "response")
        return [rows(s[f], r[f], None) for f in range(2)]


def acquisition(script):
    import numpy as np
    from mfpml.optimization.mf_acqusitions import MFUnConsAcq
    from mfpml.optimization.sf_cons_acqusitions import SFConsAcq
    from mfpml.optimization.sf_uncons_acqusitions import SFUnConsAcq

    if script.loop == "sf":
        class Acq(SFUnConsAcq):
            def __init__(self):
                super().__init__(None)

            def eval(self, x, surrogate):
                return np.zeros((len(x), 1))

            def query(self, surrogate):
                s = script
                r = s.role("obj", 0, surrogate, getattr(surrogate, "sample_x", None),
                           getattr(surrogate, "sample_y", None), s.opt_obj.sample, surrogate.predict)
                x, _ = s.query([r], ask=lambda: s.inner.query(surrogate=surrogate))
                return x
    elif script.loop == "cons":
        class Acq(SFConsAcq):
            def __init__(self):
                super().__init__(None)

            def eval(self, x, obj_surrogate, cons_surrogates):
                return np.zeros((len(x), 1))

            def query(self, obj_surrogate, cons_surrogate):
                s = script
                rs = [s.role("obj", 0, obj_surrogate, getattr(obj_surrogate, "sample_x", None),
                             getattr(obj_surrogate, "sample_y", None), s.opt_obj.sample,
                             obj_surrogate.predict)]
                for k, c in enumerate(cons_surrogate):
                    rs.append(s.role("con", k + 1, c, getattr(c, "sample_x", None),
                                     getattr(c, "sample_y", None), s.opt_obj.sample, c.predict))
                x, _ = s.query(rs, ask=lambda: s.inner.query(obj_surrogate=obj_surrogate,
                                                              cons_surrogate=cons_surrogate))
                return x
    else:
        class Acq(MFUnConsAcq):
            def eval(self, x, mf_surrogate, cost_ratio, fidelity):
                return np.zeros((len(x), 1))

            def query(self, mf_surrogate, cost_ratio=1.0, fmin=1.0):
                s, m = script, mf_surrogate
                rs = [s.role("hf", 0, m, getattr(m, "sample_xh", None), getattr(m, "sample_yh", None),
                             s.opt_obj.sample[0], m.predict),
                      s.role("lf", 0, m, getattr(m, "sample_xl", None), getattr(m, "sample_yl", None),
                             s.opt_obj.sample[1], m.predict_lf)]
                x, fid = s.query(rs, fmin=fmin, cr=cost_ratio,
                                 ask=lambda: s.inner.query(mf_surrogate=m, cost_ratio=cost_ratio, fmin=fmin))
                return x, (np.int64(fid) if s.sc.get("ints") else fid)
    return Acq()


def make_loop(loop, problem, acq, n, verbose, seed, surrogate):
    if loop == "sf":
        from mfpml.optimization.sf_uncons_bo import BayesUnConsOpt
        return BayesUnConsOpt(problem=problem, acquisition=acq, num_init=n[0], verbose=verbose, seed=seed)
    if loop == "cons":
        from mfpml.optimization.sf_cons_bo import BayesConsOpt
        return BayesConsOpt(problem=problem, acquisition=acq, num_init=n[0], verbose=verbose, seed=seed)
    from mfpml.optimization.mf_uncons_bo import mfUnConsBayesOpt
    return mfUnConsBayesOpt(problem=problem, acquisition=acq, num_init=list(n), surrogate_name=surrogate,
                            seed=seed, verbose=verbose)


def go(obj, loop, step, positional):
    kw = dict(max_iter=step["max"], stopping_error=float(step["thr"]))
    if loop == "mf":
        kw["cost_ratio"] = float(step["cr"])
    if positional:
        return obj.run_optimizer(*([step["max"]] + ([kw["cost_ratio"]] if loop == "mf" else [])
                                   + [kw["stopping_error"]]))
    return obj.run_optimizer(**kw)


def other_activity(s, prob):
    """another optimizer on the same problem, while ours waits"""
    import numpy as np
    mine, s.phase = s.phase, "other"
    rng = np.random.RandomState(s.rng.randint(10 ** 6))

    class Any:
        def query(self, *a, **k):
            x = s.dom[:, 0] + rng.uniform(size=s.dim) * (s.dom[:, 1] - s.dom[:, 0])
            return (np.atleast_2d(x), int(rng.randint(2))) if s.loop == "mf" else x
    prob.optimum = -5.0

    def work():
        o = make_loop(s.loop, prob, Any(), s.sc["n"], False, int(rng.randint(1000)), s.sc["surrogate"])
        o.run_optimizer(max_iter=2, stopping_error=0.0)
    attempt(work, 60)
    s.phase = mine


def replay(sc):
    import numpy as np
    s = Script(sc)
    prob = make_problem(s, s.loop, s.dom, sc["num_cons"], None)
    acq = acquisition(s)
    obj, err = attempt(lambda: make_loop(s.loop, prob, acq, sc["n"], sc["verbose"], sc["seed"],
                                         sc["surrogate"]), 60)
    ev = {"op": "new", "loop": s.loop, "exc": exc_name(err), "dom": mat(s.dom), "n": sc["n"],
          "evals": s.evals}
    s.phase = "run"
    s.opt_obj = obj
    if err is None:
        try:
            ev["snap"] = s.snap()
        except Exception as e2:
            ev["exc"] = "snap " + type(e2).__name__
    s.events.append(ev)
    if ev["exc"] != "none":
        return s.events
    while s.todo:
        step = s.todo.pop(0)
        if step["op"] != "run":
            continue
        if sc["other"] and s.rng.uniform() < 0.4:
            other_activity(s, prob)
        opt = None if step["opt"] == "none" else float(step["opt"])
        prob.optimum = opt
        s.events.append({"op": "run", "max": step["max"], "thr": num(float(step["thr"])),
                         "opt": "none" if opt is None else num(opt), "cr": num(float(step["cr"]))})
        ret, err = attempt(lambda: go(obj, s.loop, step, sc["positional"]), 120)
        ev = {"op": "end", "exc": exc_name(err), "snap": s.snap()}
        if err is None and s.loop != "mf":
            try:
                ev["ret"] = {"has": "yes", "best": num(ret[0]), "bestx": s.pts(ret[1])}
            except Exception:
                ev["ret"] = {"has": "yes", "best": "unreadable", "bestx": []}
        else:
            ev["ret"] = {"has": "no"}
        s.events.append(ev)
        # whatever was left of this run in the scenario is not needed any more
        while s.todo and s.todo[0]["op"] != "run":
            s.todo.pop(0)
    return s.events


# ------------------------------------------------------------------ reproducibility
def problem_by_name(name):
    if name == "scripted_cons2":
        import numpy as np
        from mfpml.problems.functions import Functions

        class TwoCons(Functions):
            num_dim = 1
            num_cons = 2
            num_obj = 1
            optimum = None
            input_domain = np.array([[-1.0, 2.0]])

            @staticmethod
            def f(x):
                return np.reshape(np.sin(3 * x[:, 0]) + x[:, 0], (-1, 1))

            @staticmethod
            def f_cons(x):
                return np.column_stack([x[:, 0] - 1.5, -np.cos(x[:, 0])])
        return TwoCons()
    import mfpml.problems.mf_functions as M
    import mfpml.problems.sf_cons_functions as C
    import mfpml.problems.sf_functions as S
    for mod in (S, M, C):
        if hasattr(mod, name):
            return getattr(mod, name)()
    raise KeyError(name)


def state_of(p):
    return digest({k: v for k, v in vars(type(p)).items() if k in
                   ("input_domain", "optimum", "optimum_scheme", "num_dim", "num_cons")},
                  {k: v for k, v in vars(p).items()})


def repro(top):
    """the same creation-and-run several times, with other activity in between"""
    sc = top
    import numpy as np
    events = []
    from mfpml.optimization import mf_acqusitions as MA
    from mfpml.optimization import sf_cons_acqusitions as CA
    from mfpml.optimization import sf_uncons_acqusitions as UA
    from mfpml.optimization.evolutionary_algorithms import PSO
    shared = {}

    def acq_of(name):
        for m in (UA, CA, MA):
            if hasattr(m, name):
                kw = {}
                if sc.get("pso"):
                    kw["optimizer"] = PSO(num_gen=6, num_pop=8)
                return getattr(m, name)(**kw)

    probs = {}
    for step in sc["steps"]:
        if step["op"] == "noise":
            np.random.seed(step["k"])
            np.random.uniform(size=step["k"] % 17)
            continue
        if step["op"] == "share":
            shared[1] = acq_of(top["acq"])
            continue
        sc = dict(top, **step.get("as", {}))
        if step.get("fresh_problem") or sc["problem"] not in probs:
            probs[sc["problem"]] = problem_by_name(sc["problem"])
        prob = probs[sc["problem"]]
        acq = shared.get(1) if not step.get("as") else None
        acq = acq or acq_of(sc["acq"])
        n = list(sc["n"])
        n0 = list(n)
        p0 = state_of(prob)
        box = {}

        def work():
            if sc["loop"] == "mf":
                from mfpml.optimization.mf_uncons_bo import mfUnConsBayesOpt
                o = mfUnConsBayesOpt(problem=prob, acquisition=acq, num_init=n,
                                     surrogate_name=sc["surrogate"], seed=step["seed"], verbose=False)
            else:
                o = make_loop(sc["loop"], prob, acq, n, False, step["seed"], None)
            box["initial"] = digest(o.init_sample)
            kw = {"cost_ratio": 2.0} if sc["loop"] == "mf" else {}
            o.run_optimizer(max_iter=step["iters"], stopping_error=-1.0, **kw)
            if sc["loop"] == "cons":
                st = [o.sample, o.obj_response, o.cons_response]
            else:
                st = [o.sample, o.response]
            st += [o.best, o.best_x, o.history_best, o.history_best_x]
            if sc["loop"] == "mf":
                st.append(list(o.fidelity_query_order))
            return digest(*st)
        dg, err = attempt(work, 200)
        base = "%s/%s/%s/%s/%s" % (sc["loop"], sc["problem"], sc["acq"], sc["n"], sc["surrogate"])
        events.append({"op": "final", "exc": exc_name(err), "digest": dg or "none",
                       "initial": box.get("initial", "none%d" % len(events)),
                       "base": base, "seed": step["seed"],
                       "key": "%s/%s/%s" % (base, step["seed"], step["iters"]),
                       "problem0": p0, "problem1": state_of(prob), "n0": n0, "n1": [int(t) for t in n]})
    return events


def run(sc):
    return repro(sc) if sc["kind"] == "repro" else replay(sc)


# ------------------------------------------------------------------ scenarios
def scenarios(prop, tier, seed):
    import random
    rng = random.Random(seed * 7919 + 13)
    out, info = [], {"states": 0, "transitions": 0}
    if prop == "B06":
        return repro_scenarios(tier, rng), info
    want = {"quick": dict(sf=90, cons1=60, cons2=50, cons3=20, mf=90, sflong=3, conslong=2, mflong=3),
            "thorough": dict(sf=900, cons1=700, cons2=600, cons3=300, mf=900, sflong=40, conslong=40,
                             mflong=60)}[tier]
    if prop == "B02":
        want.update(cons1=0, cons2=0, cons3=0, conslong=0)
    if prop == "B05":
        want = {k: v * 2 for k, v in want.items()}
        want.update(sf=0, mf=0, sflong=0, mflong=0)
    cfgs = dict(sf="BayesOptGenSf.cfg", cons1="BayesOptGenCons1.cfg", cons2="BayesOptGenCons2.cfg",
                cons3="BayesOptGenCons3.cfg", mf="BayesOptGenMf.cfg", sflong="BayesOptGenSfLong.cfg",
                conslong="BayesOptGenCons2Long.cfg", mflong="BayesOptGenMfLong.cfg")
    import concurrent.futures as cf
    todo = [k for k in want if want[k]]
    with cf.ThreadPoolExecutor(4) as pool:
        gens = list(pool.map(lambda k: vlib.generate(
            "BayesOptMC", cfgs[k], extra=["-simulate", "num=%d" % want[k], "-depth", "160",
                                          "-seed", str(seed * 1000 + len(k))]), todo))
    for k, (behaviours, st) in zip(todo, gens):
        for j, h in enumerate(behaviours[:want[k]]):
            new = h[0]
            dim = rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 4]) if "long" not in k else rng.choice([2, 2, 3])
            dom = [[rng.choice([-5.0, 0.0, -1.0, 2.0])] for _ in range(dim)]
            for b in dom:
                b.append(b[0] + rng.choice([1.0, 3.0, 7.5, 120.0]))
            out.append(dict(id="%s-%s-%d" % (prop, k, j), kind="replay", loop=new["loop"], n=new["n"],
                            new=new, steps=h[1:], dim=dim, dom=dom,
                            num_cons={"cons1": 1, "cons2": 2, "conslong": 2, "cons3": 3}.get(k, 0),
                            ints=rng.random() < 0.3, row=rng.random() < 0.5, other=rng.random() < 0.3,
                            positional=rng.random() < 0.3,
                            verbose=rng.random() < 0.3, seed=rng.randrange(1, 5000),
                            surrogate=rng.choice(["HierarchicalKriging", "ScaledKriging", "CoKriging"]),
                            pseed=rng.randrange(10 ** 6)))
    return out + real_scenarios(prop, tier, rng), info


def real_scenarios(prop, tier, rng):
    """the same events with benchmark problems and the library's own acquisitions"""
    pool = [("sf", "Forrester", a, 1, 0) for a in ("EI", "LCB", "PI")] + \
        [("sf", "Branin", a, 2, 0) for a in ("EI", "LCB", "PI")] + \
        [("sf", "Sixhump", "EI", 2, 0), ("sf", "Hartman3", "LCB", 3, 0)] + \
        [("cons", p, "CEI", 2, 1) for p in ("Branin_1", "Branin_2")] + [("cons", "scripted_cons2", "CEI", 1, 2)] + \
        [("mf", p, a, 1, 0) for p in ("Forrester_1a", "Forrester_1b", "Forrester_1c")
         for a in ("VFEI", "VFLCB", "AugmentedEI", "ExtendedPI")]
    pool = [p for p in pool if not (prop == "B05" and p[0] != "cons") and not (prop == "B02" and p[0] == "cons")]
    out = []
    for j, (loop, problem, acq, dim, nc) in enumerate(
            rng.sample(pool, min(len(pool), 6)) if tier == "quick" else pool * 3):
        p = problem_by_name(problem)
        steps = []
        for r in range(rng.choice([1, 2])):
            opt = getattr(p, "optimum", None)
            steps.append(dict(op="run", max=rng.choice([1, 2, 3]), thr=rng.choice(["0.01", "1", "0"]),
                              opt="none" if opt is None or rng.random() < 0.6 else repr(float(opt)), cr="2"))
        out.append(dict(id="%s-real-%s-%s-%d" % (prop, problem, acq, j), kind="replay", loop=loop, dim=dim,
                        n=[rng.choice([3, 4]), rng.choice([6, 7])] if loop == "mf" else [rng.choice([4, 6])],
                        real=[problem, acq, rng.choice(["pso", "pso", "de", ""]) if tier == "quick" else
                              rng.choice(["pso", "de", "", ""])],
                        new={"evals": []}, steps=steps, dom=[[float(t) for t in b] for b in p.input_domain],
                        num_cons=nc, verbose=False, seed=rng.randrange(1, 5000), ints=False, row=False,
                        other=False, positional=False, pseed=1, surrogate="HierarchicalKriging" if acq == "VFEI" else
                        rng.choice(["HierarchicalKriging", "ScaledKriging", "CoKriging"])))
    return out


def repro_scenarios(tier, rng):
    cfgs = []
    for a in ("EI", "LCB", "PI"):
        cfgs.append(dict(loop="sf", problem="Forrester", acq=a, n=[4], surrogate="none"))
    cfgs.append(dict(loop="sf", problem="Branin", acq="LCB", n=[5], surrogate="none", pso=True))
    cfgs.append(dict(loop="cons", problem="Branin_1", acq="CEI", n=[5], surrogate="none", pso=True))
    cfgs.append(dict(loop="cons", problem="scripted_cons2", acq="CEI", n=[4], surrogate="none"))
    for sname in ("HierarchicalKriging", "ScaledKriging", "CoKriging"):
        cfgs.append(dict(loop="mf", problem="Forrester_1a", acq="VFLCB", n=[3, 6], surrogate=sname, pso=True))
    cfgs.append(dict(loop="mf", problem="Forrester_1b", acq="AugmentedEI", n=[3, 6],
                     surrogate="HierarchicalKriging", pso=True))
    cfgs.append(dict(loop="mf", problem="Forrester_1a", acq="VFEI", n=[3, 6],
                     surrogate="HierarchicalKriging"))
    cfgs.append(dict(loop="mf", problem="Forrester_1a", acq="ExtendedPI", n=[3, 6],
                     surrogate="HierarchicalKriging", pso=True))
    out = []
    others = {"sf": [dict(problem="Branin"), dict(problem="Forrester"), dict(problem="Hartman3"),
                     dict(problem="Branin", n=[8])],
              "cons": [dict(problem="Branin_2"), dict(problem="Branin_1", n=[9])],
              "mf": [dict(problem="mf_Hartman3", surrogate="HierarchicalKriging"),
                     dict(problem="Forrester_1c", surrogate="ScaledKriging"),
                     dict(problem="Forrester_1a", surrogate="CoKriging", n=[4, 4])]}
    special = [0, 1996, 2 ** 31, 1, 4095]
    for r in range(1 if tier == "quick" else 6):
        for j, c in enumerate(cfgs):
            s1, s2 = rng.randrange(2, 4000), rng.randrange(4096, 9000)
            if rng.random() < 0.5:
                s1, s2 = rng.sample(special, 2)
            it = rng.choice([1, 1, 2]) if tier == "quick" else rng.choice([1, 2, 3])
            steps = [dict(op="final", seed=s1, iters=it),
                     dict(op="noise", k=rng.randrange(1000)),
                     dict(op="final", seed=s2, iters=it if r % 2 else 0),
                     dict(op="share"),
                     dict(op="final", seed=s1, iters=it),
                     dict(op="final", seed=s1, iters=0, **{"as": rng.choice(others[c["loop"]])}),
                     dict(op="final", seed=s1, iters=it, fresh_problem=True),
                     dict(op="noise", k=rng.randrange(1000)),
                     dict(op="final", seed=s2, iters=it if r % 2 else 0, fresh_problem=True)]
            # every pair of seeds at which designs are compared
            steps += [dict(op="final", seed=t, iters=0) for t in rng.sample(special, 3)]
            out.append(dict(c, id="B06-%d-%d" % (r, j), kind="repro", steps=steps))
    return out


MODELS = {"quick": [("BayesOptMC", "BayesOptMCQuick.cfg")],
          "thorough": [("BayesOptMC", "BayesOptMC.cfg"), ("BayesOptMC", "BayesOptMCDeep.cfg")]}
