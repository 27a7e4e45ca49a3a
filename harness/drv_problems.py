"""Benchmark problems: sessions generated from the specification, executed on
the real problem objects, recorded as traces of spec/Problems.tla."""
import itertools

import vlib
from vlib import attempt, digest, exc_name, mat, num, shape

TRACE = ("ProblemsTrace", "ProblemsTrace.cfg")
MODELS = {"quick": [("ProblemsMC", "ProblemsMC.cfg")],
          "thorough": [("ProblemsMC", "ProblemsMC.cfg"), ("ProblemsMC", "ProblemsMCDeep.cfg")]}
ASSUMPTIONS = ["points are given as arrays of n >= 1 rows, float or integer",
               "the exponent 2m of the Thevenot function is an integer"]

PARS = {"Thevenot": {"default": {}, "a": {"m": 1.0, "beta": 2.0}, "b": {"m": 2.0, "beta": 4.5}, "c": {"m": 2.5, "beta": 7}},
        "Ackley": {"default": {}, "a": {"a": 10, "b": 0.5, "c": 3.0}, "b": {"a": 20.0, "b": 0.1, "c": 6.25},
                   "c": {"a": 5, "b": 0.2, "c": 2}}}
DEFAULTS = {"Thevenot": {"m": 5.0, "beta": 15.0}, "Ackley": {"a": 20.0, "b": 0.2, "c": 6.283185307179586}}
ORDER = {"Thevenot": ("m", "beta"), "Ackley": ("a", "b", "c")}
SIBLING = {"Forrester_1a": "Forrester", "Forrester_1b": "Forrester", "Forrester_1c": "Forrester",
           "mf_Sixhump": "Sixhump", "mf_Hartman3": "Hartman3", "mf_Hartman6": "Hartman6"}


def find(name):
    import importlib
    for m in ("sf_functions", "mf_functions", "sf_cons_functions"):
        mod = importlib.import_module("mfpml.problems." + m)
        if hasattr(mod, name):
            return getattr(mod, name)
    raise NameError(name)


COSTS = [None, [4.0, 1.0], [3, 0.25], [10.0, 1.02]]


def build(cls, dim, par, how, cost=None):
    kw = dict(PARS.get(cls, {}).get(par, {}))
    if cost is not None:
        kw["cost"] = cost
    k = find(cls)
    return k(num_dim=dim, **kw) if how == "keyword" else k(dim, **kw)


def points_of(scheme):
    import numpy as np
    if scheme is None:
        return []
    a = np.asarray(scheme, dtype=float)
    return mat(a)


def integer(v):
    try:
        return int(v) if int(v) == v else -7
    except Exception:
        return -7


def report(inst, accessors):
    names = (["_get_dimension", "_input_domain", "_optimum", "_optimum_variable"] if accessors
             else ["num_dim", "input_domain", "optimum", "optimum_scheme"])

    def read():
        import numpy as np
        dim, dom, opt, at = [getattr(inst, n) for n in names]
        return {"exc": "none", "dim": integer(dim), "dom": mat(dom), "domshape": shape(np.asarray(dom)),
                "opt": "none" if opt is None else num(opt), "at": points_of(at),
                "obj": integer(inst.num_obj), "cons": integer(inst.num_cons), "cr": cr(inst)}
    out, err = attempt(read, 20)
    return out if err is None else {"exc": exc_name(err), "dim": -7, "dom": [], "domshape": [], "opt": "none",
                                    "at": [], "obj": -7, "cons": -7, "cr": ""}


def cr(inst):
    v = getattr(inst, "cr", None)
    return "none" if v is None else num(v)


class Session:
    def __init__(self, sc):
        self.sc = sc
        self.events = []
        self.objs = {}           # log index -> (number, cls, dim, par, inst, domain, scheme)
        self.count = 0
        self.evals = {}          # log index -> (object key, fid, X)

    def create(self, key, cls, dim, par, how, cost=0):
        cost = None if not cost else list(COSTS[cost])
        before = digest(cost)
        inst, err = attempt(lambda: build(cls, dim, par, how, cost), 20)
        self.count += 1
        p = []
        if cls in ORDER:
            d = dict(DEFAULTS[cls], **PARS[cls][par])
            p = [num(d[k]) for k in ORDER[cls]]
        self.events.append({"op": "create", "cls": cls, "dim": dim, "par": p, "exc": exc_name(err),
                            "cost": [] if cost is None else [num(v) for v in cost], "cost0": before, "cost1": digest(cost)})
        if err is not None or inst is None:
            return None
        import numpy as np
        dom, err = attempt(lambda: np.array(inst.input_domain, dtype=float).reshape(-1, 2), 5)
        at, err2 = attempt(lambda: np.atleast_2d(np.array(inst.optimum_scheme, dtype=float))
                           if inst.optimum_scheme is not None else None, 5)
        if err is not None:
            return None
        self.objs[key] = dict(n=self.count, cls=cls, dim=dim, par=par, inst=inst, dom=dom,
                              at=at if err2 is None else None)
        self.look(key)
        return key

    def look(self, key):
        o = self.objs[key]
        self.events.append({"op": "look", "obj": o["n"], "attr": report(o["inst"], False),
                            "acc": report(o["inst"], True)})

    def points(self, o, kind, size, seed):
        import numpy as np
        rng = np.random.RandomState(seed * 7919 + size)
        lo, hi = o["dom"][:, 0], o["dom"][:, 1]
        d = len(lo)
        rnd = lo + (hi - lo) * rng.random_sample((size, d))
        if kind == "corners":
            if 2 ** d <= size:
                pick = np.array(list(itertools.product([0, 1], repeat=d)))
            else:
                pick = rng.randint(0, 2, (size, d))
            return np.where(pick == 1, hi, lo)
        if kind == "faces":
            m = rng.randint(0, 3, (size, d))
            return np.where(m == 0, lo, np.where(m == 1, hi, rnd))
        if kind == "centre":
            return np.vstack([(lo + hi) / 2, rnd])[:size]
        if kind == "quarters":
            return lo + (hi - lo) * (np.array([[k / 4.0] * d for k in range(5)]) if size <= 5 or d == 1
                                     else rng.randint(0, 5, (size, d)) / 4.0)
        if kind == "edges":
            step = rng.choice([0.0, 1e-9, 1e-7, 1e-3], (size, d)) * (hi - lo)
            return np.where(rng.randint(0, 2, (size, d)) == 1, lo + step, np.where(rng.randint(0, 2, (size, d)) == 1, hi - step, rnd))
        if kind == "integers":
            a, b = np.ceil(lo).astype(int), np.floor(hi).astype(int)
            if np.any(a > b):
                return rnd
            return np.array([[rng.randint(a[j], b[j] + 1) for j in range(d)] for _ in range(size)])
        if kind == "declared" and o["at"] is not None:
            return np.array(o["at"])
        if kind == "near" and o["at"] is not None:
            base = o["at"][rng.randint(0, len(o["at"]), size)]
            return np.clip(base + (hi - lo) * rng.choice([1e-2, 1e-3, 1e-5], (size, 1)) * rng.randn(size, d), lo, hi)
        if kind == "pairs":
            return rnd[rng.randint(0, max(1, size // 2), size)]
        return rnd

    def lay(self, X, layout):
        import numpy as np
        if layout == "fortran":
            return np.asfortranarray(X)
        if layout == "strided":
            big = np.zeros((2 * len(X), 2 * X.shape[1]), dtype=X.dtype)
            big[::2, ::2] = X
            return big[::2, ::2]
        if layout == "readonly":
            Y = X.copy()
            Y.setflags(write=False)
            return Y
        if layout == "reversed":
            return X[::-1].copy()[::-1]
        return X

    def evaluate(self, key, fid, X, layout="plain"):
        o = self.objs[key]
        arg = self.lay(X, layout)
        before = digest(arg)
        rows = mat(arg)
        Y, err = attempt(lambda: getattr(o["inst"], fid)(arg), 30)
        self.events.append({"op": "eval", "obj": o["n"], "fid": fid, "X": rows, "exc": exc_name(err),
                            "Y": mat(Y) if err is None else [], "shape": shape(Y) if err is None else [],
                            "in0": before, "in1": digest(arg)})

    def search(self, o, starts, seed):
        import numpy as np
        from scipy.optimize import minimize
        lo, hi = o["dom"][:, 0], o["dom"][:, 1]
        w = hi - lo
        fid = "hf" if hasattr(type(o["inst"]), "lf") and o["cls"] not in ("",) and not plain(o["cls"]) else "f"
        f = getattr(o["inst"], fid)
        cons = o["cls"].startswith("Branin_")
        rng = np.random.RandomState(seed)
        cand = rng.random_sample((400, len(lo)))
        val = np.array(f(lo + w * cand)).ravel()
        if cons:
            g = np.array(o["inst"].f_cons(lo + w * cand)).ravel()
            val = np.where(g <= 0, val, 1e6)
        best = cand[np.argsort(val)[:starts]]
        out = []
        for s in best:
            def obj(u):
                return float(np.array(f((lo + w * np.clip(u, 0, 1)).reshape(1, -1))).ravel()[0])
            if cons:
                r = minimize(obj, s, method="SLSQP", bounds=[(0, 1)] * len(lo),
                             constraints=[{"type": "ineq", "fun": lambda u: -float(
                                 np.array(o["inst"].f_cons((lo + w * u).reshape(1, -1))).ravel()[0]) - 1e-9}])
            else:
                r = minimize(obj, s, method="L-BFGS-B", bounds=[(0, 1)] * len(lo))
            out.append(np.clip(lo + w * np.clip(r.x, 0, 1), lo, hi))
        out += [lo + w * c for c in best]
        return fid, np.array(out)

    def run(self):
        import numpy as np
        for i, e in enumerate(self.sc["log"], 1):
            if e["op"] == "create":
                self.create(i, e["cls"], e["dim"], e["par"], e["how"], e["cost"])
            elif e["op"] == "look":
                if e["obj"] in self.objs:
                    self.look(e["obj"])
            elif e["op"] == "eval":
                if e["obj"] in self.objs:
                    o = self.objs[e["obj"]]
                    X = self.points(o, e["kind"], e["size"], e["seed"])
                    self.evals[i] = (e["obj"], e["fid"], X)
                    self.evaluate(e["obj"], e["fid"], X, e["layout"])
            elif e["op"] == "search":
                if e["obj"] in self.objs:
                    res, err = attempt(lambda: self.search(self.objs[e["obj"]], e["starts"], e["seed"]), 60)
                    if err is None:
                        self.evaluate(e["obj"], *res)
            elif e["op"] == "again":
                self.again(i, e)
            elif e["op"] == "call":
                self.call(e)
        for key in self.objs:
            self.look(key)
        return self.events

    def again(self, i, e):
        if e["of"] not in self.evals:
            return
        key, fid, X = self.evals[e["of"]]
        o = self.objs[key]
        how = e["how"]
        if how == "one":
            for k in range(min(len(X), 6)):
                self.evaluate(key, fid, X[k:k + 1].copy())
        elif how == "heads":
            for k in sorted({1, 2, 3, 4, 5, 6, o["dim"]}):
                if k <= len(X):
                    self.evaluate(key, fid, X[:k].copy())
        elif how == "reverse":
            self.evaluate(key, fid, X[::-1].copy())
        elif how == "subset":
            self.evaluate(key, fid, X[::2].copy())
        elif how == "twice":
            self.evaluate(key, fid, X)
            self.evaluate(key, fid, X)
        elif how in ("sibling", "fresh"):
            cls = SIBLING.get(o["cls"]) if how == "sibling" else None
            new = self.create("again%d" % i, cls or o["cls"], o["dim"], o["par"], "keyword")
            if new:
                self.evaluate(new, "f" if cls else fid, X.copy())
                if cls:
                    self.evaluate(key, "hf", X.copy())
        else:
            self.evaluate(key, fid, X.copy())

    def call(self, e):
        o = self.objs.get(e["obj"])
        if o is None:
            return
        Xs = [self.points(o, e["kind"], e["size"], e["seed"])]
        if e["size2"]:
            Xs.append(self.points(o, "random", e["size2"], e["seed"] + 1))
        arg = Xs if e["form"] == "list" else tuple(Xs) if e["form"] == "tuple" else [x.tolist() for x in Xs]
        for f, x in zip(("hf", "lf"), Xs):
            self.evaluate(e["obj"], f, x.copy())
        before = digest(arg)
        out, err = attempt(lambda: o["inst"](arg), 30)
        try:
            ys, shapes = [mat(y) for y in out], [shape(y) for y in out]
        except Exception:
            ys, shapes = [], []
        self.events.append({"op": "call", "obj": o["n"], "X": [mat(x) for x in Xs], "Y": ys, "shape": shapes,
                            "exc": exc_name(err), "in0": before, "in1": digest(arg)})


def plain(cls):
    import mfpml.problems.sf_functions as a
    import mfpml.problems.sf_cons_functions as b
    return hasattr(a, cls) or hasattr(b, cls)


def run(sc):
    return Session(sc).run()


def scenarios(prop, tier, seed):
    walks = {"quick": 80, "thorough": 2500}[tier]
    tours, st = vlib.generate("ProblemsGen", "ProblemsTour.cfg" if tier == "quick" else "ProblemsTourDeep.cfg")
    logs, _ = vlib.generate("ProblemsGen", "ProblemsGen.cfg",
                            extra=["-simulate", "num=%d" % walks, "-depth", "90", "-seed", str(seed * 53 + 9)])
    out = [dict(id="%s-t%d" % (prop, j), kind="tour", log=h) for j, h in enumerate(tours)]
    out += [dict(id="%s-w%d" % (prop, j), kind="walk", log=h) for j, h in enumerate(logs[:walks])]
    if seed != 1:
        for sc in out:
            for e in sc["log"]:
                if "seed" in e:
                    e["seed"] += 50 * (seed - 1)
    return out, {"states": st["states"], "transitions": st["transitions"]}
