"""Acquisition functions: sessions generated from the specification, executed
on the real acquisition functions and surrogates, recorded as traces of
spec/Acquisition.tla."""
import drv_models
import vlib
from vlib import attempt, digest, exc_name, mat, num, vec

TRACE = ("AcquisitionTrace", "AcquisitionTrace.cfg")
MODELS = {"quick": [("AcquisitionMC", "AcquisitionMC.cfg")],
          "thorough": [("AcquisitionMC", "AcquisitionMC.cfg"), ("AcquisitionMC", "AcquisitionMCDeep.cfg")]}
ASSUMPTIONS = ["what surrogates predict is taken from the surrogates (decided by M01-M05) or scripted",
               "improvements are compared where deviations are above rounding level (always for scripted predictions)",
               "scipy's differential evolution is compared with sampled points, not with the true optimum"]
KAPPAS = [None, [2.0, 0.5], [1.0, 0.0], [0.3, 4.0]]

WATCH = None        # list being filled with searches, or None


def rows1(f, X, args):
    """values of f at the rows of X, asked as one batch and one by one"""
    import numpy as np
    v = np.asarray(f(X.copy(), *args), dtype=float).ravel()
    w = [float(np.asarray(f(r.copy(), *args)).ravel()[0]) for r in X[:2]]
    return [(r, float(a)) for r, a in zip(X, v)] + [(r, a) for r, a in zip(X, w)]


def probe_points(box, x, seed):
    import numpy as np
    rng = np.random.RandomState(seed)
    return np.vstack([np.asarray(x, dtype=float).reshape(1, -1), box[:, 0] + (box[:, 1] - box[:, 0]) * rng.random_sample((3, len(box)))])


def tap():
    """observe scipy's differential evolution, wherever it is called from"""
    import numpy as np
    from scipy.optimize._differentialevolution import DifferentialEvolutionSolver as D
    if hasattr(D, "_verif_real"):
        return
    D._verif_real = D.solve

    def solve(self, *a, **k):
        global WATCH
        if WATCH is None:
            return D._verif_real(self, *a, **k)
        watch, WATCH = WATCH, None
        try:
            res = D._verif_real(self, *a, **k)
            box = np.array(self.limits, dtype=float).T
            X = probe_points(box, res.x, 11)
            vals = [(r, float(np.asarray(self.func(r.copy())).ravel()[0])) for r in X]
            watch.append(dict(by="none", box=box, n=len(res.x), x=np.array(res.x, dtype=float),
                              val=float(np.asarray(res.fun).ravel()[0]), probes=vals))
        finally:
            WATCH = watch
        return res
    D.solve = solve


class Watched:
    """an optimizer handed to an acquisition function"""

    def __init__(self, kind):
        from mfpml.optimization import evolutionary_algorithms as ea
        self.kind = kind
        self.real = {"pso": lambda: ea.PSO(num_pop=10, num_gen=4), "de": lambda: ea.DE(num_pop=10, num_gen=4)}.get(kind, lambda: None)()
        self.seed = 0

    def run_optimizer(self, func, num_dim, design_space, print_info=False, save_step_results=False, stopping_error=None, args=()):
        import numpy as np
        global WATCH
        box = np.array(design_space, dtype=float)
        watch, WATCH = WATCH, None
        try:
            if self.real is None:
                self.seed += 1
                rng = np.random.RandomState(self.seed)
                X = box[:, 0] + (box[:, 1] - box[:, 0]) * rng.random_sample((4, len(box)))
                v = np.asarray(func(X.copy(), *args), dtype=float).ravel()
                k = int(np.argmin(v)) if self.seed % 3 else 0
                x, val = X[k], v[k]
                out = ({"best_x": x.copy(), "best_y": np.array([val])}, np.array([val]), x.copy())
            else:
                out = self.real.run_optimizer(func, num_dim=num_dim, design_space=design_space, args=args)
                x, val = np.asarray(out[2], dtype=float).ravel(), float(np.asarray(out[1]).ravel()[0])
            if watch is not None:
                watch.append(dict(by=self.kind, box=box, n=int(num_dim), x=np.array(x, dtype=float), val=float(val),
                                  probes=rows1(func, probe_points(box, x, 5), args)))
        finally:
            WATCH = watch
        return out


class Session(drv_models.Session):
    def __init__(self, sc):
        super().__init__(sc)
        self.surs = {}          # log index -> number, in order of appearance
        self.acqs = {}
        self.evals = {}
        self.state = {}

    def run(self):
        tap()
        drv_models.tap()
        for i, e in enumerate(self.sc["log"], 1):
            op = e["op"]
            if op == "space":
                self.space = e
            elif op == "sur":
                self.sur(i, e)
            elif op == "refit" and e["sur"] in self.surs:
                self.fit(e["sur"], e)
            elif op == "acq":
                self.acq(i, e)
            elif op in ("eval", "query") and e["acq"] in self.acqs and e["sur"] in self.surs and all(c in self.surs for c in e["cons"]):
                getattr(self, op)(i, e)
            elif op == "again" and e["of"] in self.evals:
                self.more(e)
        return [e for e in self.events if e["op"] in ("fit", "acq", "eval", "query", "crash")]

    # ---- surrogates
    def sur(self, i, e):
        s = {"op": "make", "kind": e["kind"], "dim": self.space["dim"], "space": self.space["space"], "deg": 0, "prior": e["prior"],
             "box": "default", "rhobox": "default", "rhofit": "none", "restart": 0, "opt": "stub"}
        if not self.make(i, s):
            self.events.append({"op": "fit", "sur": len(self.surs) + 1, "kind": e["kind"], "exc": "construction", "S": [], "Xh": [], "yh": [],
                                "Xl": [], "th": [], "lth": [], "noise": "0", "lowh": [], "exact": False, "sound": False})
            return
        self.surs[i] = len(self.surs) + 1
        self.objs[i]["how"] = e["how"]
        self.fit(i, e)

    def fit(self, i, e):
        import numpy as np
        o = self.objs[i]
        m = o["m"]
        for name in ("predict", "predict_lf"):
            m.__dict__.pop(name, None)
        data = self.build_data(o, dict(e, layout="plain"))
        if data["hyp"] == 3:
            data["hyp"] = 4
        o["orig"] = {k: np.array(data[k], dtype=float) for k in ("Xh", "Xl", "yh", "yl")}
        ok = self.train(i, data)
        ev = self.events.pop()
        multi = o["kind"] != "gp"
        lowh = []
        if ok and multi:
            v, err = attempt(lambda: np.asarray(m.predict_lf(np.array(data["Xh"], dtype=float))).ravel(), 10)
            lowh = vec(v) if err is None else ["nan"] * len(data["Xh"])

        def lg(v):
            with np.errstate(all="ignore"):
                return vec([np.log10(float(t)) for t in v])
        if ok and o["how"] == "script":
            self.script(o, e["seed"])
        self.events.append({"op": "fit", "sur": self.surs[i], "kind": o["kind"], "S": mat(o["S"]), "Xh": ev["Xh"], "yh": ev["yh"], "Xl": ev["Xl"],
                            "th": lg(ev["theta"]) if ok else [], "lth": lg(ev["ltheta"]) if ok and multi else [],
                            "noise": ev["noise"][0] if ok else "0", "lowh": lowh, "exact": o["how"] == "script",
                            "sound": bool(ev["eqs"]), "exc": ev["exc"]})
        if not ok:
            self.surs.pop(i)

    def script(self, o, seed):
        """predictions constant on the cells of a grid, deviations of every size"""
        import numpy as np
        rng = np.random.RandomState(900 + seed)
        y, d, S = o["orig"]["yh"].ravel(), o["d"], o["S"]
        f0, w = float(y.min()), float(np.ptp(y)) or 1.0
        n = 4 ** d
        mean = f0 + w * rng.choice([-2.0, -0.4, 0.0, 0.0, 0.2, 1.0, 4.0], n)
        low = np.where(rng.random_sample(n) < 0.3, mean, f0 + w * rng.choice([-1.0, 0.0, 0.3, 2.0], n))
        sizes = np.array([0.0, 1e-17, 1e-16, 1e-10, 1e-3 * w, 0.3 * w, w, 5 * w])
        sd, lsd = rng.choice(sizes, n), rng.choice(sizes, n)

        def cell(X):
            U = (np.atleast_2d(np.asarray(X, dtype=float)) - S[:, 0]) / (S[:, 1] - S[:, 0])
            k = np.clip(np.floor(U * 4).astype(int), 0, 3)
            return k @ (4 ** np.arange(d))

        def scripted(a, b):
            def predict(X, return_std=False):
                k = cell(X)
                if return_std:
                    return a[k].reshape(-1, 1), b[k].reshape(-1, 1)
                return a[k].reshape(-1, 1)
            return predict
        o["m"].predict = scripted(mean, sd)
        if o["kind"] != "gp":
            o["m"].predict_lf = scripted(low, lsd)

    def preds(self, i, X):
        """what surrogate i predicts at the rows of X"""
        import numpy as np
        o = self.objs[i]
        X = np.array(X, dtype=float).reshape(-1, o["d"])
        out = {"m": [], "s": [], "lm": [], "ls": []}
        pairs = [("m", "s", o["m"].predict)]
        if o["kind"] != "gp":
            pairs.append(("lm", "ls", o["m"].predict_lf))
        for a, b, f in pairs:
            v, err = attempt(lambda: f(X.copy(), return_std=True), 20)
            out[a], out[b] = (vec(v[0]), vec(v[1])) if err is None else (["nan"] * len(X), ["nan"] * len(X))
        return out

    def look(self, idx):
        """digest of what surrogates answer"""
        import numpy as np
        parts = []
        for i in idx:
            o = self.objs[i]
            rng = np.random.RandomState(3)
            X = o["S"][:, 0] + (o["S"][:, 1] - o["S"][:, 0]) * rng.random_sample((4, o["d"]))
            parts.append(str(self.preds(i, X)) + str(vec(o["m"].kernel.hyperparameters)))
        return digest(*parts)

    # ---- acquisition functions
    def acq(self, i, e):
        from mfpml.optimization import mf_acqusitions as mf
        from mfpml.optimization import sf_cons_acqusitions as sc
        from mfpml.optimization import sf_uncons_acqusitions as sf
        cls = {"LCB": sf.LCB, "EI": sf.EI, "PI": sf.PI, "CEI": sc.CEI, "AEI": mf.AugmentedEI, "VFEI": mf.VFEI,
               "VFLCB": mf.VFLCB, "EPI": mf.ExtendedPI}[e["name"]]
        opt = None if e["opt"] == "none" else Watched(e["opt"])
        kw = {}
        if opt is not None:
            kw["optimizer"] = opt
        kappa = KAPPAS[e["kappa"]]
        if kappa is not None and e["name"] in ("LCB", "VFLCB"):
            kw["kappa"] = list(kappa)
        a, err = attempt(lambda: cls(**kw), 10)
        k = kappa or [1.0, 1.96]
        self.events.append({"op": "acq", "name": e["name"], "kappa": vec(k), "opt": e["opt"], "exc": exc_name(err)})
        if err is None:
            self.acqs[i] = (len(self.acqs) + 1, e["name"], a, opt)

    def fmin(self, o, e):
        import numpy as np
        y = o["orig"]["yh"].ravel()
        w = float(np.ptp(y)) or 1.0
        return {"best": float(y.min()), "below": float(y.min()) - 0.3 * w, "zero": 0.0, "above": float(y.min()) + 1.7 * w,
                "mean": float(y.min()) + 0.37 * w}[e["fmin"]]

    def call(self, name, a, x, sur, cons, fid, cr, f):
        m = self.objs[sur]["m"]
        cs = [self.objs[c]["m"] for c in cons]
        if name == "CEI":
            return a.eval(x, m, cs)
        if name in ("LCB", "EI", "PI"):
            return a.eval(x, m)
        if name in ("AEI", "VFLCB"):
            return a.eval(x, m, cr, fid)
        if name == "VFEI":
            return a.eval(x, f, m, fid)
        return a.eval(x, m, f, cr, fid)

    def everywhere(self, name, sur):
        import numpy as np
        o = self.objs[sur]
        return self.preds(sur, np.vstack([o["orig"]["Xh"], o["orig"]["Xl"]])) if name == "AEI" else {"m": [], "s": [], "lm": [], "ls": []}

    def eval(self, i, e, X=None, arg=None, fid=None, cr=None):
        o = self.objs[e["sur"]]
        if X is None:
            X = self.points(o, dict(e, which="hf"))
            self.evals[i] = (e, X)
        fid = e["fid"] if fid is None else fid
        self.value(e, X, self.lay(X, e["layout"]) if arg is None else arg, fid, float(e["cr"]) if cr is None else cr, self.fmin(o, e))

    def value(self, e, X, arg, fid, cr, f):
        import numpy as np
        n, name, a, _ = self.acqs[e["acq"]]
        idx = [e["sur"]] + list(e["cons"])
        P, C = self.preds(e["sur"], X), [self.preds(c, X) for c in e["cons"]]
        A = self.everywhere(name, e["sur"])
        rows = mat(np.asarray(X).reshape(-1, self.objs[e["sur"]]["d"]))
        s0, b0 = self.look(idx), digest(arg)
        out, err = attempt(lambda: self.call(name, a, arg, e["sur"], e["cons"], fid, cr, f), 20)
        self.events.append({"op": "eval", "acq": n, "sur": self.surs[e["sur"]], "cons": [self.surs[c] for c in e["cons"]], "X": rows, "fid": fid,
                            "cr": num(cr), "fmin": num(f), "P": P, "C": C, "A": A, "out": vec(out) if err is None else [],
                            "in0": b0, "in1": digest(arg), "sur0": s0, "sur1": self.look(idx), "exc": exc_name(err)})

    def more(self, e):
        import numpy as np
        f, X = self.evals[e["of"]]
        if f["sur"] not in self.surs or any(c not in self.surs for c in f["cons"]):
            return
        how = e["how"]
        plain = dict(f, layout="plain")
        rng = np.random.RandomState(len(self.events))
        S = self.objs[f["sur"]]["S"]
        Z = S[:, 0] + (S[:, 1] - S[:, 0]) * rng.random_sample(X.shape)
        if how == "one":
            for k in range(min(3, len(X))):
                self.eval(0, plain, X=X[k:k + 1])
        elif how == "reverse":
            self.eval(0, plain, X=X[::-1].copy())
        elif how == "fidelity":
            self.eval(0, f, X=X, fid=1 - f["fid"])
            if self.acqs[f["acq"]][1] in ("AEI", "VFEI", "VFLCB", "EPI"):
                self.eval(0, f, X=X, fid=7)
        elif how == "ratio":
            self.eval(0, f, X=X, cr=3.0 * float(f["cr"]))
        elif how == "inplace":
            arg = X.astype(float)
            self.eval(0, plain, X=X, arg=arg)
            arg[...] = Z
            self.eval(0, plain, X=Z, arg=arg)
        elif how == "firstsame":
            Z[0] = X[0]
            self.eval(0, plain, X=X)
            self.eval(0, plain, X=Z)
        else:
            for _ in range(2 if how == "twice" else 1):
                self.eval(0, f, X=X)

    # ---- searches
    def query(self, i, e):
        import numpy as np
        global WATCH
        n, name, a, opt = self.acqs[e["acq"]]
        o = self.objs[e["sur"]]
        m, cs = o["m"], [self.objs[c]["m"] for c in e["cons"]]
        idx = [e["sur"]] + list(e["cons"])
        cr, f = float(e["cr"]), self.fmin(o, e)
        single = name in ("LCB", "EI", "PI", "CEI")
        if name == "CEI":
            call = lambda: a.query(m, cs)
        elif single:
            call = lambda: a.query(m)
        elif e["seed"] % 2:
            call = lambda: a.query(mf_surrogate=m, cost_ratio=cr, fmin=f)
        else:
            call = lambda: a.query(mf_surrogate=m, fmin=f, cost_ratio=cr)
        s0 = self.look(idx)
        np.random.seed(e["seed"])
        if opt is not None:
            opt.seed = e["seed"]
        WATCH = []
        try:
            out, err = attempt(call, 120)
        finally:
            seen, WATCH = WATCH, None
        ev = {"op": "query", "acq": n, "sur": self.surs[e["sur"]], "cons": [self.surs[c] for c in e["cons"]], "cr": num(cr), "fmin": num(f),
              "A": self.everywhere(name, e["sur"]), "exc": exc_name(err), "x": [], "rfid": 0, "searches": [], "scans": [], "dense": []}
        if err is None:
            x, fid = (out, 0) if single else out
            ev["x"], ev["rfid"] = vec(x), int(fid)
        at = lambda X: [dict(x=vec(r), P=p, C=c) for r, p, c in self.rowwise(e, X)]
        for q in seen:
            P = at(np.array([r for r, _ in q["probes"]]))
            ps = [dict(p, val=num(v)) for p, (_, v) in zip(P, q["probes"])]
            w = {"by": q["by"], "num": q["n"], "lo": vec(q["box"][:, 0]), "hi": vec(q["box"][:, 1]), "x": vec(q["x"]), "val": num(q["val"]), "probes": ps}
            means = [float(p["P"]["m"][0]) for p in P]
            vals = [v for _, v in q["probes"]]
            scan = name == "EPI" and np.allclose(means, vals, rtol=1e-6, atol=1e-7 * (np.ptp(o["orig"]["yh"]) + 1e-300))
            ev["scans" if scan else "searches"].append(w)
        S = o["S"]
        rng = np.random.RandomState(i)
        k = 40
        X = np.vstack([S[:, 0] + (S[:, 1] - S[:, 0]) * rng.random_sample((k, o["d"])), o["orig"]["Xh"][:3]])
        if opt is None or name == "EPI":
            ev["dense"] = at(X)
        if err is None and len(ev["x"]) == o["d"]:
            r = at(np.array([[float(t) for t in ev["x"]]]))[0]
            ev["rP"], ev["rC"] = r["P"], r["C"]
        else:
            ev["rP"], ev["rC"] = {"m": [], "s": [], "lm": [], "ls": []}, []
        ev["sur0"], ev["sur1"] = s0, self.look(idx)
        self.events.append(ev)

    def rowwise(self, e, X):
        P, C = self.preds(e["sur"], X), [self.preds(c, X) for c in e["cons"]]
        cut = lambda p, k: {n: (v[k:k + 1] if v else []) for n, v in p.items()}
        return [(X[k], cut(P, k), [cut(c, k) for c in C]) for k in range(len(X))]


def run(sc):
    return Session(sc).run()


def scenarios(prop, tier, seed):
    mode = {"A01": "sf", "A02": "mf", "A03": "query"}[prop]
    walks = {"quick": 120 if prop != "A03" else 50, "thorough": 2500 if prop != "A03" else 700}[tier]
    logs, st = vlib.generate("AcquisitionGen", "AcquisitionGen_%s.cfg" % mode,
                             extra=["-simulate", "num=%d" % walks, "-depth", "250", "-seed", str(seed * 67 + 3)])
    out = [dict(id="%s-w%d" % (prop, j), kind="walk", log=h) for j, h in enumerate(logs[:walks])]
    info = {"states": 0, "transitions": 0}
    if prop == "A03":
        tours, info = vlib.generate("AcquisitionGen", "AcquisitionTour.cfg" if tier == "quick" else "AcquisitionTourDeep.cfg")
        out = [dict(id="%s-t%d" % (prop, j), kind="tour", log=h) for j, h in enumerate(tours)] + out
    if seed != 1:
        for sc in out:
            for e in sc["log"]:
                if "seed" in e:
                    e["seed"] += 40 * (seed - 1)
    return out, {"states": info["states"], "transitions": info["transitions"]}
