"""Surrogate models: sessions generated from the specification, executed on
the real models, recorded as traces of spec/Models.tla."""
import vlib
from vlib import attempt, digest, exc_name, mat, num, shape, vec

TRACE = ("ModelsTrace", "ModelsTrace.cfg")
MODELS = {"quick": [("ModelsMC", "ModelsMC.cfg")],
          "thorough": [("ModelsMC", "ModelsMC.cfg"), ("ModelsMC", "ModelsMCDeep.cfg")]}
ASSUMPTIONS = ["training sets are well separated unless noise is present; responses are n-by-1 arrays",
               "equations are compared where the kernel matrices have condition below 1e8",
               "fits by local search are compared for one and the same random state"]

SPACES = {"unit": (0.0, 1.0), "shifted": (-5.0, 10.0), "wide": (-1000.0, 3000.0), "small": (2.0, 2.001)}
MIXED = [(-1.0, 0.5), (100.0, 900.0), (0.0, 0.01), (-30.0, -10.0), (5.0, 6.0)]
BOXES = {"default": None, "narrow": [-1.0, 1.0], "high": [0.0, 2.5], "long": [-4.0, 3.0]}
DEFAULT_BOX = {"gp": [-2, 3], "hk": [-2, 3], "sk": [-4, 3], "ck": [-2, 3]}
DEFAULT_RHO = {"gp": [0, 0], "hk": [0, 0], "sk": [1e-2, 10.0], "ck": [1e-2, 100.0]}
DEFAULT_RESTART = {"gp": 5, "hk": 5, "sk": 0, "ck": 0}


def space_of(name, d):
    import numpy as np
    if name == "mixed":
        return np.array(MIXED[:d])
    return np.array([SPACES[name]] * d, dtype=float)


# --------------------------------------------------------------------------
# searches
SEARCHES = None          # list being filled, or None
DEPTH = 0


def note(lo, hi, n, x, val, probes):
    if SEARCHES is not None and DEPTH == 0:
        SEARCHES.append({"num": int(n), "lo": vec(lo), "hi": vec(hi), "x": vec(x), "val": num(val), "probes": probes})


def tap():
    """observe scipy's bounded local search, wherever it is called from"""
    import numpy as np
    import scipy.optimize._lbfgsb_py as a
    import scipy.optimize._minimize as b
    if hasattr(a, "_verif_tap"):
        return
    real = a._minimize_lbfgsb

    def wrapped(fun, x0, *args, **kw):
        global DEPTH
        DEPTH += 1
        try:
            res = real(fun, x0, *args, **kw)
        finally:
            DEPTH -= 1
        if SEARCHES is not None and DEPTH == 0:
            bounds = kw.get("bounds")
            if bounds is None and len(args) >= 3:
                bounds = args[2]
            try:
                if hasattr(bounds, "lb"):
                    lo, hi = bounds.lb, bounds.ub
                else:
                    q = np.array([[float("-inf") if l is None else l, float("inf") if u is None else u]
                                  for l, u in bounds], dtype=float)
                    lo, hi = q[:, 0], q[:, 1]
            except Exception:
                lo, hi = [], []
            lo, hi = [np.broadcast_to(np.asarray(v, dtype=float).ravel(), (np.size(x0),))
                      if np.size(v) in (1, np.size(x0)) else v for v in (lo, hi)]
            v = np.asarray(res.fun).ravel()[0]
            note(lo, hi, np.size(x0), res.x, v, [{"x": vec(res.x), "val": num(v)}])
        return res
    a._minimize_lbfgsb = wrapped
    b._minimize_lbfgsb = wrapped
    a._verif_tap = True


class Stub:
    """an optimizer following the protocol, returning a scripted point"""

    def __init__(self):
        self.pick = None

    def run_optimizer(self, objective, num_dim=None, design_space=None, *args, **kw):
        import numpy as np
        global DEPTH
        box = np.array(design_space, dtype=float)
        x, others = self.pick(box)
        DEPTH += 1
        try:
            batch = np.vstack([x] + others)
            vals = np.asarray(objective(batch.copy()), dtype=float).ravel()
            single = [float(np.asarray(objective(r.reshape(1, -1).copy())).ravel()[0]) for r in batch[:2]]
        finally:
            DEPTH -= 1
        probes = [{"x": vec(r), "val": num(v)} for r, v in zip(batch, vals)]
        probes += [{"x": vec(r), "val": num(v)} for r, v in zip(batch, single)]
        note(box[:, 0], box[:, 1], num_dim, x, vals[0], probes)
        return {"best_x": x.copy(), "best_y": np.array([vals[0]])}, None, None

    def plot_optimization_history(self, *a, **k):
        pass


class Real:
    """a real optimizer of the repository, observed"""

    def __init__(self, kind):
        from mfpml.optimization import evolutionary_algorithms as ea
        self.opt = ea.PSO(num_pop=8, num_gen=3) if kind == "pso" else ea.DE(num_pop=8, num_gen=3)
        self.pick = None

    def run_optimizer(self, objective, num_dim=None, design_space=None, *args, **kw):
        import numpy as np
        global DEPTH
        box = np.array(design_space, dtype=float)
        DEPTH += 1
        try:
            out = self.opt.run_optimizer(objective, num_dim, design_space, *args, **kw)
        finally:
            DEPTH -= 1
        best = out[0]
        v = np.asarray(best["best_y"]).ravel()[0]
        x = np.asarray(best["best_x"], dtype=float).ravel()
        note(box[:, 0], box[:, 1], num_dim, x, v, [{"x": vec(x), "val": num(v)}])
        return out

    def plot_optimization_history(self, *a, **k):
        pass


# --------------------------------------------------------------------------
def gram(th, X, Y=None):
    import numpy as np
    Y = X if Y is None else Y
    d = ((X[:, None, :] - Y[None, :, :]) ** 2 * 10.0 ** np.asarray(th)).sum(-1)
    return np.exp(-d)


def cond(K):
    import numpy as np
    w = np.linalg.eigvalsh(K)
    return w[-1] / max(w[0], 1e-300)


class Session:
    def __init__(self, sc):
        self.sc = sc
        self.events = []
        self.objs = {}              # key -> dict
        self.count = 0
        self.asked = {}             # log index -> (key, which, X, std)
        self.trainings = {}         # log index -> (key, data)
        self.kers = {}
        self.nker = 0

    # ---- models
    def make(self, key, e):
        import numpy as np
        from mfpml.models import basis_functions as bf
        from mfpml.models.co_kriging import CoKriging
        from mfpml.models.gaussian_process import GaussianProcessRegression
        from mfpml.models.hierarchical_kriging import HierarchicalKriging
        from mfpml.models.kernels import RBF
        from mfpml.models.scale_kriging import ScaledKriging
        kind, d = e["kind"], e["dim"]
        S = space_of(e["space"], d)
        prior = None if e["prior"] == "none" else float(e["prior"])
        restart = DEFAULT_RESTART[kind] if e["restart"] < 0 else e["restart"]
        box = BOXES[e["box"]]
        rbox = [0.5, 2.0] if e["rhobox"] == "other" else None
        kw = {"noise_prior": prior}
        if e["restart"] >= 0:
            kw["optimizer_restart"] = restart
        opt = None
        if e["opt"] != "none":
            opt = Stub() if e["opt"] == "stub" else Real(e["opt"])
            kw["optimizer"] = opt
        if kind == "gp":
            if box:
                kw["kernel"] = RBF(theta=np.zeros(d), bounds=list(box))
            kw["regr"] = [bf.Ordinary, bf.Linear, bf.Quadratic][e["deg"]]()
        elif box:
            kw["kernel_bound"] = list(box)
        if kind in ("sk", "ck") and rbox:
            kw["rho_bound"] = list(rbox)
        if kind == "sk":
            kw["rho_optimize"] = e["rhofit"] != "none"
            if e["rhofit"] != "none":
                kw["rho_method"] = e["rhofit"]
            if opt is not None:
                kw["rho_optimizer"] = opt if e["opt"] == "stub" else Real(e["opt"])
        cls = {"gp": GaussianProcessRegression, "hk": HierarchicalKriging, "sk": ScaledKriging, "ck": CoKriging}[kind]
        Sarg = S.copy()
        m, err = attempt(lambda: cls(Sarg, **kw), 20)
        tl, th = box or DEFAULT_BOX[kind]
        rl, rh = rbox or DEFAULT_RHO[kind]
        self.count += 1
        self.events.append({"op": "make", "exc": exc_name(err), "set": {
            "kind": kind, "S": mat(S), "deg": e["deg"], "prior": "none" if prior is None else num(prior),
            "tlo": num(tl), "thi": num(th), "llo": num(tl) if kind == "gp" else "-2", "lhi": num(th) if kind == "gp" else "3",
            "rlo": num(rl), "rhi": num(rh), "rhofit": e["rhofit"], "restart": restart, "opt": e["opt"]}})
        if err is None:
            self.objs[key] = dict(n=self.count, e=e, kind=kind, d=d, S=S, prior=prior, m=m, opt=opt, data=None)
        return err is None

    def lay(self, A, layout):
        import numpy as np
        if layout == "fortran":
            return np.array(A, order="F")
        if layout == "strided":
            big = np.zeros((2 * len(A), 2 * A.shape[1]), dtype=A.dtype)
            big[::2, ::2] = A
            return big[::2, ::2]
        if layout == "ints":
            R = np.round(A)
            return R.astype(int) if np.all(R == A) else A.copy()
        if layout == "vector":
            return A[0].copy() if len(A) == 1 else A.copy()
        if layout == "readonly":
            B = A.copy()
            B.setflags(write=False)
            return B
        return A.copy()

    def build_data(self, o, e):
        import numpy as np
        rng = np.random.RandomState(1000 + e["seed"])
        d, S = o["d"], o["S"]
        kind = e["data"]
        deg = o["e"]["deg"]
        need = {0: 3, 1: d + 3, 2: (d + 1) * (d + 2) // 2 + 2}[deg]
        nh, nl = max(e["nh"], need), max(e["nl"], e["nh"])

        def lhs(n):
            u = np.column_stack([(rng.permutation(n) + rng.uniform(0.15, 0.85, n)) / n for _ in range(d)])
            return u
        Ul = lhs(nl)
        Uh = Ul[rng.permutation(nl)[:nh]] if kind == "nested" and nh <= nl else lhs(nh)
        if kind == "cluster":
            # the expensive data sit in one part of the space
            Uh = rng.uniform(0, 0.7, d) + 0.3 * Uh
        if kind == "repeated" and o["prior"] != 0.0:
            Uh = np.vstack([Uh, Uh[:2]])
            Ul = np.vstack([Ul, Ul[:1]])
        Xh, Xl = S[:, 0] + Uh * (S[:, 1] - S[:, 0]), S[:, 0] + Ul * (S[:, 1] - S[:, 0])
        a, b, c = rng.uniform(2, 6, d), rng.uniform(0, 3), rng.uniform(0.5, 2)

        def high(U):
            if kind == "linear":
                return 1.0 + U @ a
            if kind == "nearlinear":
                return 1.0 + U @ a + 10.0 ** -(3 + e["seed"] % 4) * np.sin(U @ a + b)
            return np.sin(U @ a + b) + 0.4 * np.cos(3 * U[:, 0] * c)

        def low(U):
            if kind == "slope":
                return 1.0 - 12.0 * high(U)
            if kind == "flat":
                # few percent of the variation around the mean of the expensive data
                centre = np.mean(high(Uh))
                return centre + 0.05 * (high(U) - centre)
            if kind == "same":
                return high(U)
            if kind == "exact":
                return 0.5 * high(U) + [0.0, 1e-3, 1e-2][e["seed"] % 3] * np.cos(5 * U[:, -1])
            if kind == "linear":
                return 0.5 * (1.0 + U @ a) - 0.3
            return 0.7 * high(U) + 0.5 * U[:, 0] - 0.2
        yh, yl = high(Uh), low(Ul)
        if kind == "rough":
            yh, yl = rng.randn(len(Uh)), rng.randn(len(Ul))
        if kind == "constant":
            yh = np.full(len(Uh), 3.7)
            if e["seed"] % 2:
                yl = np.full(len(Ul), 1.3)
        if kind == "repeated":
            yh = yh + 0.05 * rng.randn(len(yh))
            yl = yl + 0.05 * rng.randn(len(yl))
        f, g = {"offset": (1.0, 1e3), "tiny": (1e-4, 0.0), "minute": (1e-13, 0.0), "big": (1e5, -3e4)}.get(kind, (1.0, 0.0))
        yh, yl = (f * yh + g).reshape(-1, 1), (f * yl + g).reshape(-1, 1)
        if kind == "integers":
            yh, yl = np.round(9 * yh).astype(int), np.round(9 * yl).astype(int)
            if np.min(S[:, 1] - S[:, 0]) > 50:
                Xh, Xl = np.round(Xh).astype(int), np.round(Xl).astype(int)
        y = e["layout"]
        arr = [self.lay(A, y) for A in (Xh, yh, Xl, yl)]
        return dict(Xh=arr[0], yh=arr[1], Xl=arr[2], yl=arr[3], seed=e["seed"], hyp=e["hyp"], kind=kind, layout=y)

    def picker(self, o, data):
        """scripted hyper-parameters, well conditioned where possible"""
        import numpy as np
        rng = np.random.RandomState(77 * data["hyp"] + 5)
        stages = {"gp": ["hf"], "hk": ["lf", "hf"], "ck": ["lf", "hf"],
                  "sk": ["lf", "hf"] if o["e"]["rhofit"] == "none" else ["lf", "rho", "hf"]}[o["kind"]]
        w = o["S"][:, 1] - o["S"][:, 0]
        X = {"lf": (np.array(data["Xl"], dtype=float) - o["S"][:, 0]) / w,
             "hf": (np.array(data["Xh"], dtype=float) - o["S"][:, 0]) / w}
        state = {"k": 0}
        learned = o["prior"] is None

        def one(box, stage):
            lo, hi = box[:, 0], box[:, 1]
            t = lo + (hi - lo) * np.sqrt(rng.random_sample(len(lo)))
            pos = 0
            if stage == "rho" or (stage == "hf" and o["kind"] == "ck"):
                t[0] = np.clip(np.exp(rng.uniform(-1, 1.2) if data["hyp"] != 4 else rng.choice([-4.0, 2.0])), lo[0], hi[0])
                pos = 1
            if learned and stage != "rho" and len(lo) > 1:
                k = pos if o["kind"] == "ck" and stage == "hf" else len(lo) - 1
                t[k] = np.clip(np.exp(rng.uniform(-6, 0.5)), lo[k], hi[k])
            return t

        def theta(t, stage):
            d = o["d"]
            return t[-d:] if o["kind"] == "ck" and stage == "hf" else t[:d]

        def pick(box):
            stage = stages[state["k"]] if state["k"] < len(stages) else "hf"
            state["k"] += 1
            if stage == "rho":
                return one(box, stage), [one(box, stage) for _ in range(2)]
            good = []
            for _ in range(40):
                t = one(box, stage)
                try:
                    ok = cond(gram(theta(t, stage), X[stage]) + 1e-10 * np.eye(len(X[stage]))) < 1e6
                except Exception:
                    ok = True
                if ok:
                    good.append(t)
                if len(good) == 3:
                    break
            while len(good) < 3:
                good.append(one(box, stage))
            return good[0], good[1:]
        return pick

    def sound(self, o, data):
        """(equations comparable, interpolation expected)"""
        import numpy as np
        m, kind = o["m"], o["kind"]
        Xh, yh, Xl, yl = [np.array(data[k], dtype=float) for k in ("Xh", "yh", "Xl", "yl")]
        w = o["S"][:, 1] - o["S"][:, 0]
        Uh, Ul = (Xh - o["S"][:, 0]) / w, (Xl - o["S"][:, 0]) / w

        def std(y):
            return np.std(y) if np.any(y != y.ravel()[0]) else 1.0

        def ratio(y):
            return abs(np.mean(y)) / std(y)

        def lg(p):
            return np.log10(np.asarray(p, dtype=float).ravel())
        th = lg(m.kernel.hyperparameters)
        if kind == "gp":
            y2 = [yh]
        else:
            lth = lg(m.lfGP.kernel.hyperparameters)
            y2 = [yh, yl]
        eqs = all(ratio(y) < 1e5 for y in y2)
        nug = 1e-10
        worst = 0.0
        if kind == "gp":
            worst = cond(gram(th, Uh) + np.eye(len(Uh)) * (nug + (float(m.noise) / std(yh)) ** 2))
        else:
            ln = float(m.lfGP.noise) / (1.0 if kind == "ck" else std(yl))
            Kl = gram(lth, Ul) + np.eye(len(Ul)) * (nug + ln ** 2)
            worst = cond(Kl)
            pl = np.asarray(m.predict_lf(Xh)).reshape(-1, 1)
            hn = float(np.asarray(m.noise).ravel()[0])
            if kind == "hk":
                Kh = gram(th, Uh) + np.eye(len(Uh)) * (nug + (hn / std(yh)) ** 2)
                eqs = eqs and np.max(np.abs((pl - np.mean(yh)) / std(yh))) > 1e-6
            elif kind == "sk":
                disc = yh - float(np.asarray(m.rho).ravel()[0]) * pl
                spread = max(np.ptp(yh), np.ptp(pl), 1e-300)
                eqs = eqs and (np.ptp(disc) > 1e-6 * spread) and ratio(disc) < 1e5
                Kh = gram(th, Uh) + np.eye(len(Uh)) * (nug + (hn / std(disc)) ** 2)
            else:
                Kh = gram(th, Uh) + np.eye(len(Uh)) * (nug + hn ** 2)
                rho = float(np.asarray(m.rho).ravel()[0])
                z = np.vstack([(yl - np.mean(yh)) / std(yh), (yh - np.mean(yh)) / std(yh)])

                def s2(K, y):
                    one = np.ones((len(y), 1))
                    A = np.linalg.solve(K, np.hstack([one, y]))
                    mu = (one.T @ A[:, 1:]) / (one.T @ A[:, :1])
                    r = y - mu
                    return float(r.T @ np.linalg.solve(K, r)) / len(y)
                sl = s2(Kl, z[:len(Ul)])
                dd = z[len(Ul):] - rho * (pl - np.mean(yh)) / std(yh)
                sd = s2(Kh, dd)
                C = np.vstack([np.hstack([sl * Kl, rho * sl * gram(lth, Ul, Uh)]),
                               np.hstack([rho * sl * gram(lth, Uh, Ul), rho ** 2 * sl * (gram(lth, Uh) + nug * np.eye(len(Uh))) + sd * Kh])])
                C = C + 1e-10 * np.eye(len(C))
                worst = max(worst, cond(C) / 10)
                eqs = eqs and min(sl, sd) > 1e-9
            worst = max(worst, cond(Kh))
        if not np.isfinite(worst):
            return False, False
        fine = o["e"]["opt"] not in ("stub", "pso", "de") or worst < 1e7
        # points far from zero lose digits when they are scaled
        lost = max(1.0, 0.1 * float(np.max(np.abs(o["S"]) / w[:, None])))
        return bool(eqs and worst * lost < 1e8), bool(fine)

    def train(self, key, data):
        import numpy as np
        global SEARCHES
        o = self.objs[key]
        m = o["m"]
        X = [data["Xh"], data["Xl"]]
        Y = [data["yh"], data["yl"]]
        form = tuple if data["hyp"] == 3 else list
        args = (data["Xh"], data["yh"]) if o["kind"] == "gp" else (form(X), form(Y))
        before = digest(*args)
        if o["opt"] is not None:
            o["opt"].pick = self.picker(o, data)
        ev = {"op": "train", "obj": o["n"], "Xh": mat(data["Xh"]), "yh": vec(data["yh"]),
              "Xl": mat(data["Xl"]) if o["kind"] != "gp" else [], "yl": vec(data["yl"]) if o["kind"] != "gp" else [],
              "seed": data["seed"], "hyp": data["hyp"] if o["e"]["opt"] == "stub" else 0, "in0": before}
        np.random.seed(data["seed"] + 17)
        SEARCHES = []
        try:
            _, err = attempt(lambda: m.train(*args), 60)
        finally:
            searches, SEARCHES = SEARCHES, None
        eqs, fine = False, False
        if err is None:
            def flags():
                return self.sound(o, data)
            res, bad = attempt(flags, 20)
            if bad is None:
                eqs, fine = res

        def get(*path):
            v = m
            for p in path:
                v = getattr(v, p, None)
            return vec(v) if v is not None else ["none"]
        multi = o["kind"] != "gp"
        ev.update({"in1": digest(*args), "exc": exc_name(err), "searches": searches, "eqs": eqs, "fine": fine,
                   "theta": get("kernel", "hyperparameters"), "ltheta": get("lfGP", "kernel", "hyperparameters") if multi else [],
                   "noise": get("noise"), "lnoise": get("lfGP", "noise") if multi else [],
                   "rho": get("rho") if o["kind"] in ("sk", "ck") else []})
        self.events.append(ev)
        o["data"] = data if err is None else None
        o["asked"] = []
        return err is None

    def points(self, o, e):
        import numpy as np
        X = self.where(o, e)
        if e["layout"] == "vector":
            return X[:1]
        if e["layout"] == "ints" and np.min(o["S"][:, 1] - o["S"][:, 0]) > 2:
            return np.round(X)
        return X

    def where(self, o, e):
        import numpy as np
        rng = np.random.RandomState(31 * e["seed"] + e["size"])
        S, d, size = o["S"], o["d"], e["size"]
        w = S[:, 1] - S[:, 0]
        rnd = S[:, 0] + w * rng.random_sample((size, d))
        kind = e["kind"]
        own = np.array(o["orig"]["Xl" if e["which"] == "lf" else "Xh"], dtype=float)
        if kind == "train":
            return own[rng.permutation(len(own))[:max(size, 3)]]
        if kind == "corner":
            return np.where(rng.randint(0, 2, (size, d)) == 1, S[:, 0], S[:, 1])
        if kind == "outside":
            return S[:, 0] + w * rng.uniform(-0.3, 1.3, (size, d))
        if kind == "twice":
            return rnd[rng.randint(0, max(1, size // 2), size)]
        if kind == "near":
            return own[rng.randint(0, len(own), size)] + w * rng.choice([1e-9, 1e-6, 1e-3, 1e-2], (size, 1)) * rng.uniform(-1, 1, (size, d))
        if kind == "centre":
            return np.vstack([S.mean(axis=1), rnd])[:size]
        return rnd

    def predict(self, key, which, X, std, layout="plain", arg=None):
        import numpy as np
        o = self.objs[key]
        if o["data"] is None:
            return
        m, data = o["m"], o["data"]
        arg = self.lay(X, layout) if arg is None else arg
        f = m.predict_lf if which == "lf" else m.predict
        keep = [data[k] for k in ("Xh", "yh", "Xl", "yl")]
        b0, d0 = digest(arg), digest(*keep)
        rows = mat(np.atleast_2d(arg))
        out, err = attempt(lambda: f(arg, return_std=True) if std else f(arg), 20)
        mean = sd = None
        if err is None and std:
            try:
                mean, sd = out
            except Exception:
                mean = out
        elif err is None:
            mean = out
        self.events.append({"op": "predict", "obj": o["n"], "which": which, "X": rows, "std": bool(std), "exc": exc_name(err),
                            "mean": mat(mean), "mshape": shape(mean), "sd": mat(sd) if std else [],
                            "sshape": shape(sd) if std else [], "in0": b0, "in1": digest(arg), "data0": d0, "data1": digest(*keep)})
        o["asked"].append((which, X, std))

    def switch(self, key, kind):
        o = self.objs[key]
        opt = None if kind == "none" else Stub() if kind == "stub" else Real(kind)
        _, err = attempt(lambda: o["m"].change_optimizer(opt), 5)
        o["opt"], o["e"] = opt, dict(o["e"], opt=kind)
        self.events.append({"op": "switch", "obj": o["n"], "opt": kind, "exc": exc_name(err)})

    def overwrite(self, key):
        import numpy as np
        o = self.objs[key]
        if o["data"] is None:
            return
        for k, v in (("Xh", 7), ("yh", -55), ("Xl", 3), ("yl", 1234)):
            a = o["data"][k]
            try:
                a.setflags(write=True)
                a[...] = v
            except ValueError:
                pass
        self.events.append({"op": "overwrite", "obj": o["n"]})

    def run(self):
        import numpy as np
        tap()
        for i, e in enumerate(self.sc["log"], 1):
            op = e["op"]
            if op == "make":
                self.make(i, e)
            elif op == "train" and e["obj"] in self.objs:
                o = self.objs[e["obj"]]
                data = self.build_data(o, e)
                o["orig"] = {k: np.array(data[k]) for k in ("Xh", "Xl", "yh", "yl")}
                self.trainings[i] = (e["obj"], data, o["orig"])
                self.train(e["obj"], data)
            elif op == "predict" and e["obj"] in self.objs and self.objs[e["obj"]]["data"] is not None:
                X = self.points(self.objs[e["obj"]], e)
                self.asked[i] = (e["obj"], e["which"], X, e["std"])
                self.predict(e["obj"], e["which"], X, e["std"], e["layout"])
            elif op == "again" and e["of"] in self.asked:
                self.again(e)
            elif op == "retrain" and e["of"] in self.trainings:
                self.retrain(i, e)
            elif op == "overwrite" and e["obj"] in self.objs:
                self.overwrite(e["obj"])
            elif op == "switch" and e["obj"] in self.objs:
                self.switch(e["obj"], e["opt"])
            elif op in ("basis", "kmake", "kset", "kcall", "delta"):
                getattr(self, op)(i, e)
        return self.events

    def again(self, e):
        import numpy as np
        key, which, X, std = self.asked[e["of"]]
        how = e["how"]
        if how == "one":
            for k in range(min(3, len(X))):
                self.predict(key, which, X[k:k + 1], std)
        elif how == "reverse":
            self.predict(key, which, X[::-1].copy(), std)
        elif how == "flip":
            self.predict(key, which, X, not std)
        elif how == "subset":
            self.predict(key, which, X[1::2].copy() if len(X) > 1 else X, std)
        elif how in ("firstsame", "lastsame", "inplace"):
            # another batch of the same size, sharing a point or the array
            S = self.objs[key]["S"]
            rng = np.random.RandomState(len(self.events))
            Z = S[:, 0] + (S[:, 1] - S[:, 0]) * rng.random_sample(X.shape)
            if how == "inplace":
                arg = X.astype(float)
                self.predict(key, which, X, std, arg=arg)
                arg[...] = Z
                self.predict(key, which, Z, std, arg=arg)
            else:
                k = 0 if how == "firstsame" else len(X) - 1
                Z[k] = X[k]
                self.predict(key, which, X, std)
                self.predict(key, which, Z, std)
            self.predict(key, which, Z[::-1].copy(), std)
        elif how == "repeat":
            self.predict(key, which, np.vstack([X, X[:1]]), std)
        elif how == "twice":
            self.predict(key, which, X, std)
            self.predict(key, which, X, std)
        else:
            self.predict(key, which, X, std)

    def retrain(self, i, e):
        import numpy as np
        key, data, orig = self.trainings[e["of"]]
        fresh = dict(data, **{k: self.lay(orig[k], data["layout"]) for k in orig})
        asked = list(self.objs[key].get("asked", []))[-3:]
        if e["how"] == "clone":
            new = "clone%d" % i
            if not self.make(new, self.objs[key]["e"]):
                return
            key = new
        if e["how"] == "inplace" and self.objs[key]["data"] is not None:
            # the caller refills the arrays of the last training
            o = self.objs[key]
            fresh = dict(o["data"])
            for k in ("Xh", "yh", "Xl", "yl"):
                try:
                    fresh[k].setflags(write=True)
                except ValueError:
                    return
            n = len(fresh["yh"])
            fresh["Xh"][...] = np.array(o["orig"]["Xh"])[::-1]
            fresh["yh"][...] = np.array(o["orig"]["yh"])
            fresh["Xl"][...] = np.array(o["orig"]["Xl"])
            fresh["yl"][...] = 2 * np.array(o["orig"]["yl"])
            orig = {k: np.array(fresh[k]) for k in ("Xh", "Xl", "yh", "yl")}
        if e["how"] == "grow":
            o = self.objs[key]
            rng = np.random.RandomState(i)
            more = {}
            for a, b in (("Xh", "yh"), ("Xl", "yl")):
                A, y = np.array(orig[a], dtype=float), np.array(orig[b], dtype=float)
                w = o["S"][:, 1] - o["S"][:, 0]
                C = o["S"][:, 0] + w * rng.random_sample((60, o["d"]))
                far = [np.min(np.sum(((A - c) / w) ** 2, axis=1)) for c in C]
                more[a] = np.vstack([A, C[int(np.argmax(far))]])
                more[b] = np.vstack([y, [[np.mean(y) + 0.3 * np.ptp(y)]]])
            orig = more
            fresh = dict(data, **{k: np.array(more[k]) for k in more})
        if e["how"].startswith("new"):
            # part of the data changes, the rest is the same arrays
            rng = np.random.RandomState(i + 5)
            orig = {k: np.array(v, dtype=float) for k, v in orig.items()}
            o = self.objs[key]
            if e["how"] == "newx":
                for a in ("Xh", "Xl"):
                    orig[a] = o["S"][:, 0] + o["S"][:, 1] - orig[a]
            elif e["how"] == "newy":
                for a in ("yh", "yl"):
                    orig[a] = orig[a][::-1] * 1.5
            elif e["how"] == "newlow":
                orig["yl"] = orig["yl"] + 0.3 * np.ptp(orig["yl"]) * rng.standard_normal(orig["yl"].shape)
            else:
                orig["yh"] = orig["yh"] + 0.3 * np.ptp(orig["yh"]) * rng.standard_normal(orig["yh"].shape)
            fresh = dict(data, **{k: (data[k] if np.array_equal(data[k], orig[k]) else np.array(orig[k])) for k in orig})
        self.objs[key]["orig"] = orig
        if not self.train(key, fresh):
            return
        for which, X, std in asked:
            self.predict(key, which, X, std)
        if e["how"] in ("inplace", "grow", "newx", "newy", "newlow", "newhigh"):
            # the same on a model that never saw anything else
            new = "twin%d" % i
            if self.make(new, self.objs[key]["e"]):
                self.objs[new]["orig"] = orig
                if self.train(new, dict(fresh, **{k: np.array(orig[k]) for k in orig})):
                    for which, X, std in asked[-2:]:
                        self.predict(new, which, X, std)
                        self.predict(key, which, X, std)

    # ---- parts
    def array(self, n, d, values, layout, seed):
        import numpy as np
        rng = np.random.RandomState(seed * 13 + n)
        if values == "integers":
            A = rng.randint(-2, 3, (n, d))
        elif values == "zeros":
            A = np.zeros((n, d))
        elif values == "same":
            A = np.tile(rng.random_sample((1, d)), (n, 1))
        elif values == "grid":
            A = rng.randint(0, 3, (n, d)) / 2.0
        elif values == "close":
            A = np.tile(rng.random_sample((1, d)), (n, 1)) + rng.choice([0.0, 1e-9, 1e-5, 1e-4], (n, 1)) * rng.choice([-1.0, 1.0], (n, d))
        elif values == "wide":
            A = rng.uniform(-2, 2, (n, d))
        else:
            A = rng.random_sample((n, d))
        return self.lay(A, layout)

    def basis(self, i, e):
        from mfpml.models import basis_functions as bf
        f = [bf.Ordinary, bf.Linear, bf.Quadratic][e["deg"]]()
        X = self.array(e["n"], e["d"], e["values"], e["layout"], e["seed"])
        b = digest(X)
        rows = mat(X)
        out, err = attempt(lambda: f(X), 20)
        self.events.append({"op": "basis", "deg": e["deg"], "X": rows, "out": mat(out), "shape": shape(out),
                            "exc": exc_name(err), "in0": b, "in1": digest(X)})

    def theta(self, how, d, seed):
        import numpy as np
        rng = np.random.RandomState(seed + 3)
        return {"zero": np.zeros(d), "low": rng.uniform(-3, -1, d), "high": rng.uniform(1, 3, d)}.get(how, rng.uniform(-2, 2, d))

    def report(self, k):
        import numpy as np

        def read():
            return {"param": vec(k.hyperparameters), "num": int(k._get_num_para), "lo": vec(k._get_low_bound), "hi": vec(k._get_high_bound)}
        out, err = attempt(read, 5)
        return out if err is None else {"param": ["bad"], "num": -1, "lo": [], "hi": []}

    def kmake(self, i, e):
        from mfpml.models.kernels import RBF
        th = self.theta(e["theta"], e["d"], e["seed"])
        box = BOXES[e["box"]]
        k, err = attempt(lambda: RBF(theta=th.copy(), bounds=list(box)) if box else RBF(theta=th.copy()), 5)
        lo, hi = box or [-2, 3]
        self.nker += 1
        self.events.append({"op": "kmake", "theta": vec(th), "lo": num(lo), "hi": num(hi), "exc": exc_name(err),
                            "rep": self.report(k)})
        if err is None:
            self.kers[i] = (self.nker, k, e["d"])

    def kset(self, i, e):
        if e["ker"] not in self.kers:
            return
        n, k, d = self.kers[e["ker"]]
        th = self.theta(e["theta"], d, e["seed"])
        arg = th.copy()
        _, err = attempt(lambda: k.set_params(arg), 5)
        arg += 1.0
        self.events.append({"op": "kset", "ker": n, "theta": vec(th), "rep": self.report(k), "exc": exc_name(err)})

    def pair(self, e, d):
        import numpy as np
        X = self.array(e["n"], d, e["values"], e["layout"], e["seed"])
        if e["pair"] == "self":
            return X, X
        if e["pair"] == "equal":
            return X, np.array(X)
        if e["pair"] == "order":
            return X, np.array(X)[::-1].copy()
        if e["pair"] == "part":
            return X, X[:max(1, len(X) - 1)].copy()
        Y = self.array(1 + e["seed"] % 4, d, e["values"], e["layout"], e["seed"] + 1)
        return (Y, X) if e["pair"] == "swap" else (X, Y)

    def kcall(self, i, e):
        if e["ker"] not in self.kers:
            return
        n, k, d = self.kers[e["ker"]]
        X, Y = self.pair(e, d)
        th = self.theta(e["theta"], d, e["seed"])
        arg = th.copy()
        b = digest(X, Y, arg)
        rx, ry = mat(X), mat(Y)
        out, err = attempt(lambda: k(X, Y, arg) if e["form"] == "params" else k.get_kernel_matrix(X, Y), 10)
        self.events.append({"op": "kcall", "ker": n, "form": e["form"], "theta": vec(th), "X": rx, "Y": ry, "out": mat(out),
                            "shape": shape(out), "rep": self.report(k), "in0": b, "in1": digest(X, Y, arg), "exc": exc_name(err)})

    def delta(self, i, e):
        from mfpml.models.kernels import kronDelta
        X, Y = self.pair(e, e["d"])
        rx, ry = mat(X), mat(Y)
        out, err = attempt(lambda: kronDelta(X, Y), 10)
        self.events.append({"op": "delta", "X": rx, "Y": ry, "out": mat(out), "shape": shape(out), "exc": exc_name(err)})


def run(sc):
    return Session(sc).run()


def scenarios(prop, tier, seed):
    if prop in ("M07", "M08"):
        k = {"quick": 150, "thorough": 3000}[tier]
        logs, _ = vlib.generate("ModelsGen", "ModelsParts.cfg",
                                extra=["-simulate", "num=%d" % k, "-depth", "120", "-seed", str(seed * 61 + 5)])
        return [dict(id="%s-p%d" % (prop, j), kind="parts", log=h) for j, h in enumerate(logs[:k])], {"states": 0, "transitions": 0}
    walks = {"quick": 55, "thorough": 700}[tier]
    tours, st = vlib.generate("ModelsGen", "ModelsTour.cfg" if tier == "quick" else "ModelsTourDeep.cfg")
    logs, _ = vlib.generate("ModelsGen", "ModelsGen.cfg",
                            extra=["-simulate", "num=%d" % walks, "-depth", "150", "-seed", str(seed * 61 + 5)])
    out = [dict(id="%s-t%d" % (prop, j), kind="tour", log=h) for j, h in enumerate(tours)]
    out += [dict(id="%s-w%d" % (prop, j), kind="walk", log=h) for j, h in enumerate(logs[:walks])]
    if seed != 1:
        for sc in out:
            for e in sc["log"]:
                if "seed" in e:
                    e["seed"] += 40 * (seed - 1)
    return out, {"states": st["states"], "transitions": st["transitions"]}
