"""Samplers: sessions generated from the specification, executed on the real
sampler objects, recorded as traces of spec/Design.tla."""
import os
import pickle

import vlib
from vlib import attempt, digest, exc_name, mat, num

TRACE = ("DesignTrace", "DesignTrace.cfg")
MODELS = {"quick": [("DesignMC", "DesignMC.cfg")],
          "thorough": [("DesignMC", "DesignMC.cfg"), ("DesignMC", "DesignMCDeep.cfg")]}
ASSUMPTIONS = ["multi-fidelity design spaces are given as one array, or as a list of arrays",
               "as many counts as fidelities are requested",
               "slices are judged with a tolerance of 1e-9 of the range at their boundaries"]

SPACES = [[[0.0, 1.0]],
          [[-5.0, 10.0], [0.0, 15.0]],
          [[0.0, 1.0], [100.0, 400.0], [-3.0, -2.5]],
          [[-1e-3, 1e-3], [-1e4, 3e4]],
          [[-7.0, -6.0]],
          [[1.0, 2.0], [1.0, 1.0]],
          [[-2, 2], [5, 6], [0, 1], [-1, 9]],
          [[1e6, 1e6 + 1.0], [-1e-8, 2e-8], [0.25, 0.75], [-90.0, -30.0], [3.0, 7.0]],
          [[0.0, 1.0], [-1.0, 1.0], [2.0, 4.0], [-10.0, 0.0], [0.0, 1e-3], [5, 50], [-0.5, 0.25]],
          [[float(k - 6), float(2 * k)] for k in range(12)],
          [[-20.0, 30.0]]]


def spaces_of(m):
    """design space of each fidelity"""
    import numpy as np
    base = np.array(SPACES[m["space"] - 1])
    if m["form"] != "mixed":
        return [base.copy() for _ in range(m["levels"])]
    out = []
    for f in range(m["levels"]):
        w = base[:, 1] - base[:, 0]
        out.append(np.column_stack([base[:, 0] + f * w + f, base[:, 1] + 1.5 * f * w + f * 2]) * 1.0)
    return out


def build(m):
    from mfpml.design_of_experiment import mf_samplers as MF
    from mfpml.design_of_experiment import sf_samplers as SF
    sp = spaces_of(m)
    kw = {}
    if m["kind"] in ("sobol", "mfsobol") and m["skip"] >= 0:
        kw["num_skip"] = m["skip"]
    if m["kind"] in ("mflhs", "mfsobol"):
        cls = MF.MFLatinHyperCube if m["kind"] == "mflhs" else MF.MFSobolSequence
        arg = sp[0] if m["form"] == "array" else list(sp)
        if m["form"] == "array":
            kw["num_fidelity"] = m["levels"]
        return cls(design_space=arg, nested=m["nested"], **kw), arg
    cls = {"lhs": SF.LatinHyperCube, "random": SF.RandomSampler, "sobol": SF.SobolSequence,
           "fixed": SF.FixNumberSampler}[m["kind"]]
    arg = sp[0] if m["form"] == "array" else sp[0].tolist()
    if m["form"] == "flat" and len(arg) == 1:
        arg = arg[0]            # one variable, given as its two bounds
    return cls(design_space=arg, **kw), arg


def matrices(m, out):
    if m["kind"] in ("mflhs", "mfsobol"):
        try:
            return [mat_of(d) for d in out]
        except Exception:
            return [[["bad"]]]
    return [mat_of(out)]


def mat_of(d):
    import numpy as np
    try:
        a = np.asarray(d)
        if a.ndim != 2:
            return [["shape"]] * 3
        return mat(a)
    except Exception:
        return [["bad"]] * 3


def e3(r):
    return 0 if r["step2"] == 0 else 1


def counts_of(m, r):
    if m["kind"] not in ("mflhs", "mfsobol"):
        return [r["size"]]
    c = [r["size"]]
    if r["equal"] == 1:
        return c * m["levels"]
    for k in range(1, m["levels"]):
        c.append(max(0, c[-1] + (r["step1"] if k == 1 else r["step2"] if k == 2 else e3(r))))
    return c


def files_now(m_of):
    out = []
    for root, _, names in os.walk("."):
        for nm in sorted(names):
            path = os.path.relpath(os.path.join(root, nm), ".")
            try:
                with open(path, "rb") as fh:
                    d = pickle.load(fh)
                des = [mat_of(x) for x in d] if isinstance(d, list) else [mat_of(d)]
            except Exception as err:
                des = [[["unreadable " + type(err).__name__]]]
            name = path[:-len(".pickle")] if path.endswith(".pickle") else "?" + path
            out.append({"name": name, "design": des})
    return out


def run(sc):
    import numpy as np
    import shutil
    here = os.getcwd()
    work = os.path.join(here, "w" + sc["id"])
    os.makedirs(os.path.join(work, "sub"))
    os.chdir(work)
    try:
        return session(sc, np)
    finally:
        os.chdir(here)
        shutil.rmtree(work, ignore_errors=True)


def session(sc, np):
    events, objs, reqs, last = [], {}, {}, {}
    number = [0]

    def make(m):
        res, err = attempt(lambda: build(m), 60)
        number[0] += 1
        skip = m["skip"]
        if m["kind"] in ("sobol", "mfsobol") and skip < 0 and (
                m["form"] in ("array", "lists") or m["form"] == "flat" and len(SPACES[m["space"] - 1]) > 1):
            skip = len(SPACES[m["space"] - 1])       # the documented default
        events.append({"op": "make", "kind": m["kind"], "spaces": [mat(s) for s in spaces_of(m)],
                       "nested": m["nested"], "skip": skip, "exc": exc_name(err)})
        return (m, number[0], res[0] if err is None else None, res[1] if err is None else None)

    asked = {}

    def request(o, counts, seed, container, omit=False):
        m, k, obj, arg = o
        if obj is None:
            return
        multi = m["kind"] in ("mflhs", "mfsobol")
        ask = (tuple(counts) if container == "tuple" else list(counts)) if multi else counts[0]
        before = digest(arg)
        asked[k] = (o, counts, seed, container)
        kw = {} if omit else {"seed": seed}
        out, err = attempt(lambda: obj.get_samples(num_samples=ask, **kw), 60)
        ev = {"op": "request", "obj": k, "counts": list(counts), "seed": seed, "exc": exc_name(err),
              "design": matrices(m, out) if err is None else [], "space0": before, "space1": digest(arg),
              "counts1": [int(t) for t in ask] if multi else [ask]}
        events.append(ev)
        if err is None:
            last[k] = out

    for i, e in enumerate(sc["log"], 1):
        if e["op"] == "make":
            objs[i] = make(e)
        elif e["op"] == "noise":
            np.random.seed(e["k"])
            np.random.random(e["k"])
        elif e["op"] == "scribble":
            # the caller overwrites the design it got (it is not saved any more)
            k = objs[e["obj"]][1]
            for d in (last[k] if isinstance(last.get(k), list) else [last.get(k)]):
                if isinstance(d, np.ndarray) and d.size and d.flags.writeable:
                    d[...] = -77.5 * e["k"]
            last.pop(k, None)
            if k in asked:
                request(*asked[k])
        elif e["op"] == "request":
            reqs[i] = (e["obj"], counts_of(objs[e["obj"]][0], e), e["seed"], e["container"])
            request(objs[e["obj"]], *reqs[i][1:])
            if e["seed"] == 123456:         # the documented default
                request(objs[e["obj"]], *reqs[i][1:], omit=True)
        elif e["op"] == "again":
            oi, counts, seed, cont = reqs[e["req"]]
            o = objs[oi]
            if e["how"] == "fresh":
                o = make(o[0])
            if e["how"] == "reskip":
                m = o[0]
                if m["skip"] > 100:
                    o = make(dict(m, skip=m["skip"] - 9 if i % 3 else 0))
                    counts = [c + (20 if i % 3 else m["skip"] + 5) for c in counts]
                    request(o, counts, seed, cont)
                    continue
                o = make(dict(m, skip=0 if i % 2 or m["skip"] > 20 else (max(m["skip"], 0) * 5 + i * 3) % 45))
                if i % 2:
                    counts = [c + 30 for c in counts]
            if e["how"] == "seeds":
                counts = [min(c, 3 + k) for k, c in enumerate(counts)]
                for sd in (0, 1, 2, 3, 7, 9, 10, 64, 77, 100, 101, 257, 1001, 65537, 123456, 2 ** 31 - 1):
                    request(o, counts, sd, cont)
                continue
            if e["how"] == "smaller":
                counts = [c // 2 for c in counts]
            if e["how"] == "larger":
                counts = [2 * c + 1 for c in counts]
            if e["how"] == "reseeded":
                seed = seed + 1
            request(o, counts, seed, cont)
        else:
            m, k, obj, arg = objs[e["obj"]]
            if obj is None or k not in last:
                continue
            d0 = digest(last[k])
            name = e["name"]
            if name == "default":
                name = "mf_data" if m["kind"] in ("mflhs", "mfsobol") else "data"
                _, err = attempt(lambda: obj.save_data(), 60)
            else:
                _, err = attempt(lambda: obj.save_data(name), 60)
            events.append({"op": "save", "obj": k, "name": name, "exc": exc_name(err),
                           "files": files_now(None), "design0": d0, "design1": digest(last[k])})
    return events


def scenarios(prop, tier, seed):
    n = {"quick": 160, "thorough": 2500}[tier]
    cfgs = [("a", "DesignGen.cfg", n)]
    if prop in ("D04", "D06"):
        cfgs.append(("b", "DesignGenSobol.cfg", n // 2))
    if prop in ("D01", "D02"):
        cfgs.append(("b", "DesignGenMulti.cfg", n))
    if prop == "D03":
        cfgs.append(("b", "DesignGenSeed.cfg", n // 2))
    out, info = [], {"states": 0, "transitions": 0}
    for tag, cfg, k in cfgs:
        logs, _ = vlib.generate("DesignGen", cfg,
                                extra=["-simulate", "num=%d" % k, "-depth", "110", "-seed", str(seed * 131 + 5)])
        out += [dict(id="%s-%s%d" % (prop, tag, j), kind="session", log=h) for j, h in enumerate(logs[:k])]
    return out, info
