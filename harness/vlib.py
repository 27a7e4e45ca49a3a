"""Common machinery: encoding of observations, recording of traces from the
real code, TLC runs, verdicts and evidence."""
import concurrent.futures
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """The check itself failed (never a verdict on the code)."""


# --------------------------------------------------------------------------
# environment of the code under test
def setup_env():
    for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                     PYTHONDONTWRITEBYTECODE="1", MKL_NUM_THREADS="1").items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")


# --------------------------------------------------------------------------
# encoding: every real number becomes the shortest string that identifies it
def num(v):
    import numpy as np
    try:
        a = np.asarray(v)
        if a.size != 1:
            return "shape"
        a = a.reshape(-1)[0]
        if isinstance(a, (bool, np.bool_)):
            return repr(float(a))
        if np.issubdtype(a.dtype, np.complexfloating):
            return "complex"
        return repr(float(a))
    except Exception:
        return "bad"


def vec(v):
    import numpy as np
    try:
        return [num(t) for t in np.asarray(v).reshape(-1)]
    except Exception:
        return ["bad"]


def mat(v):
    """rows of an array; a vector is one row, a scalar one row of one"""
    import numpy as np
    if v is None:
        return []
    try:
        a = np.asarray(v)
        if a.ndim < 2:
            a = a.reshape(1, -1)
        if a.ndim > 2:
            return [["shape"]]
        return [[num(t) for t in row] for row in a]
    except Exception:
        return [["bad"]]


def rows_of(v):
    """points of an archive: (n, d) array as n rows"""
    return mat(v)


def shape(v):
    import numpy as np
    try:
        return [int(t) for t in np.shape(v)]
    except Exception:
        return [-1]


def digest(*things):
    import numpy as np
    h = hashlib.sha256()

    def feed(t):
        if t is None:
            h.update(b"N")
        elif isinstance(t, np.ndarray):
            h.update(b"A" + str(t.dtype.kind).encode() + str(t.shape).encode())
            h.update(np.ascontiguousarray(t).tobytes() if t.dtype != object else repr(t.tolist()).encode())
        elif isinstance(t, (list, tuple)):
            h.update(b"L%d" % len(t))
            for u in t:
                feed(u)
        elif isinstance(t, dict):
            h.update(b"D%d" % len(t))
            for k in sorted(t, key=str):
                h.update(str(k).encode())
                feed(t[k])
        elif isinstance(t, (float, int, np.floating, np.integer, np.bool_)):
            h.update(b"F" + repr(float(t)).encode())
        elif isinstance(t, str):
            h.update(b"S" + t.encode())
        else:
            h.update(b"O" + type(t).__name__.encode())
    feed(list(things))
    return h.hexdigest()[:20]


class Scripted(Exception):
    """raised by scripted problems to model a failing evaluation"""


class Hang(BaseException):
    """the code under test did not come back"""


def exc_name(err):
    if err is None:
        return "none"
    if isinstance(err, Scripted):
        return "scripted"
    if isinstance(err, AssertionError):
        return "AssertionError"
    return type(err).__name__


@contextlib.contextmanager
def quiet(seconds=120):
    """silence the code under test and bound its time"""
    def stop(*_):
        raise Hang("no answer in %d s" % seconds)
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


HANGS = 0       # code that hangs does so often: later calls get less time


def attempt(fn, seconds=120):
    """(value, exception or None); exceptions of the code are observations"""
    global HANGS
    try:
        with quiet(seconds if HANGS < 2 else min(seconds, 5)):
            return fn(), None
    except Hang as err:
        HANGS += 1
        return None, err
    except Exception as err:
        return None, err
    except SystemExit as err:
        return None, err


# --------------------------------------------------------------------------
# recording
def _record_chunk(args):
    module, chunk, options = args
    setup_env()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import importlib
    drv = importlib.import_module(module)
    scratch = tempfile.mkdtemp(prefix="mfpml_run_")
    cwd = os.getcwd()
    out = []
    try:
        os.chdir(scratch)
        for sc in chunk:
            try:
                ev = drv.run(sc)
            except Hang as err:
                ev = [{"op": "crash", "what": str(err)}]
            out.append({"id": sc["id"], "ev": ev})
    except Exception:
        return ("error", traceback.format_exc())
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return ("ok", out)


def record(module, scenarios, options=None, chunks=None):
    """run the scenarios on the real code, in parallel, deterministic grouping"""
    chunks = chunks or WORKERS
    parts = [scenarios[k::chunks] for k in range(chunks)]
    parts = [p for p in parts if p]
    ctx = multiprocessing.get_context("spawn")
    with concurrent.futures.ProcessPoolExecutor(min(WORKERS, len(parts)), mp_context=ctx) as pool:
        try:
            res = list(pool.map(_record_chunk, [(module, p, options) for p in parts]))
        except concurrent.futures.process.BrokenProcessPool as err:
            raise Machinery("a recording process ended: %s" % err)
    traces = []
    for kind, val in res:
        if kind == "error":
            raise Machinery("driver %s failed:\n%s" % (module, val))
        traces.extend(val)
    return traces


# --------------------------------------------------------------------------
# TLC
def classes():
    """directory with the compiled TLC operator classes"""
    build = os.path.join(VERIF, "build")
    src = os.path.join(SPEC, "java", "Dec.java")
    with open(src, "rb") as fh:
        tag = hashlib.sha256(fh.read()).hexdigest()[:16]
    dst = os.path.join(build, tag)
    if not os.path.exists(os.path.join(dst, "Dec.class")):
        os.makedirs(build, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=build)
        r = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac: " + r.stderr)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def tlc_cmd(module, cfg, workers=1, extra=(), heap="2g", meta=None):
    return (["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap,
             "-Xss64m", "-XX:TieredStopAtLevel=1" if False else "-XX:+TieredCompilation",
             "-cp", classes() + ":" + JARS, "-Dtlc2.tool.impl.Tool.probabilistic=false",
             "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
             "-config", os.path.join(SPEC, cfg)] + list(extra) +
            [os.path.join(SPEC, module + ".tla")])


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(module, cfg, env=None, workers=1, extra=(), heap="2g", timeout=3600):
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(tlc_cmd(module, cfg, workers, extra, heap, meta), capture_output=True,
                           text=True, env=e, cwd=SPEC, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(text):
    m = None
    for m in STATS.finditer(text):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(module, cfg, workers=None, heap="8g", timeout=3600, extra=(), env=None):
    """exhaustive check of a design model; must succeed"""
    code, text = run_tlc(module, cfg, workers=workers or WORKERS, heap=heap, timeout=timeout,
                         extra=extra, env=env)
    if code != 0 or "No error has been found" not in text:
        raise Machinery("design model %s/%s does not check:\n%s" % (module, cfg, text[-6000:]))
    gen, dist = stats(text)
    return {"states": dist, "transitions": gen}


def generate(module, cfg, env=None, extra=(), heap="4g", timeout=1200, workers=1):
    """scenarios printed by TLC, one per line: SCENARIO <json>"""
    code, text = run_tlc(module, cfg, env=env, extra=extra, heap=heap, timeout=timeout,
                         workers=workers)
    out = []
    for line in text.splitlines():
        if line.startswith('"SCENARIO '):
            out.append(json.loads(json.loads(line)[len("SCENARIO "):]))
    if code not in (0, ) and "SCENARIO" not in text:
        raise Machinery("generator %s/%s failed:\n%s" % (module, cfg, text[-6000:]))
    if not out:
        raise Machinery("generator %s/%s produced nothing:\n%s" % (module, cfg, text[-4000:]))
    # distinct, in order
    seen, uniq = set(), []
    for s in out:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    gen, dist = stats(text)
    return uniq, {"states": dist, "transitions": gen}



def _validate_part(module, cfg, traces, scratch, tag, timeout):
    fails, states, trans, done = [], 0, 0, 0
    rest = list(traces)
    rounds = 0
    while rest:
        rounds += 1
        path = os.path.join(scratch, "%s_%d.ndjson" % (tag, rounds))
        with open(path, "w") as fh:
            for t in rest:
                fh.write(json.dumps(t) + "\n")
        code, text = run_tlc(module, cfg, env={"TRACES": path}, heap="3g", timeout=timeout)
        got = 0
        for line in text.splitlines():
            if line.startswith('"FAIL '):
                tid, k, names = json.loads(json.loads(line)[5:])
                fails.append((tid, k, sorted(names)))
            elif line.startswith('"DONE '):
                got += 1
                done += 1
        g, d = stats(text)
        states += d
        trans += g
        os.unlink(path)
        if got == len(rest):
            break
        if got > len(rest):
            raise Machinery("trace check of %s stopped:\n%s" % (module, text[-5000:]))
        # an observation the specification has no reading for: not a
        # behaviour it allows.  Never happens on well formed observations.
        bad = rest[got]
        err = text[-9000:]
        if "Error" not in err and "error" not in err:
            raise Machinery("trace check of %s stopped:\n%s" % (module, err))
        if os.environ.get("VERIF_DEBUG"):
            print("UNREADABLE", bad["id"], err)
        fails.append((bad["id"], 0, ["*.unreadable_observation"]))
        done += 1
        rest = rest[got + 1:]
        if rounds > 6:          # enough: the remaining traces are not judged
            done += len(rest)
            break
    return fails, states, trans, done


def validate(module, cfg, traces, parts=None, timeout=1500):
    """all verdicts of the trace specification on the traces"""
    from concurrent.futures import ThreadPoolExecutor
    parts = parts or min(WORKERS, max(1, len(traces) // 3))
    scratch = tempfile.mkdtemp(prefix="traces_")
    # longest first, spread evenly
    order = sorted(traces, key=lambda t: -len(json.dumps(t)))
    groups = [order[k::parts] for k in range(parts)]
    groups = [g for g in groups if g]
    try:
        classes()
        with ThreadPoolExecutor(len(groups)) as pool:
            res = list(pool.map(lambda kg: _validate_part(module, cfg, kg[1], scratch, "p%d" % kg[0],
                                                          timeout), enumerate(groups)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fails = sorted(sum((r[0] for r in res), []))
    done = sum(r[3] for r in res)
    if done != len(traces):
        raise Machinery("only %d of %d traces were judged" % (done, len(traces)))
    return fails, {"states": sum(r[1] for r in res), "transitions": sum(r[2] for r in res)}


# --------------------------------------------------------------------------
# known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) id=(\S+) rules=(\S+) (.*)", line)
                if not m:
                    raise Machinery("unreadable known finding: " + line)
                out.append(dict(property=m.group(1), id=m.group(2), rules=set(m.group(3).split(",")),
                                text=m.group(4)))
    return out
