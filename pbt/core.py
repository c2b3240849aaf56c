"""Property-based testing core: case generation, oracles, shrinking, replay, evidence.

A *subcheck* is a Hypothesis strategy producing a JSON-able case together with an oracle run(case, ctx).
The oracle raises Violation when the code under test breaks the property.
"""
import ast
import glob
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append(_VT)
import hypothesis
from hypothesis import strategies as st
from hypothesis import HealthCheck, Phase, settings
import hypothesis.internal.conjecture.engine as _eng

SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_S", "25"))
HANG_SECONDS = int(os.environ.get("VERIF_HANG_S", "60"))
_eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS


class Violation(Exception):
    """the code under test breaks the property"""


class OutOfDomain(Exception):
    """generated case does not belong to the domain of the property (counted, not judged)"""


class Hang(BaseException):
    """no answer from the code under test"""


# ----------------------------------------------------------------------------------------------
# registry

SUBS = {}  # property -> list of Sub
RULES = {}


class Sub:
    def __init__(self, prop, name, strategy, run, quick, thorough, weight):
        self.prop, self.name, self.strategy, self.run = prop, name, strategy, run
        self.quick, self.thorough, self.weight = quick, thorough, weight


def sub(prop, name, strategy, quick=300, thorough=None, weight=1):
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 25, weight)
        )
        return fn

    return deco


def rule(prop, text):
    RULES[prop] = text


# ----------------------------------------------------------------------------------------------
# stdout of the code under test

OUT = io.StringIO()


def clear_out():
    OUT.seek(0)
    OUT.truncate(0)


def out_text():
    return OUT.getvalue()


# ----------------------------------------------------------------------------------------------
# numeric helpers for oracles


def num(x, what="result", finite=True):
    """converts a result to a float64 array, or reports what is wrong with it"""
    try:
        a = np.asarray(x)
        if a.dtype == object or a.dtype.kind in "USOV":
            a = np.array(x, dtype=float)
        if a.dtype.kind == "c":
            raise Violation(f"{what}: complex value {x!r}")
        a = a.astype(float)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: not a number: {x!r} ({e})")
    if finite and not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite: {x!r}")
    return a


def flt(x, what="result", finite=True):
    a = num(x, what, finite)
    if a.size != 1:
        raise Violation(f"{what}: expected one value, got {x!r}")
    return float(a.reshape(-1)[0])


def close(a, b, rtol, what, atol=0.0, ctx=None):
    """a (from code) must be b (reference) within rtol*|b|+atol, elementwise"""
    a = num(a, what)
    b = np.asarray(b, dtype=float)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    err = np.abs(a - b)
    tol = rtol * np.abs(b) + atol
    bad = ~(err <= tol)
    if np.any(bad):
        i = np.argmax(np.where(bad, err / np.maximum(tol, 1e-300), 0).reshape(-1))
        raise Violation(
            f"{what}: {a.reshape(-1)[i]!r} instead of {b.reshape(-1)[i]!r} "
            f"(error {err.reshape(-1)[i]:.3g} > tolerance {np.broadcast_to(tol, err.shape).reshape(-1)[i]:.3g})"
        )


def require(cond, what):
    if not np.all(cond):
        raise Violation(what() if callable(what) else what)


def interleaved(f, g, frac):
    """result of f(), during which g() runs once: before one of the lines executed in the repository, at this fraction of
    them, as another thread would when scheduled there"""
    def traced(at):
        n = [0]

        def line(frame, event, arg):
            if event == "line":
                if n[0] == at:
                    n[0] += 1
                    sys.settrace(None)
                    try:
                        g()
                    finally:
                        sys.settrace(call)
                else:
                    n[0] += 1
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(REPO + os.sep) else None

        old = sys.gettrace()
        sys.settrace(call)
        try:
            r = f()
        finally:
            sys.settrace(old)
        return r, n[0]

    _, total = traced(-1)
    return traced(min(int(frac * total), total - 1))[0]


def undisturbed(f, g, fracs, what, rtol=0.0):
    """f() gives the same values when g() is called while it runs, and after"""
    def same(a, b):
        if a.shape != b.shape:
            return False
        if np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return True
        ok = np.isfinite(b) if b.dtype.kind in "fc" else np.array(True)
        return rtol > 0 and np.array_equal(np.isfinite(a), ok) and bool(np.all(np.abs(a - b)[ok] <= rtol * np.max(np.abs(b[ok]), initial=0.0)))

    def vals(r):
        return [np.array(v) for v in (r if isinstance(r, (tuple, list)) else [r])]

    ref = vals(f())
    g()
    for k in fracs:
        for name, got in ((f"{k:.3g} of the way", vals(interleaved(f, g, k))), ("before", vals(f()))):
            i = [j for j, (a, b) in enumerate(zip(got, ref)) if not same(a, b)]
            if len(got) != len(ref) or i:
                raise Violation(f"{what}: with another computation made {name}, results {i} become {[got[j].tolist() for j in i[:2]]} instead of {[ref[j].tolist() for j in i[:2]]}"[:1500])


def expect_raises(exc, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {e!r} instead of {exc}")
    raise Violation(f"{getattr(fn, '__name__', fn)} accepted invalid arguments {a} {k}, returned {r!r}")


# ----------------------------------------------------------------------------------------------
# dictionary of numeric literals of the code under test


def _mine():
    vals = set()
    for f in sorted(glob.glob(os.path.join(REPO, "aerokit", "**", "*.py"), recursive=True)):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(open(f, encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = float(n.value)
                if np.isfinite(v):
                    vals.add(v)
    return sorted(vals)


DICT = _mine()


def real(lo, hi, log=False, special=(), fn=None, inv=None):
    """floats of [lo, hi], mostly uniform (or log-uniform), with boundary values, special values
    and the numeric literals of the code under test (and their close neighbours)"""
    lo, hi = float(lo), float(hi)
    sp = [float(s) for s in special if lo <= float(s) <= hi]
    dic = [d for d in DICT if lo < d < hi]
    N = 1_000_000

    def uni(k, spread):
        # the generator favours small integers: multiples of the golden ratio fill the interval evenly whatever their size
        t = (k * 0.6180339887498949 + 0.5) % 1.0 if spread else k / N
        v = lo * (hi / lo) ** t if log else lo + (hi - lo) * t
        return min(max(v, lo), hi)

    ident = [1.0, 1.0 + 1e-9, 1.0 - 1e-9, 1.0 + 1e-4, 1.0 - 1e-4]

    @st.composite
    def s(draw):
        k = draw(st.integers(0, 99))
        if k < 10:
            return uni(draw(st.integers(0, N)), False)
        if k < 78 or not (sp or dic):
            return uni(draw(st.integers(0, N)), True)
        if k < 84:
            return draw(st.sampled_from([lo, hi]))
        if k < 92 and sp:
            return draw(st.sampled_from(sp))
        if dic:
            v = draw(st.sampled_from(dic)) * draw(st.sampled_from(ident))
            return min(max(v, lo), hi)
        return draw(st.sampled_from(sp))

    return s()


def gammas(lo=1.05, hi=1.67):
    return real(lo, hi, special=[1.4, 1.4, 1.4, 1.3, 5.0 / 3.0, 1.2, 1.1])


FORMS = ["scalar", "array", "np64", "size1", "2d", "column", "array", "strided", "3d", "reuse", "readonly", "long", "0d", "int"]


def forms():
    return st.sampled_from(FORMS)


GSTYLES = ["kw", "pos", "kw", "pos", "omit", "mix"]


def gstyles():
    return st.sampled_from(GSTYLES)


def ev(fn, xs, form="scalar", what=None, finite=True, **kw):
    """evaluate fn(x) for all xs in the given calling form; returns 1-D float array; checks shape and purity"""
    what = what or getattr(fn, "__name__", "function")
    xs = [float(x) for x in xs]
    n = len(xs)
    if form == "scalar":
        return np.array([flt(fn(x), what, finite) for x in xs])
    if form == "np64":
        return np.array([flt(fn(np.float64(x)), what, finite) for x in xs])
    if form == "0d":
        return np.array([flt(fn(np.array(x)), what, finite) for x in xs])
    if form == "size1":
        return np.array([flt(fn(np.array([x])), what, finite) for x in xs])
    a = np.array(xs)
    if form == "int":
        # whole numbers of the same size, as integers: same result as the same numbers as floats
        k = np.round(a)
        k = k[(k != 0) & (np.abs(k) < 1e4)]
        for q in ((k, float(k[0])) if k.size else ()):
            try:
                v = np.asarray(fn(q), dtype=float).reshape(-1)
            except Exception:
                continue  # not in the domain of the function
            j = int(q) if isinstance(q, float) else q.astype(int)
            d = np.copy(j)
            r = num(fn(j), what + f" of {j!r}", False).reshape(-1)
            if not np.array_equal(j, d):
                raise Violation(f"{what}: argument array was modified")
            if r.size != v.size or not np.array_equal(np.isfinite(r), np.isfinite(v)):
                raise Violation(f"{what} of {j!r} is {r.tolist()} instead of {v.tolist()} (same numbers as floats)")
            ok = np.isfinite(v)
            close(r[ok], v[ok], 1e-8, what + f" of {j!r} (same numbers as floats)", atol=1e-8)
    if form == "2d":
        a = np.stack([a, a[::-1]])
    elif form == "column":
        a = a.reshape(n, 1)
    elif form == "3d":
        a = a.reshape(1, n, 1)
    elif form == "long":
        a = np.resize(a, {1: 100, 2: 33, 3: 1030, 4: 300}.get(n, 130))
    elif form == "strided":
        a = np.repeat(a, 3)[::3]  # view of a larger array
    elif form == "readonly":
        a.flags.writeable = False
    b = a.copy()
    if form == "reuse":
        # same array object holding other values before, and its result kept: nothing may be remembered or shared
        a[:] = b[::-1]
        r0 = fn(a)
        c0 = np.array(r0, copy=True)
        a[:] = b
    r = num(fn(a), what, finite)
    if form == "reuse":
        if not np.array_equal(num(r0, what, False), num(c0, what, False), equal_nan=True):
            raise Violation(f"{what}: an earlier result was changed by a later call or by changing the argument array afterwards")
        v, w = num(c0, what, finite).reshape(-1)[::-1], r.reshape(-1)
        ok = np.isfinite(w) | finite
        if v.size == w.size:
            close(v[ok], w[ok], 1e-9, what + " (same array with values in other order)", atol=1e-12)
    if not np.array_equal(a, b):
        raise Violation(f"{what}: argument array was modified")
    if r.shape != a.shape and not (a.size == 1 and r.size == 1):
        raise Violation(f"{what}: result shape {r.shape} for argument shape {a.shape}")
    if form == "long":
        w = r.reshape(-1)
        v = np.resize(w[:n], w.size)
        ok = np.isfinite(w) | finite
        close(w[ok], v[ok], 1e-9, what + f" (values repeated in an array of {a.size})", atol=1e-12)
        return w[:n].copy()
    if form == "2d":
        if not finite and not np.array_equal(np.isnan(r[1, ::-1]), np.isnan(r[0])):
            raise Violation(f"{what}: undefined values depend on the order of the values: {r.tolist()}")
        ok = np.isfinite(r[0]) | finite
        close(r[1, ::-1][ok], r[0][ok], 1e-9, what + " (same values in other order)", atol=1e-12)
        return r[0].copy()
    return r.reshape(-1).copy()


# solvers written for one gas at a time (C21 tells which functions are elementwise)
ONE_GAMMA = {"Mn_Pt_ratio", "Mn_Pi_ratio", "weaksigma_Mach_deflection", "strongsigma_Mach_deflection", "sigma_Mach_deflection", "conical_deflection_Mach_sigma",
             "conical_sigma_Mach_walldeflection", "conical_Mach_walldeflection_sigma", "maxTiratio_Mach"}


def gcall(fn, g, gstyle):
    """fn(x) with gamma given positionally, by keyword, or omitted (then gamma must be 1.4)"""
    if gstyle == "omit":
        return lambda *x: fn(*x)
    if gstyle == "pos":
        return lambda *x: fn(*x, g)
    if gstyle == "mix" and getattr(fn, "__name__", "") not in ONE_GAMMA:
        def mixed(*x):
            """middle one of three values of gamma given together along a new axis"""
            d = max([np.ndim(v) for v in x])
            # angles may be out of range for a larger gamma
            k = (0.9, 1.0, 0.95 if fn.__name__ in ("Mach_PrandtlMeyer", "IsentropicPsratio_Mach_deflection") else 1.05)
            r = fn(*x, gamma=np.array([1.0 + q * (g - 1.0) if q != 1.0 else g for q in k]).reshape((3,) + (1,) * d))
            if np.shape(r)[:1] != (3,) or np.ndim(r) != d + 1:
                raise Violation(f"{fn.__name__}: shape {np.shape(r)} for arguments of shapes {[np.shape(v) for v in x]} and three values of gamma along a first axis")
            return r[1]
        return mixed
    return lambda *x: fn(*x, gamma=g)


def eff_gamma(case):
    return 1.4 if case.get("gs") == "omit" else case["g"]


# ----------------------------------------------------------------------------------------------
# context given to oracles


class Ctx:
    def __init__(self, prop, known):
        self.prop = prop
        self.known_ids = known
        self.known_hits = {}
        self.labels = {}
        self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self._lab.add(name)

    def trivial(self):
        self.nontrivial = False

    def known(self, kid, detail):
        """a violation which must be one of the listed findings of this property"""
        if kid not in self.known_ids:
            raise Violation(detail)
        self.known_hits.setdefault(kid, detail)

    def start(self):
        self._lab = set()
        self.nontrivial = True


def in_repo(tb):
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename) if os.path.exists(fr.filename) else fr.filename
        if f.startswith(REPO + os.sep) and not f.startswith(HERE + os.sep):
            return True
    return False


def _alarm(signum, frame):
    raise Hang()


def run_case(s, case, ctx):
    """runs the oracle; exceptions from the code under test become violations"""
    ctx.start()
    clear_out()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_SECONDS)
    try:
        s.run(case, ctx)
    except (Violation, OutOfDomain):
        raise
    except Hang:
        raise
    except ImportError as e:
        raise Violation(f"import failed: {e!r}")
    except (Exception, SystemExit) as e:
        if isinstance(e, hypothesis.errors.HypothesisException):
            raise
        tb = e.__traceback__
        if in_repo(tb):
            last = [f for f in traceback.extract_tb(tb)][-1]
            raise Violation(f"code under test raised {type(e).__name__}: {e} ({os.path.basename(last.filename)}:{last.name})")
        if isinstance(e, (AttributeError, TypeError, IndexError, KeyError, ValueError)):
            # never happens on the reference tree: what the code returned cannot even be read by the oracle
            raise Violation(f"result cannot be evaluated, {type(e).__name__}: {e} (oracle line {traceback.extract_tb(tb)[-1].lineno})")
        raise
    finally:
        signal.alarm(0)


# ----------------------------------------------------------------------------------------------
# execution of one subcheck (in a child process)

# Hypothesis follows every generated case by up to five variants of it with equal values copied around; useful, but done for
# every case it leaves one new draw out of six: keep these variants for one case out of five only
try:
    from hypothesis.internal.conjecture.engine import ConjectureRunner as _Runner

    _mutations = _Runner.generate_mutations_from

    def _some_mutations(self, data):
        if self.random.random() < 0.2:
            _mutations(self, data)

    _Runner.generate_mutations_from = _some_mutations
except (ImportError, AttributeError):
    pass


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_sub(s, seed, tier, known, corpus, outpath):
    """runs corpus cases then generated ones; writes a JSON result"""
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.stdout = OUT
    res = dict(name=s.name, evaluations=0, skipped=0, nontrivial=0, distinct=0, labels={}, samples=[],
               violation=None, error=None, known={}, wall=0.0, corpus=len(corpus))
    ctx = Ctx(s.prop, known)
    seen = set()
    state = {"failing": None}
    t0 = time.time()

    def one(case, generated=True):
        try:
            run_case(s, case, ctx)
        except OutOfDomain:
            if state["failing"] is None:
                res["evaluations"] += 1
                res["skipped"] += 1
            return
        except (Violation, Hang) as e:
            if state["failing"] is None:
                res["evaluations"] += 1
            hang = isinstance(e, Hang)
            msg = f"no answer within {HANG_SECONDS} s" if hang else str(e)
            state["failing"] = (case, msg)
            raise
        if state["failing"] is None:
            res["evaluations"] += 1
            for l in ctx._lab:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                res["nontrivial"] += 1
                k = case_key(case)
                if k not in seen:
                    seen.add(k)
                    if len(res["samples"]) < 2 and len(seen) in (3, 17):
                        res["samples"].append(case)

    try:
        for c in corpus:
            one(c, generated=False)
        n = s.thorough if tier == "thorough" else 4 * s.quick
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        subseed = zlib.crc32(f"{seed}/{s.prop}/{s.name}".encode())

        @hypothesis.seed(subseed)
        @settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                  print_blob=False, verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.given(s.strategy)
        def test(case):
            one(case)

        test()
    except (Violation, Hang):
        pass
    except hypothesis.errors.Flaky as e:
        if state["failing"] is None:
            res["error"] = "flaky harness: " + str(e)
    except BaseException as e:
        if state["failing"] is None or isinstance(e, KeyboardInterrupt):
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if state["failing"] is not None and res["error"] is None:
        case, msg = state["failing"]
        res["violation"] = dict(case=case, message=msg)
    res["distinct"] = len(seen)
    res["known"] = ctx.known_hits
    res["wall"] = time.time() - t0
    with open(outpath, "w") as f:
        json.dump(res, f)
    return res
