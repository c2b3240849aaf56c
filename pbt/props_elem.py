"""C21: elementwise evaluation, purity, legacy names."""
import importlib
import os
import sys

import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, close, flt, gammas, num, real, require, rule, sub, undisturbed

import aerokit.aero.CompressibleFlow as cf
import aerokit.aero.degree as deg
import aerokit.aero.Fanno as fa
import aerokit.aero.Isentropic as Is
import aerokit.aero.MassFlow as mf
import aerokit.aero.Propulsion as pr
import aerokit.aero.Rayleigh as ra
import aerokit.aero.ShockWave as sw
import aerokit.aero.Supersonic as su
from aerokit.common import defaultgas as defg

rule("C21", "every public function of the table with generated values, argument shapes (scalar, 0-d, vector, column, 2-d, 3-d, empty) broadcast against each "
     "other and against gamma, scalar types int/np.int64/np.int32/np.float32/np.float64/0-d/integer arrays; sequences of 2-8 calls for purity.")

# kinds of arguments: (lo, hi)
K = dict(mach=(0.02, 40.0), sup=(1.0, 40.0), obl=(1.0001, 40.0), hsup=(2.5, 20.0), msup=(2.5, 6.0), tt=(1.0, 100.0), pt=(1.0, 1e4), temp=(50.0, 4000.0), r=(10.0, 4500.0), area=(1.001, 500.0), om=(0.5, 75.0),
         prat=(1.0, 1500.0), ptr=(0.1, 0.95), beta=(25.0, 90.0), psmall=(1.1, 6.0), dev=(0.5, 9.0), defl=(-15.0, 9.0), trat=(0.67, 0.98), angle=(-400.0, 400.0), unit=(-1.0, 1.0), any=(-5.0, 5.0),
         ise=(0.7, 3.0), hint=(0.05, 1.95), thr=(1.31, 1.5), pmmu=(-85.0, 35.0))
SKEW = {"mach", "sup", "obl", "hsup", "tt", "pt", "temp", "r", "area", "prat"}  # more small values than large ones
INTS = dict(mach=[1, 2, 3, 5], sup=[2, 3, 4], obl=[2, 3, 4], hsup=[3, 4, 5], msup=[3, 4, 5], tt=[2, 3, 5], pt=[2, 5, 60], temp=[100, 288, 1000], r=[287, 200], area=[2, 3, 10], om=[1, 5, 30], prat=[2, 3, 20], beta=[40, 60, 80], psmall=[2, 4],
            dev=[1, 5, 9], defl=[-10, 5, 1], angle=[0, 30, 90, -45], unit=[0, 1, -1], any=[1, -3, 2], ise=[1, 2], pmmu=[-60, 0, 20], hint=[0, 1, 2])
EXACT, ITER = 1e-11, 1e-6
T = {}


def t(mod, names, args, tol=EXACT, g=True):
    for n in names.split():
        T[f"{mod.__name__.split('.')[-1]}.{n}"] = (mod, n, args.split(), tol, g)


t(Is, "TtTs_Mach PtPs_Mach", "mach")
t(Is, "Mach_TtTs", "tt")
t(Is, "Mach_PtPs", "pt")
t(mf, "Sigma_Mach", "mach")
t(mf, "MachSub_Sigma MachSup_Sigma", "area", ITER)
t(mf, "Mach_Sigma", "area hint", ITER)
t(su, "PrandtlMeyer_Mach", "sup")
t(su, "Mach_PMFmmu", "pmmu")
t(su, "Mach_PrandtlMeyer", "om", ITER)
t(su, "deflection_Mach_IsentropicPsratio", "msup ise")
t(su, "IsentropicPsratio_Mach_deflection", "msup defl", ITER)
t(sw, "Ps_ratio Rho_ratio Ts_ratio downstream_Mn Pt_ratio", "sup")
t(sw, "Mn_Ps_ratio", "prat")
t(sw, "deflection_Mach_sigma", "hsup beta")
t(sw, "deflection_Mach_ShockPsratio downstreamMach_Mach_ShockPsratio", "hsup psmall")
t(sw, "dev_Max dev_Sonic sigma_DevMax sigma_Sonic", "obl", 1e-7)
t(fa, "maxFparam_Mach Ps_Pscri Ts_Tscri Rho_Rhocri Pi_Picri V_Vcri NormdS", "mach")
t(ra, "maxTiratio_Mach Ps_Pscri Ts_Tscri Ti_Ticri Rho_Rhocri Pi_Picri V_Vcri NormdS", "mach")
t(ra, "SubMach_TiTicri SupMach_TiTicri", "trat", 1e-9)
t(pr, "ThrustFunction", "mach")
t(pr, "Mach_ThrustFunction", "thr hint", 1e-8)
t(deg, "cos sin tan", "angle", g=False)
t(deg, "acos asin", "unit", g=False)
t(deg, "atan", "any", g=False)
t(deg, "atan2", "any any", g=False)
# gas constant and gamma: keyword arguments
R = {"Isentropic.Velocity_MachTt": (Is, "Velocity_MachTt", ["mach", "temp"]), "MassFlow.WeightMassFlow": (mf, "WeightMassFlow", ["mach"])}
for k, (m, n, a) in R.items():
    T[k] = (m, n, a + ["r"], EXACT, True)
ONE_R = {"MassFlow.WeightMassFlow"}  # dimensionless: the gas constant has no effect on it, hence not on its shape either
NAMES = sorted(T)
ITERATIVE = {k for k, v in T.items() if v[3] != EXACT}

frac = real(0.0, 1.0)
SHAPES = ["scalar", "scalar", "0d", "vec", "vec", "col", "2d", "row2", "3d", "size1", "empty", "long", "longcol"]


def caller(name, gs="pos"):
    m, n, args, tol, g = T[name]
    f = getattr(m, n)
    if not g:
        return lambda *x: f(*x)
    if gs == "pos":
        return lambda *x: f(*x)
    if gs == "kw" and name in R:
        return lambda *x: f(*x[:-2], r=x[-2], gamma=x[-1])
    return lambda *x: f(*x[:-1], gamma=x[-1])


def shaped(kind, fr, sh, gamma=False):
    lo, hi = K[kind] if not gamma else (1.05, 1.67)
    fr = np.array(fr)
    v = lo + (hi - lo) * (fr**3 if kind in SKEW and not gamma else fr)
    n = {"vec": (3,), "col": (2, 1), "2d": (2, 3), "row2": (1, 3), "3d": (2, 2, 1), "size1": (1,), "empty": (0,), "long": (150,), "longcol": (70, 1)}
    if sh == "scalar":
        return float(v[0])
    if sh == "0d":
        return np.array(v[0])
    return np.resize(v, n[sh]).copy()


@sub("C21", "broadcast", st.fixed_dictionaries(dict(f=st.sampled_from(NAMES), fr=st.lists(st.lists(frac, min_size=3, max_size=6), min_size=4, max_size=4),
                                                    sh=st.lists(st.sampled_from(SHAPES), min_size=4, max_size=4), gsh=st.sampled_from(["scalar", "scalar", "0d", "vec", "col", "2d"]), gs=st.sampled_from(["pos", "kw"]),
                                                    f32=st.booleans(), order=st.sampled_from("CF"))), quick=2500)
def c21_broadcast(c, x):
    name = c["f"]
    m, n, kinds, tol, g = T[name]
    f = caller(name, c["gs"])
    a = [shaped(k, fr, sh) for k, fr, sh in zip(kinds, c["fr"], c["sh"])]
    if name in ONE_R:
        a[-1] = float(np.reshape(shaped("r", c["fr"][2], "scalar"), -1)[0])
    if g:
        # gamma of maxTiratio_Mach has no effect: finding rayleigh-max-gamma, reported under C11
        a.append(shaped(None, c["fr"][3], "scalar" if name == "Rayleigh.maxTiratio_Mach" else c["gsh"], gamma=True))
    try:
        shape = np.broadcast_shapes(*[np.shape(v) for v in a])
    except ValueError:
        raise OutOfDomain()
    if 0 in shape and (name in ITERATIVE or name in ("deflection_Mach_ShockPsratio",)):
        raise OutOfDomain()
    if name in ITERATIVE and g and np.shape(a[-1]) != () and name not in BROADCAST_ITER:
        a[-1] = float(np.reshape(a[-1], -1)[0])
        shape = np.broadcast_shapes(*[np.shape(v) for v in a])
    a = [np.asarray(v, order=c["order"]) if isinstance(v, np.ndarray) and v.ndim else v for v in a]
    before = [np.array(v, copy=True) for v in a]
    r = f(*a)
    v = num(r, name)
    for p, q in zip(a, before):
        require(np.array_equal(p, q), f"{name} modified an argument: {q} became {p}")
    if v.size != 1 or int(np.prod(shape)) != 1:
        require(v.shape == shape, f"{name}: shape {v.shape} for arguments of shapes {[np.shape(p) for p in a]}")
    b = np.broadcast_arrays(*[np.asarray(p, float) for p in a])
    memo = {}

    def scal(q):
        if q not in memo:
            r = f(*q)
            require(np.ndim(r) == 0, f"{name} of numbers {q} is not a number: {r!r}")
            memo[q] = flt(r, name)
        return memo[q]

    ref = np.array([scal(tuple(float(p.reshape(-1)[i]) for p in b)) for i in range(int(np.prod(shape)))]).reshape(shape)
    close(v.reshape(shape), ref, tol, f"{name} of arguments of shapes {[np.shape(p) for p in a]} (scalar calls)", atol=tol)
    x.label("two shapes broadcast", len({np.shape(p) for p in a if np.shape(p) != ()}) > 1)
    x.label("array gamma", bool(g and np.shape(a[-1]) != ()))
    # the result belongs to the caller
    if isinstance(r, np.ndarray) and r.size and r.flags.writeable:
        r2 = r.copy()
        r[...] = -777.0
        require(all(np.array_equal(p, q) for p, q in zip(a, before)), f"{name}: result shares memory with an argument")
        w = num(f(*a), name)
        require(np.array_equal(w, r2), f"{name}: overwriting a result changed the next one")


BROADCAST_ITER = set(ITERATIVE)


TYPES = ["int", "np.int64", "np.int32", "np.float32", "np.float64", "0d", "0dint", "intarray", "intcolumn"]


@sub("C21", "types", st.fixed_dictionaries(dict(f=st.sampled_from([n for n in NAMES if all(k in INTS for k in T[n][2])]), ty=st.sampled_from(TYPES), i=st.lists(st.integers(0, 3), min_size=3, max_size=3), g=gammas(1.1),
                                                gty=st.sampled_from(["float", "np.float64", "np.float32", "0d", "int"]), gs=st.sampled_from(["pos", "kw"]))), quick=1500)
def c21_types(c, x):
    name = c["f"]
    m, n, kinds, tol, g = T[name]
    f = caller(name, c["gs"])
    vals = [INTS[k][i % len(INTS[k])] for k, i in zip(kinds, c["i"])]
    gam = c["g"]
    if c["gty"] == "int":
        gam = 2  # shallow-water-like gas
        if name in ("Supersonic.Mach_PrandtlMeyer", "Supersonic.IsentropicPsratio_Mach_deflection", "ShockWave.deflection_Mach_sigma") or name in ITERATIVE:
            gam = 1.4
    if c["gty"] == "np.float32":
        gam = float(np.float32(gam))
    conv = dict([("int", int), ("np.int64", np.int64), ("np.int32", np.int32), ("np.float32", np.float32), ("np.float64", np.float64), ("0d", lambda v: np.array(float(v))), ("0dint", lambda v: np.array(v)),
                 ("intarray", lambda v: np.array([v, v])), ("intcolumn", lambda v: np.array([[v], [v]]))])
    gconv = {"float": float, "np.float64": np.float64, "np.float32": np.float32, "0d": np.array, "int": lambda v: int(v) if v == 2 else v}
    if name == "ShockWave.Mn_Ps_ratio" and min(vals) < 1:
        raise OutOfDomain()
    a = [conv[c["ty"]](v) for v in vals] + ([gconv[c["gty"]](gam)] if g else [])
    ref = flt(f(*([float(v) for v in vals] + ([float(gam)] if g else []))), name, finite=False)
    if not np.isfinite(ref):
        raise OutOfDomain()
    v = num(f(*a), name)
    single = c["ty"] == "np.float32" or (g and c["gty"] == "np.float32")
    # single precision: absolute and relative accuracy of the type, amplified by the exponents of the relations
    tol = 2e-4 if single else max(tol, EXACT)
    sc = {"tan": 1 + ref * ref}.get(n, 1.0)
    close(v, ref, tol, f"{name}{tuple(vals)} gamma={gam} with types {c['ty']}, {c['gty']} (float call)", atol=(1e-3 * sc if single else 1e-11 * sc) if name not in ITERATIVE else 2e-3 if single else 1e-7)
    x.label(c["ty"])


@sub("C21", "sequence", st.fixed_dictionaries(dict(calls=st.lists(st.fixed_dictionaries(dict(f=st.sampled_from(NAMES), fr=st.lists(st.lists(frac, min_size=3, max_size=3), min_size=3, max_size=3), sh=st.sampled_from(["scalar", "vec"]), g=gammas(1.1), omit=st.booleans())), min_size=2, max_size=8),
                                                   idx=st.lists(st.integers(0, 7), min_size=2, max_size=10) | st.lists(st.integers(0, 7), min_size=10, max_size=40))), quick=500)
def c21_sequence(c, x):
    """a call returns the same bits whatever was called in between"""
    def go(q):
        name = q["f"]
        m, n, kinds, tol, g = T[name]
        a = [shaped(k, fr, q["sh"]) for k, fr in zip(kinds, q["fr"])]
        if q["omit"] or not g:
            return np.array(num(getattr(m, n)(*a), name))
        return np.array(num(caller(name)(*a, q["g"]), name))

    calls = c["calls"]
    first = {}
    for i in list(range(len(calls))) + [j % len(calls) for j in c["idx"]]:
        v = go(calls[i])
        if i in first:
            require(np.array_equal(v, first[i]), f"{calls[i]['f']} gave {first[i]} then {v} for the same arguments")
        else:
            first[i] = v
    x.label("repeated", True)


# what other computations may not change
def environment():
    return dict(gamma=defg.gamma(), r=defg.r_ideal(), errors=dict(np.geterr()), printing=np.get_printoptions(), directory=os.getcwd(), recursion=sys.getrecursionlimit())


pair = st.fixed_dictionaries(dict(f=st.sampled_from(NAMES), fr=st.lists(st.lists(frac, min_size=3, max_size=3), min_size=4, max_size=4), sh=st.sampled_from(["scalar", "vec"]), g=gammas(1.1)))


@sub("C21", "interleaved", st.fixed_dictionaries(dict(a=pair, b=pair, same=st.booleans(), at=st.lists(real(0.0, 1.0), min_size=1, max_size=3))), quick=900)
def c21_interleaved(c, x):
    """a call gives the same bits when another one is made while it runs (as from another thread)"""
    def job(q, name):
        m, n, kinds, tol, g = T[name]
        a = [shaped(k, fr, q["sh"]) for k, fr in zip(kinds, q["fr"])]
        return lambda: num(caller(name)(*a, *([q["g"]] if g else [])), name)

    a = c["a"]["f"]
    b = a if c["same"] else c["b"]["f"]
    undisturbed(job(c["a"], a), job(c["b"], b), c["at"], f"{a} {c['a']['fr']} while {b} is called")
    x.label("same function", c["same"])


@sub("C21", "refused", st.fixed_dictionaries(dict(a=pair, b=pair, bad=st.sampled_from(["shapes", "text", "none", "few", "many", "gamma"]), err=st.sampled_from(["ignore", "warn"]))), quick=600)
def c21_refused(c, x):
    """a call which fails, or not, leaves numpy, the default gas and later calls as they were"""
    name = c["a"]["f"]
    m, n, kinds, tol, g = T[name]
    f = getattr(m, n)
    good = [shaped(k, fr, c["a"]["sh"]) for k, fr in zip(kinds, c["a"]["fr"])]
    gam = [c["a"]["g"]] if g else []
    was = np.seterr(all=c["err"])
    before = environment()
    first = num(caller(name)(*good, *gam), name)
    bad = [np.array(v) for v in good]
    if c["bad"] == "shapes":
        bad = [np.resize(v, 2 + i) for i, v in enumerate(bad)] + [np.full(7, v) for v in gam]
        gam = []
    elif c["bad"] in ("text", "none"):
        bad[-1] = "Mach" if c["bad"] == "text" else None
    elif c["bad"] == "few":
        bad = bad[1:]
        gam = []
    elif c["bad"] == "many":
        bad = bad + [1.0] * 6
    else:
        gam = ["gamma"]
    q = c["b"]
    try:
        f(*bad, *gam)
        x.label("accepted")
    except Exception:
        x.label("raised")
    finally:
        after = environment()
        now = [defg.gamma(), defg.r_ideal()]
        defg.set_gamma(before["gamma"])
        defg.set_r_ideal(before["r"])
        np.seterr(**was)
    for k in before:
        require(str(after[k]) == str(before[k]), f"after {name}{tuple(bad + gam)}: {k} is {after[k]} instead of {before[k]}")
    v = num(caller(name)(*good, *([c["a"]["g"]] if g else [])), name)
    require(np.array_equal(v, first), f"{name} gave {first}, then {v} after a call with unusable arguments")
    x.label(c["bad"])


# legacy name -> current function, argument kinds
LEG = {}
for a, b, k in (("TiTs_Mach", "TtTs_Mach", "mach"), ("PiPs_Mach", "PtPs_Mach", "mach"), ("Mach_PiPs", "Mach_PtPs", "pt"), ("Mach_TiTs", "Mach_TtTs", "tt"), ("Velocity_MachTi", "Velocity_MachTt", "mach temp r")):
    LEG["Isentropic." + a] = (Is, a, Is, b, k.split())
for a, b, k in (("Pi_ratio", "Pt_ratio", "sup"), ("Mn_Pi_ratio", "Mn_Pt_ratio", "ptr")):
    LEG["ShockWave." + a] = (sw, a, sw, b, k.split())
for a, m, b, k in (("TtTs_Mach", Is, 0, "mach"), ("PtPs_Mach", Is, 0, "mach"), ("Mach_TtTs", Is, 0, "tt"), ("Mach_PtPs", Is, 0, "pt"), ("Velocity_MachTi", Is, "Velocity_MachTt", "mach temp r"), ("PrandtlMeyer_Mach", su, 0, "sup"),
                   ("Mach_PrandtlMeyer", su, 0, "om"), ("deflection_Mach_IsentropicPsratio", su, 0, "msup ise"), ("IsentropicPsratio_Mach_deflection", su, 0, "msup defl"), ("WeightMassFlow", mf, 0, "mach r"),
                   ("Sigma_Mach", mf, 0, "mach"), ("Mach_Sigma", mf, 0, "area hint")):
    LEG["CompressibleFlow." + a] = (cf, a, m, b or a, k.split())
LEG["Supersonic.old_Mach_PrandtlMeyer"] = (su, "old_Mach_PrandtlMeyer", su, "Mach_PrandtlMeyer", ["om"])
PNAME = dict(mach="Mach", sup="Mach", hsup="Mach", msup="Mach", r="r")


@sub("C21", "legacy", st.fixed_dictionaries(dict(f=st.sampled_from(sorted(LEG) + ["CompressibleFlow.Mach_Sigma"] * 2), fr=st.lists(st.lists(frac, min_size=3, max_size=3), min_size=3, max_size=3), sh=st.sampled_from(["scalar", "vec", "col"]), g=gammas(1.1), style=st.sampled_from(["pos", "kw", "omit", "bare"]))), quick=1500)
def c21_legacy(c, x):
    lm, ln, m, n, kinds = LEG[c["f"]]
    a = [shaped(k, fr, c["sh"]) for k, fr in zip(kinds, c["fr"])]
    if c["f"].endswith("Mach_Sigma"):
        a[1] = float(np.reshape(a[1], -1)[0])  # branch selector
        if abs(a[1] - 1) < 1e-6:
            raise OutOfDomain()
    if c["f"].endswith("Mn_Pi_ratio"):  # scalar solver
        a[0] = float(np.reshape(a[0], -1)[0])
    if ln.startswith("old"):  # fixed start: not for the smallest and largest angles
        a[0] = np.clip(a[0], 8.0, 60.0)
    if kinds[-1] == "r":
        a[-1] = float(np.reshape(a[-1], -1)[0])
    f, ref = getattr(lm, ln), getattr(m, n)
    if c["style"] == "pos":
        u, v = f(*a, c["g"]), ref(*a, c["g"])
    elif c["style"] == "kw":
        u, v = f(*a, gamma=c["g"]), ref(*a, gamma=c["g"])
    elif c["style"] == "omit":
        u, v = f(*a), ref(*a)
    elif kinds[-1] == "r":
        u, v = f(*a[:-1]), ref(*a[:-1])
    elif ln == "Mach_Sigma":
        u, v = f(a[0]), ref(a[0])
    else:
        u, v = f(*a, gamma=np.float64(c["g"])), ref(*a, c["g"])
    u, v = num(u, c["f"]), num(v, n)
    require(u.shape == v.shape, f"{c['f']}: shape {u.shape} instead of {v.shape}")
    close(u, v, 1e-4 if ln.startswith("old") else 1e-12, f"{c['f']} and {n}")
    x.label(c["style"])


@sub("C21", "modules", st.fixed_dictionaries(dict(m=st.sampled_from(["nozzle", "riemann"]), s=real(1.05, 10.0), n=real(1.01, 60.0, log=True), g=gammas(1.1), rho=real(0.1, 10.0), u=real(-0.5, 0.5), p=real(0.2, 10.0, log=True))), quick=150)
def c21_modules(c, x):
    leg = importlib.import_module("aerokit.aero." + c["m"])
    cur = importlib.import_module("aerokit.instance." + c["m"])
    for k, v in vars(cur).items():
        if callable(v) and getattr(v, "__module__", None) == cur.__name__ and not k.startswith("_"):
            require(hasattr(leg, k), f"aero.{c['m']} lacks {k}")
    if c["m"] == "nozzle":
        for k in ("NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit"):
            close(getattr(leg, k)(c["s"]), num(getattr(cur, k)(c["s"])), 0, f"aero.nozzle.{k}")
        for k in ("Ms_from_AsAc_NPR", "Madapt_from_AsAc_NPR"):
            close(getattr(leg, k)(c["s"], c["n"]), num(getattr(cur, k)(c["s"], c["n"])), 0, f"aero.nozzle.{k}")
        X = np.linspace(0, 1, 9)
        A = 1 + (X - 0.4) ** 2 * c["s"]
        a, b = leg.nozzle(X, A, gamma=c["g"], NPR=c["n"]), cur.nozzle(X, A, gamma=c["g"], NPR=c["n"])
        for k in ("Mach", "Ps", "Ptot"):
            close(getattr(a, k)(), num(getattr(b, k)()), 0, f"aero.nozzle.nozzle {k}")
    else:
        import aerokit.aero.unsteady1D as uq

        L, Rr = uq.unsteady_state(c["rho"], c["u"], c["p"], c["g"]), uq.unsteady_state(1.0, 0.0, 1.0, c["g"])
        try:
            b = cur.riemann_pb(L, Rr)
        except Exception:
            raise OutOfDomain()
        a = leg.riemann_pb(L, Rr)
        for k in ("ustar", "pstar", "left_fastest", "right_fastest"):
            close(getattr(a, k)(), num(getattr(b, k)()), 0, f"aero.riemann.riemann_pb {k}")
