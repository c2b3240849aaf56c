"""C22, C29, C32, C34: degrees, real-gas functions, variable names, thrust function and expressions."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import (OutOfDomain, Violation, clear_out, close, eff_gamma, ev, expect_raises, flt, forms, gammas, gcall, gstyles, num, out_text,
                      real, require, rule, sub)
from pbt import phys

# ---------------------------------------------------------------------------------------------- C22
import aerokit.aero.degree as deg

rule("C22", "angles in +-1e4 deg (multiples of 15 included), arguments of inverse functions over their whole domain with end points, "
     "both signs and zeros for the two-argument arctangent, all calling forms.")
angle = real(-1e4, 1e4, special=[0.0]) | st.integers(-48, 48).map(lambda k: 15.0 * k) | real(-180.0, 180.0)
# small angles, and close to a multiple of 90 degrees on either side
tiny = real(1e-9, 1.0, log=True).flatmap(lambda e: st.sampled_from([e, -e]))
angle = angle | tiny | st.tuples(st.integers(-8, 8), tiny).map(lambda t: 90.0 * t[0] + t[1])


@sub("C22", "direct", st.fixed_dictionaries(dict(a=st.lists(angle, min_size=1, max_size=4), form=forms())), quick=600)
def c22_direct(c, x):
    a = np.array(c["a"])
    r = np.where(np.abs(a) < 180, a, a % 360.0) * (np.pi / 180)
    eps = 1e-14 * (1 + np.abs(a) / 10)
    close(ev(deg.sin, a, c["form"], "sin")[np.abs(a) < 1], np.sin(r)[np.abs(a) < 1], 1e-12, f"sine of small angles {a}", atol=1e-300)
    for n, f, ref, amp in (("sin", deg.sin, np.sin(r), 1 + 0 * a), ("cos", deg.cos, np.cos(r), 1 + 0 * a), ("tan", deg.tan, np.tan(r), 1 + np.tan(r) ** 2)):
        ok = amp * eps < 0.1 * (1 + np.abs(ref))
        v = ev(f, a, c["form"], n, finite=False)
        require((np.abs(v - ref) <= amp * eps)[ok], f"{n} of {a} deg is {v} instead of {ref}")


@sub("C22", "inverse", st.fixed_dictionaries(dict(v=st.lists(real(-1.0, 1.0, special=[0.0, 1.0, -1.0, 0.5, -0.5]), min_size=1, max_size=4) | st.lists(tiny, min_size=1, max_size=3), s=real(1e-12, 1e12, log=True) | real(1e-3, 1e3, log=True), form=forms())), quick=600)
def c22_inverse(c, x):
    v = np.array(c["v"])
    a = ev(deg.asin, v, c["form"], "asin")
    require(np.abs(a) <= 90, f"asin out of range {a}")
    close(np.sin(a * np.pi / 180), v, 0, f"sine of asin {v}", atol=1e-13)
    a = ev(deg.acos, v, c["form"], "acos")
    require((a >= 0) & (a <= 180), f"acos out of range {a}")
    close(np.cos(a * np.pi / 180), v, 0, f"cosine of acos {v}", atol=1e-13)
    close(ev(deg.asin, v, c["form"], "asin"), np.arcsin(v) * (180 / np.pi), 1e-12, f"asin {v}", atol=1e-300)
    t = v * c["s"]
    a = ev(deg.atan, t, c["form"], "atan")
    require(np.abs(a) <= 90, f"atan out of range {a}")
    close(np.sin(a * np.pi / 180), t / np.hypot(1, t), 0, f"atan {t}", atol=1e-13)
    close(np.cos(a * np.pi / 180), 1 / np.hypot(1, t), 0, f"atan {t}", atol=1e-13)
    k = np.abs(t) < 1
    close(a[k], np.arctan(t[k]) * (180 / np.pi), 1e-12, f"atan {t}", atol=1e-300)


comp = real(-10.0, 10.0, special=[0.0, 1.0, -1.0]) | real(1e-12, 1e12, log=True).flatmap(lambda r: st.sampled_from([r, -r]))


@sub("C22", "atan2", st.fixed_dictionaries(dict(yx=st.lists(st.tuples(comp, comp), min_size=1, max_size=4), form=st.sampled_from(["scalar", "array", "mixed", "long"]))), quick=600)
def c22_atan2(c, x):
    y, z = np.array(c["yx"]).T
    if c["form"] == "long":
        y, z = np.resize(y, 200), np.resize(z, 199 + len(z) % 2)[: 200]
        y = y[: len(z)]
    h = np.hypot(y, z)
    if c["form"] == "scalar":
        a = np.array([flt(deg.atan2(p, q), "atan2") for p, q in zip(y.tolist(), z.tolist())])
    elif c["form"] in ("array", "long"):
        a = num(deg.atan2(y, z), "atan2")
    else:
        z = np.full_like(z, z[0])
        h = np.hypot(y, z)
        a = num(deg.atan2(y, float(z[0])), "atan2")
    require(a.shape == y.shape, "atan2 shape")
    require(np.abs(a) <= 180, f"atan2 out of range {a}")
    k = h > 0
    close(np.sin(a * np.pi / 180)[k], (y[k] / h[k]), 0, f"sine of atan2({y},{z})", atol=1e-12)
    close(np.cos(a * np.pi / 180)[k], (z[k] / h[k]), 0, f"cosine of atan2({y},{z})", atol=1e-12)


# ---------------------------------------------------------------------------------------------- C29
import aerokit.aero.ThermoRealGas as air
import aerokit.aero.ThermoKerosen as ker

rule("C29", "T uniform and log-uniform in [30,3500] K with literals of the code; five-point derivatives, integrals between two temperatures.")
temp = real(150.0, 3000.0, special=[288.0, 288.15, 300.0, 1000.0]) | real(30.0, 3500.0, log=True)


def d5(f, T, h=0.5):
    return (f(T - 2 * h) - 8 * f(T - h) + 8 * f(T + h) - f(T + 2 * h)) / (12 * h)


@sub("C29", "derivatives", st.fixed_dictionaries(dict(T=temp, gas=st.sampled_from(["air", "kerosene"]))), quick=800)
def c29_der(c, x):
    m = air if c["gas"] == "air" else ker
    r = flt(air.rconst if c["gas"] == "air" else ker.r_air)
    T = c["T"]
    cp = flt(m.Cp(T), "Cp")
    require(cp > 0 or T > 3000, f"Cp {cp} of {c['gas']} at {T}")
    close(d5(m.Enthalpy, T), cp, 1e-5, f"dh/dT of {c['gas']} at {T}")
    close(d5(m.Phi, T), cp / (r * T * np.log(10)), 1e-5, f"dPhi/dT of {c['gas']} at {T}")
    if c["gas"] == "air":
        g = flt(m.Gamma(T), "gamma")
        close(g, cp / (cp - r), 1e-12, f"gamma of air at {T}")
        require(1.1 < g < 1.4 + 2e-3, f"gamma of air at {T} is {g}")
    else:
        close(d5(m.Pc_eff, T), -cp, 1e-5, f"d(heating value)/dT of kerosene at {T}")
        # lower heating value of kerosene fuels: 43.1 MJ/kg within 1%
        close(m.Pc_inf(), 43.1e6, 0.015, "heating value of kerosene")
        close(m.Pc_eff(288.15), 43.1e6, 0.03, "effective heating value of kerosene at 288.15 K")


@sub("C29", "integrals", st.fixed_dictionaries(dict(T1=temp, T2=temp, gas=st.sampled_from(["air", "kerosene"]))), quick=500)
def c29_int(c, x):
    m = air if c["gas"] == "air" else ker
    r = flt(air.rconst if c["gas"] == "air" else ker.r_air)
    a, b = c["T1"], c["T2"]
    X, W = np.polynomial.legendre.leggauss(40)
    T = 0.5 * (a + b) + 0.5 * (b - a) * X
    cp = np.array([flt(m.Cp(t)) for t in T])
    W = W * 0.5 * (b - a)
    close(m.Enthalpy(b) - m.Enthalpy(a), W @ cp, 1e-5, f"enthalpy difference of {c['gas']} between {a} and {b}", atol=1e-4)
    close(m.Phi(b) - m.Phi(a), W @ (cp / T) / (r * np.log(10)), 1e-5, f"entropy function difference of {c['gas']} between {a} and {b}", atol=1e-10)
    if c["gas"] == "kerosene":
        close(m.Pc_eff(b) - m.Pc_eff(a), -(W @ cp), 1e-5, f"heating value difference between {a} and {b}", atol=1e-4)


# ---------------------------------------------------------------------------------------------- C32
import contextlib
import copy
import io

with contextlib.redirect_stdout(io.StringIO()):
    import aerokit.common.dicovar as dv

rule("C32", "sequences of up to 14 operations: select (aliases in several spellings, unknown software), addVar, setVar, get/[]/call "
     "with exact, other-case and unknown names; reference model: tables read through the public interface at import of the check.")
# names documented in the module, which users rely on
DOC = {
    ("IC3", "ic3", "CharlesX", "cx", "charlesx"): {
        "P": "P", "p": "P", "Ps": "P", "rho": "RHO", "T": "T", "V": "U", "Vx": "U_X", "Vy": "U_Y", "Vz": "U_Z", "u_avg": "U_AVG",
        "rho_avg": "RHO_AVG", "tauw_avg": "TauWallAvg", "mulam_avg": "MU_LAM_AVG", "t_avg": "T_AVG", "u_rms": "U_RMS", "u_rey": "U_REY"},
    ("OpenFOAM", "of", "openfoam", "ofoam"): {
        "u_avg": "Uavg", "rho_avg": "rhoAVG", "tauw_avg": "???", "mulam_avg": "???", "t_avg": "???", "u_rms": "???", "u_rey": "???"},
}
# pristine tables, read through the public interface before any other operation
TABLES = []
for _names in DOC:
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            dv.setDicoVar(_names[0])
            TABLES.append((_names, {k: dv.dicoVar[k] for k in list(dv.dicoVar.keys())}))
        except Exception as _e:
            TABLES.append((_names, dict(DOC[_names])))
with contextlib.redirect_stdout(io.StringIO()):
    dv.setDicoVar("ic3")


@sub("C32", "tables", st.tuples(st.sampled_from([(i, a) for i, n in enumerate(DOC) for a in n]), st.sampled_from(["get", "item", "call"])), quick=40)
def c32_tables(c, x):
    (i, a), k = c
    n, t = list(DOC.items())[i]
    dv.setDicoVar(a)
    v = dv.dicoVar
    f = {"get": v.get, "item": v.__getitem__, "call": v}[k]
    for q in t:
        require(f(q) == t[q], f"{a}: {q} is {f(q)!r} instead of {t[q]!r}")


ALIASES = [a for t in TABLES for a in t[0]]
KEYS = sorted({k for t in TABLES for k in t[1]})
name = st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS).map(str.upper), st.sampled_from(KEYS).map(str.swapcase), st.sampled_from(KEYS).map(str.lower), st.sampled_from(["foo", "Foo", "FOO", "fOO", "bar", "BAR", "Bar", "u_max", "", "p0"]), st.sampled_from(KEYS + ["foo"]).flatmap(lambda k: st.sampled_from([" " + k, k + " ", "_" + k, k + "_", k[:-1]])))
value = st.sampled_from(["P", "X1", "x2", "U_AVG", "???", "rho"]) | st.text("aBx_ .-/0é", min_size=0, max_size=8)
op = st.one_of(
    st.tuples(st.just("select"), st.one_of(st.sampled_from(ALIASES), st.sampled_from(ALIASES), st.sampled_from(["hybrid", "ic4", "", "fluent"]))),
    st.tuples(st.just("add"), name, value),
    st.tuples(st.just("set"), name, value),
    st.tuples(st.sampled_from(["get", "item", "call"]), name),
    st.tuples(st.sampled_from(["get", "item", "call"]), name),
    st.tuples(st.just("keys")),
    st.tuples(st.just("beside"), st.sampled_from(ALIASES), name, value),
    st.tuples(st.just("print")),
)


@sub("C32", "histories", st.lists(op, min_size=1, max_size=14), quick=1500)
def c32(c, x):
    v = dv.dicoVar
    dv.setDicoVar("ic3")  # every case starts with the default table
    cur = copy.deepcopy(TABLES[0][1])
    soft = TABLES[0][0][0]
    for i, o in enumerate(c):
        w = f"operation {i} {o}"
        k = o[0]
        if k == "select":
            t = [t for t in TABLES if o[1].lower() in [a.lower() for a in t[0]]]
            if t:
                dv.setDicoVar(o[1])
                cur, soft = copy.deepcopy(t[0][1]), t[0][0][0]
            else:
                expect_raises(Exception, dv.setDicoVar, o[1])
                x.label("unknown software")
        elif k == "add":
            if o[1] in cur:
                expect_raises(Exception, v.addVar, o[1], o[2])
                x.label("add refused")
            else:
                v.addVar(o[1], o[2])
                cur[o[1]] = o[2]
        elif k == "set":
            if o[1] in cur:
                v.setVar(o[1], o[2])
                cur[o[1]] = o[2]
                x.label("changed")
            else:
                other = [q for q in cur if q.lower() == o[1].lower()]
                if other:
                    # other-case name: unknown to the table, must be refused without effect
                    x.label("set other case")
                expect_raises(Exception, v.setVar, o[1], o[2])
        elif k in ("get", "item", "call"):
            f = {"get": v.get, "item": v.__getitem__, "call": v}[k]
            if o[1] in cur:
                got = f(o[1])
                require(got == cur[o[1]], f"{w}: {got!r} instead of {cur[o[1]]!r}")
                x.label("lookup")
            else:
                cand = {cur[q] for q in cur if q.lower() == o[1].lower()}
                if len(cand) == 1:
                    got = f(o[1])
                    require(got in cand, f"{w}: {got!r} instead of {cand}")
                    x.label("lookup in other case")
                else:
                    expect_raises(Exception, f, o[1])
        elif k == "beside":  # another table in use at the same time
            b = type(v)(o[1])
            (b.setVar if o[2] in b.keys() else b.addVar)(o[2], o[3])
            require(b[o[2]] == o[3], f"{w}: {b[o[2]]!r} in a separate table")
            x.label("separate table")
        elif k == "print":
            clear_out()
            dv.printDicoVar()
            txt = out_text()
            for q in cur:
                require(any(q in l and str(cur[q]) in l for l in txt.splitlines()), f"{w}: {q} -> {cur[q]} is not printed")
        got = set(v.keys())
        require(got == set(cur), f"{w}: keys {got ^ set(cur)} differ")
        for q in cur:
            require(v[q] == cur[q], f"after {w}: {q} gives {v[q]!r} instead of {cur[q]!r}")
    x.label("two selections", sum(o[0] == "select" for o in c) > 1)


@sub("C32", "restored", st.lists(st.tuples(st.sampled_from(KEYS + ["foo"]), value), min_size=1, max_size=5), quick=200)
def c32_restored(c, x):
    """changes never leak in a later selection, whatever alias is used"""
    for t in TABLES:
        dv.setDicoVar(t[0][-1])
        for k, s in c:
            (dv.dicoVar.setVar if k in dv.dicoVar.keys() else dv.dicoVar.addVar)(k, s)
        for a in t[0]:
            dv.setDicoVar(a)
            require({k: dv.dicoVar[k] for k in dv.dicoVar.keys()} == t[1], f"table of {a} is not restored after changes {c}")


# ---------------------------------------------------------------------------------------------- C34
import aerokit.aero.Propulsion as prop
import aerokit.common.extendvar as xv

rule("C34", "M log-uniform in [1e-5,1e3], g in [1.01,3]; inverse on both sides (|M-1| from 1e-8) with any start on this side, near the root or default; "
     "flow samples: density, pressure over 6 decades, any velocity vector, names of the flow fields changed or not.")
pm = real(1e-3, 100.0, log=True, special=[1.0, 2.0, 0.5]) | real(1e-5, 1e3, log=True)


def thrust(M, g):
    return phys.sigma(M, g) / phys.pt(M, g) * (1 + g * M * M)


@sub("C34", "thrust", st.fixed_dictionaries(dict(M=st.lists(pm, min_size=1, max_size=4), g=gammas(1.1, 1.67) | gammas(1.01, 3.0), gs=gstyles(), form=forms())), quick=600)
def c34_thrust(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    f = gcall(prop.ThrustFunction, c["g"], c["gs"])
    F = ev(f, M, c["form"], "thrust function")
    close(F, thrust(M, g), 1e-9, f"thrust function M={c['M']} g={g}")
    F1 = flt(f(1.0))
    require(F >= F1 * (1 - 1e-10), f"thrust function below its value at M=1: M={c['M']} g={g}")


side_mach = st.booleans().flatmap(lambda up: real(1e-8, 20.0, log=True, special=[1.0]).map(lambda e: 1 + e) if up else
                                  real(1e-8, 0.999, log=True, special=[0.5]).map(lambda e: 1 - e))


@sub("C34", "inverse", st.fixed_dictionaries(dict(M=st.lists(side_mach, min_size=1, max_size=4), k=st.lists(real(0.0, 1.0), min_size=4, max_size=4), near=st.booleans(), arr=st.booleans(), g=gammas(1.05, 1.67) | gammas(1.01, 3.0),
                                                  gs=st.sampled_from(["kw", "omit"]), hs=st.sampled_from(["kw", "pos", "omit"]))), quick=600)
def c34_inverse(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    k = np.array(c["k"][:len(M)])
    # start close to the root, or anywhere on the same side
    h = M + (2 * k - 1) * 0.25 * np.abs(M - 1) if c["near"] else np.where(M > 1, 1.001 + 10.0 * k**2, 0.999 * k + 1e-4)
    kw = {} if c["gs"] == "omit" else dict(gamma=g)
    F = thrust(M, g)
    if c["hs"] == "omit":
        M, F, h = M[M > 1], F[M > 1], np.full(int(np.sum(M > 1)), 2.0)
        if not len(M):
            raise OutOfDomain
        f = lambda F, h: prop.Mach_ThrustFunction(F, **kw)
    else:
        f = (lambda F, h: prop.Mach_ThrustFunction(F, h, **kw)) if c["hs"] == "pos" else (lambda F, h: prop.Mach_ThrustFunction(F, Mach=h, **kw))
    if c["arr"]:
        F0, h0 = F.copy(), h.copy()
        m = num(f(F, h), "Mach from thrust function")
        require(m.shape == M.shape and np.array_equal(F, F0) and np.array_equal(h, h0), f"shape of Mach from thrust function {m}, or arguments modified")
    else:
        m = np.array([flt(f(float(a), float(b)), "Mach from thrust function") for a, b in zip(F, h)])
    w = f"M={M.tolist()} start={h.tolist()} g={g}"
    require(np.where(h > 1, m > 1 - 1e-6, m < 1 + 1e-6), f"Mach {m} from thrust function is not on the side of its start {w}")
    # round-off: thrust function has a minimum at M=1 and a limit for high Mach numbers
    require(np.abs(m - M) <= 1e-6 * np.maximum(M, 1.0) ** 3 + np.minimum(1e-14 / np.abs(M - 1), 1e-6), f"Mach from thrust function {m} {w}")
    x.label("start far from the root", bool(np.any(np.abs(h - M) > 0.5 * np.abs(M - 1))))


vel = real(-800.0, 800.0, special=[0.0, 100.0])


@sub("C34", "expressions", st.fixed_dictionaries(dict(rho=real(1e-3, 1e3, log=True), p=real(1e2, 1e8, log=True, special=[101325.0]), v=st.tuples(vel, vel, vel), alias=st.sampled_from(["ic3", "CharlesX", "cx", "of"]), rename=st.lists(st.tuples(st.sampled_from(["rho", "P", "V", "Vx", "Vy", "Vz", "p", "T", "new"]), st.integers(0, 9)), max_size=5), early=st.booleans())), quick=500)
def c34_expr(c, x):
    dv.setDicoVar(c["alias"])
    d = dv.dicoVar
    rho, p, v = c["rho"], c["p"], np.array(c["v"])
    if v[0] == 0.0:
        raise OutOfDomain
    before = {k: d[k] for k in d.keys()}
    try:
        if c["early"] and "P" in before:  # an earlier request does not fix the names
            xv.expressions_from_rhopv()["V"] = "lost"
        # names in use, changed or added by the user (a table without these names is completed)
        for k in ("rho", "P", "V", "Vx", "Vy", "Vz"):
            if k not in before:
                d.addVar(k, k + "_")
                before[k] = k + "_"
        for k, i in c["rename"]:
            new = f"{k}_rho_P_{i}" if i % 2 else f"{k}_{i}"  # names may contain other ones
            (d.setVar if k in before else d.addVar)(k, new)
            before[k] = new
        e = xv.expressions_from_rhopv()
        require({k: d[k] for k in d.keys()} == before, "name dictionary modified by expressions_from_rhopv")
    finally:
        dv.setDicoVar("ic3")
    env = {before["rho"]: rho, before["P"]: p, before["V"]: v, before["Vx"]: v[0], before["Vy"]: v[1], before["Vz"]: v[2],
           "mag": lambda q: float(np.sqrt(np.sum(np.square(q)))), "sqrt": np.sqrt, "ln": np.log, "atan": np.arctan, "acos": np.arccos}
    g, r = 1.4, 287.1
    a = np.sqrt(g * p / rho)
    V = float(np.sqrt(v @ v))
    ref = dict(Pt=p * phys.pt(V / a, g), T=p / rho / r, S=np.log(p) - g * np.log(rho), V=V, a=a, Mach=V / a, Mx=v[0] / a,
               alpha=np.degrees(np.arctan(v[1] / v[0])))
    for k, q in ref.items():
        require(k in e, f"expression {k} missing")
        s = e[k].replace("^", "**")
        try:
            val = eval(s, {"__builtins__": {}}, env)
        except Exception as ex:
            raise Violation(f"expression {k} = {e[k]} cannot be evaluated: {ex!r}")
        close(val, q, 1e-9, f"expression {k} = {e[k]} for {c}", atol=1e-9)
    for k in before:
        if k not in ref:
            require(e.get(k) == before[k], f"name of {k} is {e.get(k)} instead of {before[k]}")
    x.label("renamed", bool(c["rename"]))
