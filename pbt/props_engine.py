"""C30, C31: engine cycles."""
import re

import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, clear_out, close, flt, num, out_text, real, require, rule, sub, undisturbed
from pbt import phys

# ---------------------------------------------------------------------------------------------- C30
import aerokit.engine.gasgenerator as gg
import aerokit.engine.turbojet as tj
import aerokit.engine.turbofan as tf

rule("C30", "generated cycle parameters (defaults omitted at random, integers, up to two array parameters broadcast together), 1-4 flight conditions "
     "in sequence on one or two interleaved objects; feasible cycles only (positive fuel, turbine exit temperature, jet pressure); "
     "non-trivial: every generated feasible cycle, including ones whose turbojet nozzle is not primed (zero jet velocity).")

LOSS = real(0.7, 1.0, special=[1.0, 0.9, 0.95])
WLOSS = LOSS | LOSS | real(0.3, 1.0)
NAMES = dict(gam_cold=real(1.3, 1.45, special=[1.4]) | real(1.1, 1.67), gam_hot=real(1.25, 1.42, special=[1.33, 1.4]) | real(1.1, 1.67), r_cold=real(250.0, 330.0, special=[287.1]) | real(100.0, 500.0),
             r_hot=real(250.0, 330.0, special=[291.6]) | real(100.0, 500.0), xi_inlet=WLOSS, xi_nozzle=WLOSS, xi_cc=WLOSS, eta_cc=WLOSS, Pci=real(3e7, 1.2e8, special=[42.8e6]) | real(1e7, 2e8),
             etapolCHP=WLOSS, etapolTHP=WLOSS, etapolTBP=WLOSS, etapolfan=WLOSS, eta_shaft=WLOSS)
DEFAULT = dict(gam_cold=1.4, gam_hot=1.4, r_cold=287.1, r_hot=287.1, xi_inlet=1.0, xi_nozzle=1.0, xi_cc=1.0, eta_cc=1.0, Pci=42.8e6,
               etapolCHP=1.0, etapolTHP=1.0, etapolTBP=1.0, etapolfan=1.0, eta_shaft=1.0)
ONLY = dict(base=("etapolTBP", "etapolfan", "xi_nozzle"), jet=("etapolTBP", "etapolfan"), fan=())
ORDER = dict(base=["gam_cold", "gam_hot", "r_cold", "r_hot", "xi_inlet", "xi_cc", "eta_cc", "Pci", "etapolCHP", "etapolTHP", "eta_shaft"])
FLIGHT = st.fixed_dictionaries(dict(T0=real(200.0, 320.0, special=[288.0, 216.65]) | real(50.0, 500.0), P0=real(5e3, 1.1e5, special=[101325.0]) | real(1.0, 1e8, log=True),
                                    M0=real(0.0, 2.5, special=[0.0, 0.8, 1.0]) | real(0.0, 5.0) | real(1e-4, 1.0, log=True)))
ARRAYS = dict(base=["OPR", "Tt4"], jet=["OPR", "Tt4"], fan=["OPR", "Tt4", "bpr", "fpr"])


@st.composite
def cycles(draw):
    kind = draw(st.sampled_from(["base", "jet", "jet", "fan", "fan", "fan"]))
    names = [n for n in NAMES if n not in ONLY[kind]]
    style = draw(st.sampled_from(["all", "some", "defaults"]))
    given = names if style == "all" else [] if style == "defaults" else [n for n in names if draw(st.booleans())]
    c = dict(kind=kind, opt={n: draw(NAMES[n]) for n in given})
    for n, s in (("OPR", real(2.0, 60.0, log=True) | real(1.1, 200.0, log=True)), ("Tt4", real(1000.0, 2000.0) | real(600.0, 3000.0)), ("bpr", real(0.5, 12.0, special=[1.0]) | real(0.02, 100.0, log=True)),
                 ("fpr", real(0.05, 0.98, special=[0.5]) | real(1e-3, 0.999))):
        c[n] = draw(s)
    # parameters given as arrays: main ones, flight conditions, and any of the losses and gas properties given
    c["arr"] = draw(st.lists(st.sampled_from(ARRAYS[kind] * 2 + ["M0", "M0", "T0", "P0"] + given), max_size=2, unique=True)) if draw(st.booleans()) else []
    if draw(st.sampled_from([False, False, False, True])):  # samples: most parameters given as arrays of the same size
        names = ARRAYS[kind] + ["M0", "T0", "P0"] + given
        c["arr"] = draw(st.lists(st.sampled_from(names), min_size=min(3, len(names)), max_size=len(names), unique=True))
        c["seed"] = draw(st.integers(0, 10**6))
    c["long"] = draw(st.sampled_from([False, False, False, True]))
    c["ints"] = draw(st.sampled_from([False, False, False, True]))
    return c


FAC = np.array([1.0, 0.93, 0.87])


def arrayed(c, n, v):
    """parameter as an array, column for the first of two, samples if there are more"""
    if len(c["arr"]) > 2:
        rng = np.random.default_rng([c["seed"], sum(map(ord, n))])
        return v * rng.uniform(0.85 if n in MAIN else 0.975, 1.0, 40 if c["long"] else 5)
    w = v * (np.linspace(1.0, 0.87, 60) if c["long"] else FAC) if n in MAIN else v * (np.linspace(1.0, 0.98, 60) if c["long"] else SMALL)
    return w.reshape(-1, 1) if c["arr"].index(n) == 0 and len(c["arr"]) == 2 else w if len(c["arr"]) < 2 or not c["long"] else w[:7]


MAIN = ("OPR", "Tt4", "bpr", "fpr", "M0")
SMALL = np.array([1.0, 0.99, 0.975])


def options(c):
    return {n: arrayed(c, n, v) if n in c["arr"] else v for n, v in c["opt"].items()}


def params(c):
    """main parameters, arrays for those in c['arr'] (column for the first, row for the second)"""
    p = {n: c[n] for n in ("OPR", "Tt4", "bpr", "fpr")}
    if c["ints"]:
        p = {n: (v if n == "fpr" else int(round(v)) or 1) for n, v in p.items()}
    for n in c["arr"]:
        if n in p:
            p[n] = arrayed(c, n, p[n])
    return p


def flight(c, f):
    f = dict(f)
    if c["ints"]:
        f = dict(T0=int(round(f["T0"])), P0=int(round(f["P0"])), M0=int(round(f["M0"])))
    for n in c["arr"]:
        if n in f:
            f[n] = arrayed(c, n, f[n])
    return f


def build(c):
    p = params(c)
    if c["kind"] == "base":
        return gg.base(p["OPR"], p["Tt4"], **options(c))
    if c["kind"] == "jet":
        return tj.turbojet_opt(p["OPR"], p["Tt4"], **options(c))
    return tf.turbofan_adapt(p["OPR"], p["Tt4"], p["bpr"], p["fpr"], **options(c))


class Ref:
    """station values of the cycle from energy and entropy balances"""

    def __init__(s, c, f):
        p = params(c)
        o = dict(DEFAULT, **options(c))
        f = flight(c, f)
        s.p, s.o, s.f = p, o, f
        gc, gh, rc, rh = o["gam_cold"], o["gam_hot"], o["r_cold"], o["r_hot"]
        cc, ch = rc / (1 - 1 / gc), rh / (1 - 1 / gh)
        s.cc, s.ch, s.gc, s.gh = cc, ch, gc, gh
        M, T0, P0 = (np.asarray(f[n], dtype=float) for n in ("M0", "T0", "P0"))
        s.P0 = P0
        OPR, Tt4 = np.asarray(p["OPR"], float), np.asarray(p["Tt4"], float)
        s.V0 = M * np.sqrt(gc * rc * T0)
        s.Tt0 = T0 + s.V0**2 / (2 * cc)
        s.Pt0 = P0 * np.exp(cc / rc * np.log(s.Tt0 / T0))
        s.Tt2, s.Pt2 = s.Tt0, o["xi_inlet"] * s.Pt0
        s.Pt3 = OPR * s.Pt2
        s.Tt3 = s.Tt2 * np.exp(rc / cc / o["etapolCHP"] * np.log(OPR))
        s.Pt4 = o["xi_cc"] * s.Pt3
        s.Tt4 = Tt4
        s.far = (ch * Tt4 - cc * s.Tt3) / (o["eta_cc"] * o["Pci"] - ch * Tt4)
        if np.any(s.far < 1e-3):
            raise OutOfDomain()
        s.hc = cc * (s.Tt3 - s.Tt2)
        s.Tt45 = Tt4 - s.hc / (o["eta_shaft"] * ch * (1 + s.far))
        if np.any(s.Tt45 < 0.05 * Tt4):
            raise OutOfDomain()
        s.Pt45 = s.Pt4 * np.exp(ch / rh / o["etapolTHP"] * np.log(s.Tt45 / Tt4))

    def jet(s, Pt, Tt, g, c):
        """velocity squared after expansion to ambient pressure"""
        return 2 * c * Tt * -np.expm1(-(g - 1) / g * np.log(Pt / s.P0))


def attr(e, n, ref, rtol=1e-9, atol=0.0):
    if not hasattr(e, n):
        raise Violation(f"{type(e).__name__} has no {n} after update")
    close(getattr(e, n), ref, rtol, f"{type(e).__name__}.{n}", atol=atol)


def check(e, c, f, x):
    s = Ref(c, f)
    o, p = s.o, s.p
    k = c["kind"]
    for n in ("Tt0", "Pt0", "V0", "Tt2", "Pt2", "Tt3", "Pt3", "Pt4", "Tt4", "far", "Tt45", "Pt45"):
        attr(e, n, getattr(s, n), 1e-8)
    # balances on the values of the code itself
    far = num(e.far)
    Tt3, Tt4, Tt45, Tt2 = num(e.Tt3), num(e.Tt4), num(e.Tt45), num(e.Tt2)
    close(o["eta_cc"] * o["Pci"] * far, (1 + far) * s.ch * Tt4 - s.cc * Tt3, 1e-8, "combustor energy balance", atol=1e-8 * s.ch * float(np.max(Tt4)))
    close(o["eta_shaft"] * (1 + far) * s.ch * (Tt4 - Tt45), s.cc * (Tt3 - Tt2), 1e-8, "shaft power balance", atol=1e-8 * s.ch * float(np.max(Tt4)))
    q = far * o["Pci"]
    close(e.Wsp_cc(), q, 1e-9, "Wsp_cc")
    wid = (1 + s.far) * s.jet(s.Pt45, s.Tt45, s.gh, s.ch) / 2
    sc = 1e-8 * (1 + s.far) * s.ch * s.Tt45
    close(e.Wsp_TBP_ideal(), wid, 1e-8, "Wsp_TBP_ideal", atol=sc)
    P19 = 1.3 * s.P0
    close(e.Wsp_TBP_ideal(P19), (1 + s.far) * s.ch * s.Tt45 * -np.expm1(-(s.gh - 1) / s.gh * np.log(s.Pt45 / P19)), 1e-8, "Wsp_TBP_ideal(P19)", atol=sc)
    close(e.Wsp_TBP_ideal(P19=P19), e.Wsp_TBP_ideal(P19), 0, "Wsp_TBP_ideal(P19=)")
    if k == "base":
        close(e.thermal_efficiency(), wid / q, 1e-8, "gas generator thermal efficiency", atol=sc / q)
        return
    if k == "jet":
        Pt9 = np.maximum(s.Pt45 * o["xi_nozzle"], s.P0)
        x.label("nozzle not primed", np.any(s.Pt45 * o["xi_nozzle"] < s.P0))
        Tt9, bpr, V19 = s.Tt45, 0.0, 0.0
        x.label("turbojet")
    else:
        if np.any(s.Pt45 * o["xi_nozzle"] <= s.P0 * 1.001):
            raise OutOfDomain()
        bpr = np.asarray(p["bpr"], float)
        fpr = np.asarray(p["fpr"], float)
        # available turbine drop down to ambient pressure behind the nozzle losses
        drop = s.Tt45 * -np.expm1(-(s.gh - 1) / s.gh * o["etapolTBP"] * np.log(s.Pt45 * o["xi_nozzle"] / s.P0))
        Tt5 = s.Tt45 - fpr * drop
        Pt5 = s.Pt45 * np.exp(s.gh / (s.gh - 1) / o["etapolTBP"] * np.log(Tt5 / s.Tt45))
        Tt17 = s.Tt2 + o["eta_shaft"] * (1 + s.far) * s.ch * fpr * drop / (bpr * s.cc)
        Pt17 = s.Pt2 * np.exp(s.gc / (s.gc - 1) * o["etapolfan"] * np.log(Tt17 / s.Tt2))
        Pt9, Tt9 = Pt5 * o["xi_nozzle"], Tt5
        Pt19 = Pt17 * o["xi_nozzle"]
        if np.any(Pt19 <= s.P0 * 1.0001) or np.any(Pt9 <= s.P0 * 1.0000001):
            raise OutOfDomain()
        for n, v in (("Tt5", Tt5), ("Pt5", Pt5), ("Tt17", Tt17), ("Pt17", Pt17), ("Tt19", Tt17), ("Pt19", Pt19)):
            attr(e, n, v, 1e-8)
        # work taken from the low-pressure turbine pays for the fan
        close(num(e.bpr) * s.cc * (num(e.Tt17) - Tt2), o["eta_shaft"] * (1 + far) * s.ch * (Tt45 - num(e.Tt5)), 1e-7, "fan power balance", atol=1e-8 * s.ch * float(np.max(Tt4)))
        v2 = s.jet(Pt19, Tt17, s.gc, s.cc)
        close(num(e.V19) ** 2, v2, 1e-8, "V19^2", atol=1e-8 * s.cc * float(np.max(Tt17)))
        close(num(e.M19) ** 2, v2 / (s.gc * o["r_cold"] * (Tt17 - v2 / (2 * s.cc))), 1e-7, "M19^2", atol=1e-7)
        V19 = np.sqrt(v2)
        x.label("turbofan")
    attr(e, "Pt9", Pt9, 1e-8)
    v2 = s.jet(Pt9, Tt9, s.gh, s.ch)
    close(num(e.V9) ** 2, v2, 1e-8, "V9^2", atol=1e-8 * s.ch * float(np.max(Tt9)))
    close(num(e.M9) ** 2, v2 / (s.gh * o["r_hot"] * (Tt9 - v2 / (2 * s.ch))), 1e-7, "M9^2", atol=1e-7)
    V9, V0 = num(e.V9), num(e.V0)
    if k == "fan":
        V19 = num(e.V19)
    F = (1 + far) * V9 - V0 + bpr * (V19 - V0)
    K = 0.5 * ((1 + far) * V9**2 - V0**2 + bpr * (V19**2 - V0**2))
    vs = (1 + bpr) * (np.max(V9) + np.max(V0) + np.max(V19))
    ks = vs * (np.max(V9) + np.max(V0) + np.max(V19))
    close(e.norm_thrust(), F, 1e-9, "norm_thrust", atol=1e-9 * vs)
    close(e.spec_thrust(), F / (1 + bpr), 1e-9, "spec_thrust", atol=1e-9 * vs)
    close(e.Wsp_kinEn(), K, 1e-9, "Wsp_kinEn", atol=1e-9 * ks)
    close(e.thermal_efficiency(), K / q, 1e-9, "thermal_efficiency", atol=1e-9 * ks / q)
    close(e.thermoprop_efficiency(), F * V0 / q, 1e-9, "thermoprop_efficiency", atol=1e-9 * vs * np.max(V0) / q)
    if np.all(np.abs(K) > 1e-4 * ks):
        close(e.propulsive_efficiency(), F * V0 / K, 1e-5, "propulsive_efficiency", atol=1e-5)
        close(num(e.thermal_efficiency()) * num(e.propulsive_efficiency()), num(e.thermoprop_efficiency()), 1e-9, "overall efficiency is the product", atol=1e-12)
    if np.all(np.abs(F) > 1e-4 * vs):
        close(e.Sfc(), far / F, 1e-5, "Sfc")


@sub("C30", "cycle", st.fixed_dictionaries(dict(c=cycles(), f=FLIGHT)), quick=1500)
def c30_cycle(c, x):
    e = build(c["c"])
    f = flight(c["c"], c["f"])
    e.flight_conditions(**f)
    e.update()
    check(e, c["c"], c["f"], x)
    check(e, c["c"], c["f"], x)  # queries change nothing
    x.label("arrays", bool(c["c"]["arr"]))


@sub("C30", "history", st.fixed_dictionaries(dict(a=cycles(), b=cycles(), f=st.lists(st.tuples(st.sampled_from("ab"), FLIGHT, st.sampled_from(["all", "all", "nop", "twice"])), min_size=2, max_size=5))), quick=400)
def c30_history(c, x):
    es = {}
    ok = 0
    for k, f, how in c["f"]:
        if k not in es:
            es[k] = build(c[k])
        e = es[k]
        e.flight_conditions(**flight(c[k], f))
        e.update()
        if how == "twice":
            e.update()
        try:
            check(e, c[k], f, x)
            ok += 1
        except OutOfDomain:
            pass
    if not ok:
        raise OutOfDomain()
    x.label("two or more feasible evaluations", ok > 1)
    # earlier object still holds its own results
    for k in es:
        last = [f for q, f, _ in c["f"] if q == k][-1]
        try:
            check(es[k], c[k], last, x)
        except OutOfDomain:
            pass


@sub("C30", "defaults", st.fixed_dictionaries(dict(c=cycles(), omit=st.lists(st.sampled_from(["T0", "P0", "M0"]), min_size=1, unique=True), pos=st.booleans())), quick=200)
def c30_defaults(c, x):
    """flight condition arguments left out are T0=1, P0=1, M0=0; all given positionally in this order"""
    e = build(c["c"])
    f = dict(T0=250.0, P0=3e4, M0=0.5)
    if c["pos"]:
        e.flight_conditions(f["T0"], f["P0"], f["M0"])
    else:
        for n in c["omit"]:
            del f[n]
        e.flight_conditions(**f)
    e.update()
    full = dict(dict(T0=1.0, P0=1.0, M0=0.0), **f)
    b = dict(c["c"], ints=False, arr=[a for a in c["c"]["arr"] if a not in ("M0", "T0", "P0")])
    e2 = build(b)
    e2.flight_conditions(**full)
    e2.update()
    if b["arr"] == c["c"]["arr"] and not c["c"]["ints"]:
        for n in ("Tt0", "Pt0", "V0", "Pt4", "Tt3", "Pt2", "Tt2", "far"):
            close(getattr(e, n), getattr(e2, n), 1e-14, f"{n} with omitted flight conditions")
    g = dict(DEFAULT, **options(c["c"]))["gam_cold"] if "gam_cold" in c["c"]["opt"] else DEFAULT["gam_cold"]
    close(e.Tt0, full["T0"] * phys.tt(full["M0"], g), 1e-12, "Tt0")
    close(e.Pt0, full["P0"] * phys.pt(full["M0"], g), 1e-10, "Pt0")


# ---------------------------------------------------------------------------------------------- C31
import aerokit.engine.Cycle_Turbofan as ct
import aerokit.engine.propu_be as pb
import aerokit.engine.propu_be_double_corps as pd

rule("C31", "generated cycle parameters, efficiencies (class attributes and module constants) and gases; sequences of 0-14 stage calls in any order, "
     "then any completion; a case is counted non-trivial when the cycle is feasible (positive temperatures and jet pressures above ambient).")

CONST = dict(P0=real(1e4, 1.1e5, special=[22700.0]) | real(1.0, 1e7, log=True), T0=real(200.0, 320.0, special=[217.0]) | real(60.0, 500.0), M0=real(0.05, 1.6, special=[0.8]) | real(0.01, 4.0, log=True),
             **{n: WLOSS for n in ("xi_e", "eta_c", "eta_f", "eta_comb", "xi_cc", "eta_m", "eta_turb", "xi_tuy")})
CDEF = dict(P0=22700.0, T0=217.0, M0=0.8, xi_e=0.97, eta_c=0.90, eta_f=0.89, eta_comb=0.99, xi_cc=0.95, eta_m=0.98, eta_turb=0.88, xi_tuy=0.97)
GAS = dict(gamma=real(1.3, 1.45, special=[1.4]) | real(1.1, 1.67), r=real(270.0, 310.0, special=[287.0]) | real(100.0, 500.0), gammaf=real(1.25, 1.4, special=[1.33]) | real(1.1, 1.67),
           rf=real(270.0, 310.0, special=[291.6]) | real(100.0, 500.0), Pk=real(3.5e7, 6e7, special=[4.28e7]) | real(1e7, 1.5e8))
GDEF = dict(gamma=1.4, r=287.0, gammaf=1.33, rf=291.6, Pk=42800e3)


@st.composite
def turbofans(draw):
    model = draw(st.sampled_from(["fixe", "calcule"]))
    c = dict(model=model, lam=draw(real(0.5, 12.0, special=[6.1]) | real(0.02, 60.0, log=True)), pic=draw(real(4.0, 50.0, log=True, special=[32.8]) | real(1.2, 150.0, log=True)),
             Tt4=draw(real(1200.0, 2000.0, special=[1410.0]) | real(600.0, 3000.0)), m=draw(real(10.0, 500.0, log=True, special=[180.0]) | real(1e-2, 1e4, log=True)))
    c["x"] = draw(real(1.15, 2.2, special=[1.6]) | real(1.01, 6.0) if model == "fixe" else real(0.15, 0.9, special=[0.5]) | real(0.005, 0.99) | st.sampled_from([0.0, 1.0]))
    c["const"] = {n: draw(s) for n, s in CONST.items() if draw(st.booleans())} if draw(st.booleans()) else {}
    c["gas"] = {n: draw(s) for n, s in GAS.items()} if draw(st.booleans()) else {}
    return c


def direct(c):
    """end-to-end calculation of the written cycle, from energy/entropy balances"""
    k = dict(CDEF, **c["const"])
    g = dict(GDEF, **c["gas"])
    ga, r, gf, rf, Pk = (g[n] for n in ("gamma", "r", "gammaf", "rf", "Pk"))
    cp, cf = r / (1 - 1 / ga), rf / (1 - 1 / gf)
    v = {}
    v["V0"] = k["M0"] * np.sqrt(ga * r * k["T0"])
    v["Tt0"] = k["T0"] + v["V0"] ** 2 / 2 / cp
    v["Pt0"] = k["P0"] * (v["Tt0"] / k["T0"]) ** (cp / r)
    v["Tt2"], v["Pt2"] = v["Tt0"], k["xi_e"] * v["Pt0"]
    mc = v["m_c"] = c["m"] / (1 + c["lam"])
    mf = c["m"] - mc
    v["Tt3"] = v["Tt2"] * np.exp(r / cp / k["eta_c"] * np.log(c["pic"]))
    v["Pt3"] = c["pic"] * v["Pt2"]
    v["wu_c"] = mc * cp * (v["Tt3"] - v["Tt2"])
    al = v["alpha"] = (cf * c["Tt4"] - cp * v["Tt3"]) / (k["eta_comb"] * Pk - cf * c["Tt4"])
    v["m_k"] = al * mc
    v["Pt4"] = k["xi_cc"] * v["Pt3"]
    v["m_f"] = mf
    if al < 2e-3:
        raise OutOfDomain()
    mh = mc * (1 + al) * cf
    tp = cf / rf / k["eta_turb"]
    if c["model"] == "fixe":
        v["Pt13"] = c["x"] * v["Pt2"]
        v["Tt13"] = v["Tt2"] * np.exp(r / cp / k["eta_f"] * np.log(c["x"]))
        wf = v["wu_f"] = mf * cp * (v["Tt13"] - v["Tt2"])
        v["Tt5"] = c["Tt4"] - (wf + v["wu_c"]) / (mh * k["eta_m"])
        if v["Tt5"] < 0.1 * c["Tt4"]:
            raise OutOfDomain()
        v["pi_t"] = (c["Tt4"] / v["Tt5"]) ** tp
        v["Pt5"] = v["Pt4"] / v["pi_t"]
    else:
        v["Tt4_etoile"] = c["Tt4"] - v["wu_c"] / (mh * k["eta_m"])
        if v["Tt4_etoile"] < 0.1 * c["Tt4"]:
            raise OutOfDomain()
        v["pi_t_c"] = (c["Tt4"] / v["Tt4_etoile"]) ** tp
        v["Pt4_etoile"] = v["Pt4"] / v["pi_t_c"]
        if v["Pt4_etoile"] < 1.02 * k["P0"]:
            raise OutOfDomain()
        is5 = v["Tt4_etoile"] * (k["P0"] / v["Pt4_etoile"]) ** (rf / cf)
        v["wu_fan"] = -c["x"] * mh * (v["Tt4_etoile"] - is5)
        v["Tt5"] = v["Tt4_etoile"] - c["x"] * (v["Tt4_etoile"] - is5)
        v["pi_t_f"] = (v["Tt4_etoile"] / v["Tt5"]) ** tp
        v["Pt5"] = v["Pt4_etoile"] / v["pi_t_f"]
        v["Tt13"] = v["Tt2"] + k["eta_m"] * -v["wu_fan"] / (mf * cp)
        v["pi_f"] = (v["Tt13"] / v["Tt2"]) ** (k["eta_f"] * cp / r)
        v["Pt13"] = v["pi_f"] * v["Pt2"]
    v["Tt9"], v["Pt9"], v["P9"] = v["Tt5"], v["Pt5"] * k["xi_tuy"], k["P0"]
    v["Tt19"], v["Pt19"], v["P19"] = v["Tt13"], v["Pt13"] * k["xi_tuy"], k["P0"]
    if min(v["Pt9"], v["Pt19"]) < 1.005 * k["P0"]:
        raise OutOfDomain()
    for n, gg_, c_ in (("9", gf, cf), ("19", ga, cp)):
        Ts = v["Tt" + n] * (k["P0"] / v["Pt" + n]) ** (1 - 1 / gg_)
        v["V" + n] = np.sqrt(2 * c_ * (v["Tt" + n] - Ts))
        v["M" + n] = np.sqrt(2 / (gg_ - 1) * (v["Tt" + n] / Ts - 1))
    v["F_c"] = mc * (v["V9"] - v["V0"])
    v["F_f"] = mf * (v["V19"] - v["V0"])
    F = v["F"] = v["F_c"] + v["F_f"]
    v["F_spe"] = F / c["m"]
    dE = 0.5 * (mc * ((1 + al) * v["V9"] ** 2 - v["V0"] ** 2) + mf * (v["V19"] ** 2 - v["V0"] ** 2))
    if abs(F) < 5 * c["m"] or dE < 1e3 * c["m"]:
        raise OutOfDomain()
    v["mk_spe"] = v["m_k"] / F * 1e6
    v["eta_th"] = dE / (Pk * v["m_k"])
    v["eta_prop"] = F * v["V0"] / dE
    v["eta"] = v["eta_th"] * v["eta_prop"]
    return v


SCALE = dict(F_c="m_c", F_f="m_f")


def make(c, cls=None):
    g = dict(GDEF, **c["gas"])
    if c["gas"]:
        ga, gf = ct.Gaz(g["gamma"], g["r"]), ct.Gaz(g["gammaf"], g["rf"], g["Pk"])
    else:
        ga, gf = ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.0e3)
    close(ga.get_cp(), g["r"] / (1 - 1 / g["gamma"]), 1e-12, "specific heat")
    base = ct.cycle_taux_fan_fixe if c["model"] == "fixe" else ct.cycle_taux_fan_calcule
    if c["const"]:
        base = type("cycle_generated", (base,), dict(c["const"]))
    return base(c["lam"], c["pic"], c["Tt4"], c["m"], ga, gf, c["x"])


ATTRS = {}  # outputs of each stage
ATTRS["fixe"] = dict(InitialValues=["Pt0", "Tt0", "V0"], stage_2=["Tt2", "Pt2"], stage_3=["m_c", "Tt3", "Pt3", "wu_c"], stage_4=["m_k", "alpha", "Pt4"],
                     stage_13=["m_f", "Tt13", "Pt13", "wu_f"], stage_19=["Pt19", "Tt19", "P19", "M19", "V19", "F_f"], stage_5=["Tt5", "pi_t", "Pt5"],
                     stage_9=["Tt9", "Pt9", "P9", "M9", "V9", "F_c"], perfo=["F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"])
ATTRS["calcule"] = dict(ATTRS["fixe"], stage_4_etoile=["Tt4_etoile", "pi_t_c", "Pt4_etoile"], stage_5=["wu_fan", "Tt5", "pi_t_f", "Pt5"], stage_13=["m_f", "Tt13", "pi_f", "Pt13"])
NEEDS = dict(stage_2=["InitialValues"], stage_3=["stage_2"], stage_4=["stage_3"], stage_9=["stage_5"], stage_19=["stage_13"], perfo=["stage_9", "stage_19"])
DEPS = dict(fixe=dict(NEEDS, stage_13=["stage_2"], stage_5=["stage_4", "stage_13"]), calcule=dict(NEEDS, stage_4_etoile=["stage_4"], stage_5=["stage_4_etoile"], stage_13=["stage_5"]))
CALLS = dict(fixe=["stage_13", "stage_19", "stage_5", "stage_9", "perfo", "calculs_5_to_9", "show_perfo", "stage_2", "stage_3", "stage_4", "calculs_1_to_4", "InitialValues"],
             calcule=["stage_4_etoile", "stage_5", "stage_9", "stage_13", "stage_19", "perfo", "calculs_5_to_9", "show_perfo", "stage_2", "stage_3", "stage_4", "calculs_1_to_4", "InitialValues"])
ORDERED = dict(fixe=["InitialValues", "stage_2", "stage_3", "stage_4", "stage_13", "stage_19", "stage_5", "stage_9", "perfo"],
               calcule=["InitialValues", "stage_2", "stage_3", "stage_4", "stage_4_etoile", "stage_5", "stage_9", "stage_13", "stage_19", "perfo"])


def present(e, names):
    d = vars(e)
    return [n for n in names if n in d]


def agree(e, ref, c, what, complete=False):
    d = vars(e)
    for n, v in ref.items():
        if n in d:
            tol = 1e-7 * abs(ref["m_c" if n == "F_c" else "m_f"]) * 1e3 if n in ("F_c", "F_f") else 0.0
            rt = 1e-5 if n in ("mk_spe", "eta", "eta_prop", "eta_th", "F", "F_spe") else 1e-8
            close(d[n], v, rt, f"{what}: {n}", atol=tol)
        elif complete:
            raise Violation(f"{what}: {n} missing after all stages")


@st.composite
def histories(draw):
    c = draw(turbofans())
    calls = CALLS[c["model"]]
    # mostly later stages; earlier ones (which rewind the cycle) now and then
    w = [n for n in calls for _ in range(1 if n in ("InitialValues", "stage_2", "stage_3", "stage_4", "calculs_1_to_4") else 4)]
    return dict(c=c, calls=draw(st.lists(st.sampled_from(w), max_size=14)), end=draw(st.sampled_from(["group", "ordered", "random", "none"])), perm=draw(st.integers(0, 10**6)))


@sub("C31", "stages", histories(), quick=900)
def c31_stages(c, x):
    q = c["c"]
    ref = direct(q)
    e = make(q)
    model = q["model"]
    outs, deps = ATTRS[model], DEPS[model]
    agree(e, ref, q, "after construction")
    for s in ("InitialValues", "stage_2", "stage_3", "stage_4"):
        require(len(present(e, outs[s])) == len(outs[s]), f"constructor did not run {s}")
    rewound = False
    stale = set()  # stages which follow one which was done again

    def after(name):
        return set().union(*[{s} | after(s) for s, d in deps.items() if name in d])

    def call(name, strict):
        """strict: no part of the cycle is being restarted"""
        before = dict(vars(e))
        ready = {s: len(present(e, o)) == len(o) for s, o in outs.items()}
        clear_out()
        getattr(e, name)()
        agree(e, ref, q, f"after {name}")
        for s, o in outs.items():
            new = [n for n in o if n in vars(e) and n not in before]
            if new and name == s:
                require(all(ready[k] for k in deps.get(s, [])), f"{s} took effect before its inputs: new {new}")
            if new and name in outs and name != s:
                raise Violation(f"{name} produced {new} of {s}")
            if name in outs and name != s:
                ch = [n for n in o if n in before and n in vars(e) and not np.array_equal(before[n], vars(e)[n])]
                require(not ch, f"{name} changed {ch}")
        if strict and name in outs and all(ready[k] and k not in stale for k in deps.get(name, [])):
            require(len(present(e, outs[name])) == len(outs[name]), f"{name} had no effect although its inputs were available")
            stale.discard(name)
        if name in outs and ready[name]:
            stale.update(after(name))

    for name in c["calls"]:
        if name in ("InitialValues",):
            rewound = True
        call(name, strict=not rewound)
    x.label("rewound", rewound)
    if c["end"] == "none":
        return
    if c["end"] == "group":
        e.calculs_1_to_4()
        e.calculs_5_to_9()
    elif c["end"] == "ordered":
        for s in ORDERED[model]:
            call(s, strict=False)
    else:
        rng = np.random.RandomState(c["perm"])
        names = ORDERED[model][1:]
        for _ in range(len(names)):
            for s in rng.permutation(names):
                call(str(s), strict=False)
        call("calculs_5_to_9", strict=False)  # fan stages redone in the random order may have held back the last ones
    agree(e, ref, q, "completed", complete=True)
    # repetition of a completed calculation changes nothing
    snap = {n: vars(e)[n] for n in ref}
    clear_out()
    e.show_perfo()
    txt = out_text()
    vals = [float(re.findall(r"-?\d+(?:\.\d+)?", l.split(":")[-1])[0]) for l in txt.splitlines() if re.search(r"\d", l.split(":")[-1])]
    want = [ref[n] for n in ("F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta")]
    require(len(vals) == 6, f"show_perfo printed {txt!r} for a completed cycle")
    for n, a, b, t in zip(("F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"), vals, want, (0.5, 0.005, 0.005, 5e-4, 5e-4, 5e-4)):
        close(a, b, 1e-5, f"show_perfo {n}", atol=t * 1.01)
    for _ in range(2):
        e.calculs_1_to_4()
        clear_out()
        e.show_perfo()
        require(out_text() == txt, f"repeating the first part of a completed calculation: show_perfo prints {out_text()!r}")
        e.calculs_5_to_9()
        for n, v in snap.items():
            require(vars(e)[n] == v, f"repeating the completed calculation changed {n} from {v} to {vars(e)[n]}")
    # so does any core stage called once more
    core = [n for n in ORDERED[model] if n in ("stage_2", "stage_3", "stage_4", "stage_4_etoile", "stage_5", "stage_9")]
    for k in np.random.RandomState(c["perm"]).randint(0, len(core), 4):
        getattr(e, core[k])()
        clear_out()
        e.show_perfo()
        require(out_text() == txt, f"calling {core[k]} again on a completed cycle: show_perfo prints {out_text()!r}")
    for n, v in snap.items():
        require(vars(e)[n] == v, f"calling core stages again on a completed cycle changed {n} from {v} to {vars(e)[n]}")
    x.label(model)
    x.label("ends " + c["end"])


@sub("C31", "rerun", st.fixed_dictionaries(dict(c=turbofans(), d=turbofans(), k=st.integers(0, 10), perm=st.integers(0, 10**6), group=st.booleans())), quick=500)
def c31_rerun(c, x):
    """flight conditions changed on the object, all stages run again, in any order which follows their dependencies: results of the new conditions; other objects are not affected"""
    q, d = c["c"], c["d"]
    ref = direct(q)
    rd = direct(d)
    e = make(q)
    o = make(d)
    e.calculs_5_to_9()
    for s in ORDERED[d["model"]][1:][: c["k"]]:
        getattr(o, s)()
    agree(e, ref, q, "first cycle", complete=True)
    q2 = dict(q, const=dict(q["const"], **{n: d["const"][n] for n in ("P0", "T0", "M0") if n in d["const"]} if d["const"] else dict(M0=0.05 + 0.01 * (c["perm"] % 150), T0=230.0)))
    ref2 = direct(q2)
    for n, v in q2["const"].items():
        setattr(e, n, v)
    rng = np.random.RandomState(c["perm"])
    left, order = list(ORDERED[q["model"]]), []
    while left:
        able = [s for s in left if not set(DEPS[q["model"]].get(s, [])) & set(left)]
        s = able[rng.randint(len(able))]
        if c["perm"] % 4 == 0:
            s = able[0]
        left.remove(s)
        order.append(s)
    done = {n: ref2[n] for n in ("m_c", "m_f")}
    if c["group"]:  # the group calls complete what has been started
        order = order[: 1 + c["k"]]
        x.label("completed by group calls")
    for s in order:
        getattr(e, s)()
        done.update((n, ref2[n]) for n in ATTRS[q["model"]][s])
        agree(e, done, q2, f"after {s} with new flight conditions (order {order})", complete=True)
    if c["group"]:
        e.calculs_1_to_4()
        e.calculs_5_to_9()
    agree(e, ref2, q2, f"cycle run again (stages {order}, group calls: {c['group']}) with new flight conditions", complete=True)
    o.calculs_1_to_4()
    o.calculs_5_to_9()
    agree(o, rd, d, "other cycle", complete=True)
    x.label("new conditions", q2["const"] != q["const"])


class patched:
    """module constants of the direct calculations set to the generated values"""

    def __init__(s, mod, c):
        g = dict(GDEF, **c["gas"])
        s.mod = mod
        s.new = dict(dict(CDEF, **c["const"]), P_k=g["Pk"], r=g["r"], r_=g["rf"], gamma=g["gamma"], gamma_=g["gammaf"])
        if not c["const"]:
            s.new = {n: v for n, v in s.new.items() if n not in CDEF}
        if not c["gas"]:
            s.new = {n: v for n, v in s.new.items() if n in CDEF}
        if not c["const"] and not c["gas"]:
            s.new = {}

    def __enter__(s):
        s.old = {n: getattr(s.mod, n) for n in s.new}
        for n, v in s.new.items():
            setattr(s.mod, n, v)

    def __exit__(s, *a):
        for n, v in s.old.items():
            setattr(s.mod, n, v)


NUM = r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?"


@sub("C31", "direct", turbofans(), quick=600)
def c31_direct(c, x):
    ref = direct(c)
    clear_out()
    if c["model"] == "fixe":
        with patched(pb, c):
            pb.calculs(c["lam"], c["pic"], c["Tt4"], c["x"], c["m"])
        txt = out_text()
        bare = [float(l) for l in txt.splitlines() if re.fullmatch(NUM, l.strip())]
        for n, v in zip(("wu_c", "wu_f", "Tt5"), bare):
            close(v, ref[n], 1e-8, f"printed {n}")
        require(len(bare) == 3, f"direct calculation printed {txt!r}")
        for lab, n, t in (("F", "F", 0.5), ("Fspe", "F_spe", 0.5), ("conso spe", "mk_spe", 1e-9), ("eta_th", "eta_th", 5e-4), ("eta_prop", "eta_prop", 5e-4), ("eta", "eta", 5e-4)):
            m = re.search(rf"^{lab}\s*=\s*({NUM})", txt, re.M)
            require(m, f"direct calculation did not print {lab}: {txt!r}")
            close(float(m.group(1)), ref[n], 1e-6, f"direct calculation {lab}", atol=1.01 * t)
    else:
        with patched(pd, c):
            r = pd.calculs(c["lam"], c["pic"], c["Tt4"], c["m"], c["x"])
        require(len(r) == 6, f"direct calculation returned {r!r}")
        for n, v in zip(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f"), r):
            close(v, ref[n], 1e-6, f"direct calculation {n}")
    # staged cycle agrees too
    e = make(c)
    e.calculs_5_to_9()
    agree(e, ref, c, "staged cycle", complete=True)
    x.label(c["model"])
    x.label("default constants", not c["const"] and not c["gas"])


@sub("C31", "arrays", st.fixed_dictionaries(dict(c=turbofans(), which=st.sampled_from(["lam", "pic", "Tt4", "m", "x"]) | st.lists(st.sampled_from(["lam", "pic", "Tt4", "m", "x"]), min_size=2, max_size=5, unique=True), k=st.lists(real(0.93, 1.07), min_size=1, max_size=4))), quick=400)
def c31_arrays(c, x):
    """sweeps: arrays of parameters give, element by element, the results of the scalar calculation"""
    names = [c["which"]] if isinstance(c["which"], str) else c["which"]
    base = c["c"]
    k = np.array(c["k"] + [1.0])
    hi = 0.99 if base["model"] == "calcule" else np.inf
    alls = {n: np.minimum(base[n] * k, hi) if n == "x" else base[n] * k for n in names}
    refs = []
    for i in range(len(k)):
        refs.append(direct(dict(base, **{n: float(v[i]) for n, v in alls.items()})))
    arr = dict(base, **alls)
    if base["model"] == "calcule":
        with patched(pd, base):
            r = pd.calculs(arr["lam"], arr["pic"], arr["Tt4"], arr["m"], arr["x"])
        require(len(r) == 6, f"direct calculation returned {r!r}")
        for n, v in zip(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f"), r):
            close(np.broadcast_to(num(v, n), k.shape), np.array([q[n] for q in refs]), 1e-6, f"direct calculation {n} for arrays of {names}")
    e = make(arr)
    e.calculs_5_to_9()
    ref = {n: np.array([q[n] for q in refs]) for n in refs[0]}
    d = vars(e)
    for n, v in ref.items():
        require(n in d, f"{n} missing after all stages")
        tol = 1e-7 * np.abs(ref["m_c" if n == "F_c" else "m_f"]) * 1e3 if n in ("F_c", "F_f") else 0.0
        close(np.broadcast_to(num(d[n], n), k.shape), v, 1e-5 if n in ("mk_spe", "eta", "eta_prop", "eta_th", "F", "F_spe") else 1e-8, f"staged cycle for arrays of {names}: {n}", atol=tol)
    x.label(base["model"])
    x.label("several arrays", len(names) > 1)


@sub("C31", "optimum", st.fixed_dictionaries(dict(lam=real(0.5, 12.0), pic=real(4.0, 50.0, log=True), Tt4=real(1200.0, 2000.0), m=real(10.0, 500.0), M0=real(0.05, 1.6), T0=real(200.0, 320.0), P0=real(1e4, 1.1e5),
                                                  ga=real(1.3, 1.42), cold=real(270.0, 310.0))), quick=300)
def c31_optimum(c, x):
    """ideal cycle (no loss, same gas everywhere, no fuel mass): the optimum fan temperature ratio gives equal jet velocities"""
    q = dict(const=dict({n: 1.0 for n in CDEF}, M0=c["M0"], T0=c["T0"], P0=c["P0"]), gas=dict(gamma=c["ga"], r=c["cold"], gammaf=c["ga"], rf=c["cold"], Pk=1e14))
    cp = c["cold"] / (1 - 1 / c["ga"])
    clear_out()
    Tt2 = c["T0"] * phys.tt(c["M0"], c["ga"])
    Tt3 = Tt2 * np.exp((c["ga"] - 1) / c["ga"] * np.log(c["pic"]))
    if Tt3 > 0.8 * c["Tt4"]:
        raise OutOfDomain()
    # energy left to both jets, split equally: specific kinetic energy of both streams, once the compression is paid
    k9 = cp * (c["Tt4"] - (Tt3 - Tt2)) - cp * c["Tt4"] * c["T0"] / Tt3
    k19 = cp * (Tt2 - c["T0"])
    k = (k9 + c["lam"] * k19) / (1 + c["lam"])
    tau = (k + cp * c["T0"]) / (cp * Tt2)
    if tau <= 1.01 or k <= 0:
        raise OutOfDomain()
    with patched(pd, q):
        pd.calculs_tau_optimum(c["lam"], c["pic"], c["Tt4"], c["m"])
    txt = out_text()
    v = [float(l) for l in txt.splitlines() if re.fullmatch(NUM, l.strip())]
    require(len(v) == 5, f"optimum calculation printed {txt!r}")
    close(v[0], tau, 1e-9, "optimum fan temperature ratio (equal jet velocities)")
    close(v[4], tau * Tt2, 1e-9, "fan exit temperature")


# ---------------------------------------------------------------------------------------------- two computations at the same time
AT = st.lists(real(0.0, 1.0), min_size=1, max_size=3)


def held(e):
    d = vars(e)
    return [d[n] for n in sorted(d) if isinstance(d[n], (int, float, np.number, np.ndarray))]


@sub("C30", "interleaved", st.fixed_dictionaries(dict(a=cycles(), b=cycles(), f=st.lists(FLIGHT, min_size=2, max_size=2), at=AT)), quick=250)
def c30_interleaved(c, x):
    """a cycle is evaluated the same way when another one is while it runs"""
    def job(q, f):
        def run():
            e = build(q)
            e.flight_conditions(**flight(q, f))
            e.update()
            return held(e) + ([e.norm_thrust(), e.spec_thrust()] if q["kind"] == "fan" else [])
        return run

    undisturbed(job(c["a"], c["f"][0]), job(c["b"], c["f"][1]), c["at"], f"{c['a']['kind']} cycle while a {c['b']['kind']} one is evaluated")
    x.label("same kind", c["a"]["kind"] == c["b"]["kind"])


@sub("C31", "interleaved", st.fixed_dictionaries(dict(a=turbofans(), b=turbofans(), at=AT)), quick=250)
def c31_interleaved(c, x):
    def job(q):
        direct(q)

        def run():
            e = make(q)
            e.calculs_5_to_9()
            r = pd.calculs(q["lam"], q["pic"], q["Tt4"], q["m"], q["x"]) if q["model"] == "calcule" else ()
            return held(e) + list(r)
        return run

    undisturbed(job(c["a"]), job(c["b"]), c["at"], f"{c['a']['model']} cycle while a {c['b']['model']} one is evaluated")
