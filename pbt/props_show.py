"""C35: what objects print and what parametric studies draw."""
import io
import re
import sys

import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, clear_out, close, flt, gammas, num, out_text, real, require, rule, sub
from pbt import phys, props_engine as pe, props_misc as pm, props_stab as ps_

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import aerokit.aero.model1D as m1
import aerokit.aero.unsteady1D as uq
import aerokit.instance.riemann as riem
import aerokit.instance.unsteady_inflow as inflow
import aerokit.engine.propu_be_double_corps as pd

rule("C35", "states (scalar or short arrays) after random chains of transforms, solved Riemann and inflow problems, partly and fully computed engine cycles with generated "
     "parameters, random name-table histories, random spectra and windows, random sweep ranges of the parametric study; printed text and drawn curves are parsed back and compared with "
     "the attributes, public results and the reference cycle of C31.")

FL = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def triples(txt, what):
    """{label: [three arrays]} of lines `label : (a, b, c)`"""
    res = {}
    for m in re.finditer(r"\(rho, u, p\)\*?(?:_([LR]))?\s*:\s*\(([^()]*)\)", txt):
        lab = (m.group(1) or "") + ("*" if ")*" in m.group(0) else "")
        parts = [[float(v) for v in re.findall(FL, t)] for t in m.group(2).split(",")]
        require(len(parts) == 3 and all(parts), f"{what}: cannot read three values from {m.group(0)!r}")
        require(lab not in res, f"{what}: label {lab!r} printed twice in {txt!r}")
        res[lab] = parts
    return res


def shown(txt, want, what):
    """each state of want is printed under its own label; arrays are printed with 8 digits by numpy"""
    t = triples(txt, what)
    require(set(t) == set(want), f"{what}: states {sorted(t)} printed instead of {sorted(want)}: {txt!r}")
    for lab, q in want.items():
        for n, v, r in zip(("rho", "u", "p"), t[lab], q):
            r = np.atleast_1d(np.asarray(r, dtype=float))
            require(len(v) == r.size, f"{what}: {n}{lab} printed as {v} instead of {r}")
            arr = r.size > 1 or np.ndim(q[0]) > 0
            close(np.array(v), r, 2e-7 if arr else 1e-12, f"{what}: printed {n} {lab}", atol=1e-8 + 1e-7 * np.abs(r).max() if arr else 0.0)


dens = real(1e-3, 1e3, log=True, special=[1.0])
one = st.tuples(dens, real(-3.0, 3.0, special=[0.0]), dens)
OPS = st.tuples(st.sampled_from(["copy", "isen", "RH", "ptM", "ptp", "set_p", "set_u", "index"]), real(0.1, 3.0, log=True))


@sub("C35", "state", st.fixed_dictionaries(dict(q=st.lists(one, min_size=1, max_size=4), g=gammas(), cls=st.sampled_from(["state", "unsteady_state"]), ops=st.lists(OPS, max_size=4))), quick=400)
def c35_state(c, x):
    rho, u, p = (np.array(v) for v in zip(*c["q"]))
    u = u * np.sqrt(c["g"] * p / rho)
    if len(c["q"]) == 1:
        rho, u, p = float(rho[0]), float(u[0]), float(p[0])
    q = (m1.state if c["cls"] == "state" else uq.unsteady_state)(rho, u, p, c["g"])
    shown(repr(q), {"": (rho, u, p)}, "new state")
    for op, v in c["ops"]:
        old = repr(q)
        if op == "copy":
            r = q.copy()
        elif op == "isen":
            r = q.state_isentropic_Mach(v)
        elif op == "RH":
            r = m1.state(q.rho, np.abs(q.u) + 1.001 * q.asound(), q.p, c["g"]).state_RH()
        elif op == "ptM":
            r = m1.state(1.0, 0.0, 1.0, c["g"])
            r.compute_from_pt_rtt_M(q.Ptot(), q.rTtot(), v)
        elif op == "ptp":
            r = m1.state(1.0, 0.0, 1.0, c["g"])
            r.compute_from_pt_rtt_p(q.Ptot(), q.rTtot(), q.p)
        elif op == "index":
            if np.ndim(q.rho) == 0:
                continue
            i = int(v * 100) % len(q.rho)
            r = q[i]
            shown(repr(r), {"": (q.rho[i], q.u[i], q.p[i])}, "indexed state")
            shown(old, {"": (q.rho, q.u, q.p)}, "state")
            continue
        else:
            r = q.copy()
            setattr(r, op[-1], getattr(r, op[-1]) * v)
        require(repr(q) == old, f"{op}: source state printed {repr(q)!r} instead of {old!r}")
        shown(repr(r), {"": (r.rho, r.u, r.p)}, "state after " + op)
        shown(str(r), {"": (r.rho, r.u, r.p)}, "state after " + op)
        q = r
    x.label("array", np.ndim(q.rho) > 0)


@sub("C35", "problems", st.fixed_dictionaries(dict(L=one, R=one, g=gammas(), K=real(0.2, 0.9), M=real(0.05, 1.0))), quick=300)
def c35_problems(c, x):
    g = c["g"]
    S = []
    for r, M, p in (c["L"], c["R"]):
        S.append((r, M * float(np.sqrt(g * p / r)), p))
    aL, aR = (float(np.sqrt(g * s[2] / s[0])) for s in S)
    if S[1][1] - S[0][1] > 2 / (g - 1) * (aL + aR) * c["K"]:
        raise OutOfDomain()
    P = riem.riemann_pb(*(uq.unsteady_state(*s, g) for s in S))
    shown(repr(P), {"L": S[0], "R": S[1]}, "Riemann problem")
    # inflow: right state as given, boundary and star states as solved
    r, u, p = S[1]
    u = 0.3 * u / max(1.0, abs(c["R"][1]))
    F = inflow.inflow_pb(uq.unsteady_state(r, u, p, g))
    ps = p * (1.0 + 0.5 * c["M"])
    pt = ps * phys.pt(c["M"], g)
    # velocity needed behind the right shock at ps
    Ms = np.sqrt(1 + (g + 1) / (2 * g) * (ps / p - 1))
    v = u + 2 * aR / (g + 1) * (Ms - 1 / Ms)
    if v <= 1e-3 * aR:
        raise OutOfDomain()
    rtt = (v / c["M"]) ** 2 / g * phys.tt(c["M"], g)
    F.solve_with_pt0_rtt0(pt, rtt)
    a, b = F.qstarL(), F.qstarR()
    shown(repr(F), {"L*": (a.rho, a.u, a.p), "R*": (b.rho, b.u, b.p), "R": (r, u, p)}, "inflow problem")
    x.label("solved inflow")


@sub("C35", "cycles", st.fixed_dictionaries(dict(c=pe.turbofans(), k=st.integers(0, 12))), quick=300)
def c35_cycles(c, x):
    q = c["c"]
    pe.direct(q)
    e = pe.make(q)
    for s in pe.ORDERED[q["model"]][1:][: c["k"]]:
        getattr(e, s)()
    clear_out()
    e.show_attributes()
    lines = dict(l.split(" = ", 1) for l in out_text().splitlines() if " = " in l)
    want = {n: v for n, v in vars(e).items()}
    for n in pe.CDEF:
        want[n] = getattr(e, n)
    for n, v in want.items():
        if callable(v):
            continue
        require(n in lines, f"attribute {n} is not shown")
        if isinstance(v, (int, float, np.floating)):
            f = re.findall(FL, re.sub(r"float64|int64", "", lines[n]))
            require(len(f) == 1, f"attribute {n} shown as {lines[n]!r}")
            close(float(f[0]), v, 1e-12, f"shown attribute {n}")
    extra = set(lines) - set(want)
    require(not extra, f"shown attributes {sorted(extra)} are not held by the cycle")
    x.label("complete", "eta" in want)
    x.label(q["model"])


@sub("C35", "names", st.fixed_dictionaries(dict(i=st.integers(0, 5), a=st.integers(0, 5), ops=st.lists(st.tuples(st.sampled_from(["add", "set"]), st.integers(0, 60), st.sampled_from(["rho", "my_var", "Mach2", "x"])), max_size=5))), quick=300)
def c35_names(c, x):
    dc = pm.dv
    alias = pm.TABLES[c["i"] % len(pm.TABLES)][0]
    dc.setDicoVar(alias[c["a"] % len(alias)])
    d = dc.dicoVar
    try:
        for op, k, v in c["ops"]:
            if op == "set":
                keys = list(d.keys())
                d.setVar(keys[k % len(keys)], v)
            elif f"new{k}" not in d.keys():
                d.addVar(f"new{k}", v)
        clear_out()
        (dc.printDicoVar if c["a"] % 2 else d.printDatabase)()
        txt = out_text()
        got = {}
        for l in txt.splitlines():
            if "=>" in l:
                k, v = (s.strip() for s in l.split("=>"))
                require(k not in got, f"{k} printed twice")
                got[k] = v
        want = {k: str(d.get(k)).strip() for k in d.keys()}
        require(got == want, f"printed table differs for {[k for k in set(got) | set(want) if got.get(k) != want.get(k)]}")
        require(alias[0].lower() in txt.lower(), f"software {alias[0]} is not named in the printed table")
    finally:
        dc.setDicoVar(alias[0])
    x.label("changed", bool(c["ops"]))


@sub("C35", "remaining", st.fixed_dictionaries(dict(n=st.integers(3, 12), seed=st.integers(0, 10 ** 6), lo=real(-2.0, 2.0), w=real(0.0, 3.0), sort=st.sampled_from(["real", "imag"]))), quick=300)
def c35_remaining(c, x):
    op = ps_.make_op(dict(kind="dense", n=c["n"], cplx=c["sort"] == "real", eye=True, seed=c["seed"]))
    op.solve_eig()
    clear_out()
    v, w, o = op.select_and_sort(realmin=c["lo"], realmax=c["lo"] + c["w"], sort=c["sort"])
    m = re.findall(r"(\d+)\s*/\s*(\d+)", out_text())
    require(m and (int(m[-1][0]), int(m[-1][1])) == (len(v), c["n"]), f"printed {out_text()!r} with {len(v)} of {c['n']} eigenvalues kept")
    x.label("some dropped", 0 < len(v) < c["n"])


BASE = dict(lam=6.1, pic=32.8, Tt4=1410.0, m=180.0, x=0.5)
rng = lambda lo, hi, mid: st.tuples(real(lo, mid), real(mid, hi)) | st.tuples(real(lo, hi), real(lo, hi)).map(lambda v: tuple(sorted(v)))


@sub("C35", "sweeps", st.fixed_dictionaries(dict(lam=rng(3.0, 9.0, 6.0), pic=rng(10.0, 50.0, 30.0), Tt4=rng(1250.0, 1900.0, 1500.0), const=st.booleans(), M0=real(0.3, 0.9), xi=real(0.93, 1.0))), quick=30)
def c35_sweeps(c, x):
    """three figures, each with the five performances over the swept parameter, others at their base value"""
    k = dict(M0=c["M0"], xi_tuy=c["xi"]) if c["const"] else {}
    q = dict(BASE, model="calcule", const=k, gas={})
    plt.close("all")
    try:
        with pe.patched(pd, q):
            pd.main(*c["lam"], *c["pic"], *c["Tt4"])
        figs = [plt.figure(n) for n in plt.get_fignums()]
        require(len(figs) == 3, f"{len(figs)} figures instead of 3")
        for f, n in zip(figs, ("lam", "pic", "Tt4")):
            axs = f.get_axes()
            require(len(axs) == 5, f"{n} figure has {len(axs)} axes")
            for a, r in zip(axs, ("F_spe", "mk_spe", "eta_th", "eta_prop", "eta")):
                ls = a.get_lines()
                require(len(ls) == 1, f"{n} figure: {len(ls)} curves for {r}")
                X, Y = num(ls[0].get_xdata(), "abscissa"), num(ls[0].get_ydata(), "ordinate", finite=False)
                require(X.size == Y.size and X.size >= 2, f"{n} figure: sizes {X.size} {Y.size}")
                if c[n][1] - c[n][0] > 1e-6 * c[n][1]:
                    require(np.unique(X).size >= 2, f"{n} figure: no sweep")
                close([X.min(), X.max()], c[n], 1e-12, f"{n} figure: swept range", atol=1e-12)
                for v, y in zip(X, Y):
                    try:
                        ref = pe.direct(dict(q, **{n: float(v)}))
                    except OutOfDomain:
                        continue
                    close(y, ref[r], 1e-6, f"{n} figure: {r} at {v}")
                lab = a.get_ylabel().lower().replace("_global", "").replace("_", "")
                require(lab == r.lower().replace("_", ""), f"{n} figure: curve of {r} is labelled {a.get_ylabel()!r}")
    finally:
        plt.close("all")
    x.label("changed constants", bool(k))
