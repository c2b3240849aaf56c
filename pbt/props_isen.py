"""C01..C04: isentropic relations, mass flow, area-ratio inversion, Prandtl-Meyer."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import (Violation, close, eff_gamma, ev, forms, gammas, gcall, gstyles, real, require, rule, sub)

from pbt import phys
from pbt.phys import pmang, pt, sigma, tt, weight

import aerokit.aero.Isentropic as Is
import aerokit.aero.MassFlow as mf
import aerokit.aero.Supersonic as sup


wideg = real(1.01, 3.0, special=[1.4, 1.4, 1.3, 5.0 / 3.0, 1.2, 2.0])
machs = st.lists(real(0.0, 60.0, special=[0.0, 1.0, 0.5, 2.0]) | real(1e-6, 1e3, log=True, special=[1.0, 2.0, 3.0]),
                 min_size=1, max_size=4)
base = dict(g=wideg, gs=gstyles(), form=forms())

rule("C01", "Mach numbers uniform in [0,60] and log-uniform in [1e-6,1e3] with 0, 1 and code literals, g in [1.01,3], all calling forms "
     "(scalar, numpy scalar, size-1, 1-D, 2-D, column; gamma positional/keyword/omitted).")


@sub("C01", "ratios", st.fixed_dictionaries(dict(M=machs, reverse=st.booleans(), **base)), quick=600)
def c01_ratios(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    s = -1.0 if c["reverse"] else 1.0  # same ratios for a flow in the other direction
    T = ev(gcall(Is.TtTs_Mach, c["g"], c["gs"]), s * M, c["form"], "Tt/Ts")
    P = ev(gcall(Is.PtPs_Mach, c["g"], c["gs"]), s * M, c["form"], "Pt/Ps")
    close(T, tt(M, g), 1e-11, f"Tt/Ts at M={c['M']} g={g}")
    close(P, pt(M, g), 1e-9, f"Pt/Ps at M={c['M']} g={g}")
    o = np.argsort(M)
    d = np.diff(M[o] ** 2) > 1e-7 * (1 + M[o][1:] ** 2)
    require((np.diff(T[o]) > 0)[d], "Tt/Ts does not increase with Mach")
    require((np.diff(P[o]) > 0)[d], "Pt/Ps does not increase with Mach")
    x.label("omitted gamma", c["gs"] == "omit")
    x.label("supersonic", M.max() > 1)
    x.label("array", c["form"] in ("array", "2d", "column"))


@sub("C01", "inverse", st.fixed_dictionaries(dict(M=machs, **base)), quick=600)
def c01_inverse(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    T, P = tt(M, g), pt(M, g)
    m = ev(gcall(Is.Mach_TtTs, c["g"], c["gs"]), T, c["form"], "Mach from Tt/Ts")
    close(tt(m, g), T, 1e-11, f"Tt/Ts of Mach recovered from Tt/Ts of M={c['M']} g={g}")
    # the pressure ratio 1+tiny carries the Mach number with an absolute error of order eps
    require(m >= 0, "negative Mach number from Tt/Ts")
    m = ev(gcall(Is.Mach_PtPs, c["g"], c["gs"]), P, c["form"], "Mach from Pt/Ps", finite=False)
    m = np.where((P - 1.0 < 1e-9) & np.isnan(m), 0.0, m)  # sqrt of a round-off at rest
    require(m >= 0, f"Mach number from Pt/Ps of M={c['M']} g={g} is {m}")
    close(pt(m, g), P, 1e-9, f"Pt/Ps of Mach recovered from Pt/Ps of M={c['M']} g={g}")
    big = M > 1e-2
    close(m[big], M[big], 1e-6, f"Mach recovered from Pt/Ps g={g}")
    x.label("low Mach", M.min() < 0.05)
    x.label("high Mach", M.max() > 10)


@sub("C01", "velocity", st.fixed_dictionaries(dict(M=machs, Tt=real(1e-3, 1e5, log=True, special=[300.0, 288.15, 1.0]),
     r=real(1.0, 5000.0, log=True, special=[287.1, 287.0, 1.0]), omit_r=st.booleans(), legacy=st.booleans(), reverse=st.booleans(), each=st.booleans(), **base)), quick=600)
def c01_velocity(c, x):
    g = eff_gamma(c)
    M, Tt = phys.within(np.array(c["M"]), g), c["Tt"]
    f = Is.Velocity_MachTi if c["legacy"] else Is.Velocity_MachTt
    r = c["r"]
    if c["omit_r"]:
        r = 287.1
        fn = (lambda m: f(m, Tt)) if c["gs"] == "omit" else (lambda m: f(m, Tt, gamma=g))
    elif c["gs"] == "omit":
        fn = lambda m: f(m, Tt, r=r)
    elif c["gs"] == "pos":
        fn = lambda m: f(m, Tt, r, g)
    else:
        fn = lambda m: f(m, Tt, gamma=g, r=r)
    s = -1.0 if c["reverse"] else 1.0
    V = s * ev(fn, s * M, c["form"], "velocity")
    cp = g * r / (g - 1.0)
    Ts = Tt / tt(M, g)
    close(0.5 * V * V + cp * Ts, cp * Tt * np.ones_like(M), 1e-9, f"total enthalpy of velocity M={c['M']} Tt={Tt} r={r} g={g}")
    close(V, M * np.sqrt(g * r * Ts), 1e-9, f"velocity M={c['M']} Tt={Tt} r={r} g={g}")
    x.label("omitted r", c["omit_r"])
    if c["each"]:
        # one gas and one temperature for each Mach number
        k = 1.0 + 0.3 * np.arange(len(M))
        gk = 1.0 + (g - 1.0) / k
        Mk = phys.within(M, gk.min())
        V = np.asarray(f(Mk, Tt / k, r=r * k, gamma=gk), dtype=float)
        require(V.shape == Mk.shape, f"shape {V.shape} of velocity for arrays of {len(M)} Mach numbers, temperatures, gas constants and gammas")
        close(V, Mk * np.sqrt(gk * r * Tt / tt(Mk, gk)), 1e-9, f"velocity M={Mk} Tt={Tt / k} r={r * k} g={gk}")
        V = np.asarray(f(M[0], Tt, r=r * k, gamma=g), dtype=float)
        close(V, M[0] * np.sqrt(g * r * k * Tt / tt(M[0], g)), 1e-9, f"velocity M={M[0]} Tt={Tt} r={r * k} g={g}")
        x.label("arrays of gases")


# ---------------------------------------------------------------------------------------------- C02
rule("C02", "M log-uniform in [1e-6,1e3] with 1 and neighbours, g in [1.01,3], all calling forms.")
pmachs = st.lists(real(1e-6, 1e3, log=True, special=[1.0, 1.0 + 1e-8, 1.0 - 1e-8, 0.999, 1.001, 2.0]), min_size=1, max_size=4)


@sub("C02", "weight_sigma", st.fixed_dictionaries(dict(M=pmachs, r=real(1.0, 5000.0, log=True), rs=st.sampled_from(["omit", "kw"]), **base)), quick=800)
def c02(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    kw = {} if c["rs"] == "omit" else dict(r=c["r"])
    if c["gs"] != "omit":
        kw["gamma"] = c["g"]
    if c["gs"] == "pos":
        W = ev(lambda m: mf.WeightMassFlow(m, c["r"], c["g"]), M, c["form"], "mass-flow weight")
    else:
        W = ev(lambda m: mf.WeightMassFlow(m, **kw), M, c["form"], "mass-flow weight")
    S = ev(gcall(mf.Sigma_Mach, c["g"], c["gs"]), M, c["form"], "A/A*")
    close(W, weight(M, g), 1e-9, f"mass-flow weight M={c['M']} g={g}")
    close(S, sigma(M, g), 1e-9, f"A/A* M={c['M']} g={g}")
    close(S * W, weight(1.0, g) * np.ones_like(M), 1e-9, f"A/A* times weight (mass flow) M={c['M']} g={g}")
    require(S >= 1 - 1e-10, f"A/A* below 1 at M={c['M']} g={g}: {S}")
    # decreasing then increasing
    o = np.argsort(M)
    m, s = M[o], S[o]
    for i in range(len(m) - 1):
        if m[i + 1] - m[i] > 1e-5 * m[i]:
            if m[i + 1] <= 1 - 1e-5:
                require(s[i + 1] < s[i], f"A/A* does not decrease between {m[i]} and {m[i+1]} g={g}")
            if m[i] >= 1 + 1e-5:
                require(s[i + 1] > s[i], f"A/A* does not increase between {m[i]} and {m[i+1]} g={g}")
    x.label("sonic", bool(np.any(np.abs(M - 1) < 1e-6)))
    x.label("both sides", bool(M.min() < 1 < M.max()))


# ---------------------------------------------------------------------------------------------- C03
rule("C03", "area ratios 1, 1+10^k (k from -15 to 0) and log-uniform to 1e8, g in [1.01,3], scalar and array "
     "arguments, branch given by function or hint(s) from 1e-6 to 1e6; M-1 accurate near the throat too.")
sig_1 = real(1e-15, 1.0, log=True).map(lambda e: 1.0 + e) | real(1.0, 1e4, log=True, special=[1.0, 1.8, 2.0, 6.0]) | real(1.0, 1e8, log=True)
sig_s = st.lists(sig_1, min_size=1, max_size=5)
gam3 = gammas(1.05, 1.8) | gammas(1.01, 3.0)


def check_root(M, s, supersonic, g, what):
    M = np.asarray(M, float)
    require(M > 0, f"{what}: Mach {M} not positive")
    if supersonic:
        require(M >= 1 - 1e-7, f"{what}: Mach {M} is not supersonic for A/A*={s} g={g}")
    else:
        require(M <= 1 + 1e-7, f"{what}: Mach {M} is not subsonic for A/A*={s} g={g}")
    close(sigma(M, g), s, 1e-8, f"{what}: A/A* of returned Mach (g={g})")
    # A/A* is flat at the throat: its excess over 1 must be met too
    n = 0.5 * (g + 1) / (g - 1)
    lM = np.log(M)
    ex = n * np.log1p((g - 1) / (g + 1) * np.expm1(2 * lM)) - lM  # ln A/A*, without the round-off of a product near 1
    close(ex, np.log(s), 1e-7, f"{what}: excess of A/A* over 1 at returned Mach {M} (A/A*={s}, g={g})", atol=2e-15 * (1 + n))


@sub("C03", "branches", st.fixed_dictionaries(dict(s=sig_s, supersonic=st.booleans(), g=gam3, gs=gstyles(), form=forms())), quick=800)
def c03_branches(c, x):
    g = eff_gamma(c)
    f = mf.MachSup_Sigma if c["supersonic"] else mf.MachSub_Sigma
    s = np.array(c["s"])
    M = ev(gcall(f, c["g"], c["gs"]), s, c["form"], f.__name__)
    check_root(M, s, c["supersonic"], g, f.__name__)
    x.label("s = 1", bool(np.any(s == 1)))
    x.label("near sonic", bool(np.any(s < 1 + 1e-4)))
    x.label("supersonic", c["supersonic"])
    x.label("array", len(s) > 1 and c["form"] in ("array", "2d", "column"))


hint = st.one_of(real(1.01, 8.0, special=[2.0, 1.5]), real(0.01, 0.99, special=[0.5, 0.1]), real(1.0 + 1e-6, 1e6, log=True), real(1e-6, 1 - 1e-6, log=True))


@sub("C03", "hint_scalar", st.fixed_dictionaries(dict(s=real(1.0, 200.0, log=True, special=[1.0001]) | sig_1, h=hint, hs=st.sampled_from(["kw", "pos", "omit"]), g=gam3, gs=st.sampled_from(["kw", "omit"]), form=forms())), quick=500)
def c03_hint(c, x):
    g = eff_gamma(c)
    kw = {} if c["gs"] == "omit" else dict(gamma=c["g"])
    h = 2.0 if c["hs"] == "omit" else c["h"]
    if c["hs"] == "kw":
        f = lambda s: mf.Mach_Sigma(s, Mach=h, **kw)
    elif c["hs"] == "pos":
        f = lambda s: mf.Mach_Sigma(s, h, **kw)
    else:
        f = lambda s: mf.Mach_Sigma(s, **kw)
    M = ev(f, [c["s"]], c["form"], "Mach_Sigma")
    check_root(M, np.array([c["s"]]), h > 1, g, f"Mach_Sigma with hint {h}")
    x.label("supersonic hint", h > 1)


@sub("C03", "hint_array", st.fixed_dictionaries(dict(sh=st.lists(st.tuples(real(1.0, 200.0, log=True, special=[1.0, 1.0001]) | sig_1, hint), min_size=2, max_size=6),
                                                     scalar_s=st.booleans(), two=st.sampled_from([0, 0, 1, 2, 3]), g=gam3, gs=st.sampled_from(["kw", "omit"]))), quick=500)
def c03_hint_array(c, x):
    g = eff_gamma(c)
    kw = {} if c["gs"] == "omit" else dict(gamma=c["g"])
    s = np.array([a for a, _ in c["sh"]])
    h = np.array([b for _, b in c["sh"]])
    if c["scalar_s"]:
        s = np.full_like(h, s[0])
    n, two = len(h), c.get("two", 0)
    if two:  # hints in two dimensions
        h, s = (h.reshape(-1, 1), s.reshape(-1, 1)) if two == 1 else (np.stack([h, h[::-1]][: two]), np.stack([s, s[::-1]][: two])) if two == 2 else (h.reshape(1, -1), s.reshape(1, -1))
        x.label("two dimensions")
    h0, s0 = h.copy(), s.copy()
    M = np.asarray(mf.Mach_Sigma(float(s.flat[0]) if c["scalar_s"] else s, Mach=h, **kw), float)
    require(M.shape == h.shape, f"Mach_Sigma: shape {M.shape} for hints of shape {h.shape}")
    require(np.array_equal(h, h0) and np.array_equal(s, s0), "Mach_Sigma modified its arguments")
    M, s, h = M.ravel(), s.ravel(), h.ravel()
    for i in range(len(h)):
        check_root(M[i : i + 1], s[i : i + 1], h[i] > 1, g, f"Mach_Sigma with hints {h.tolist()} element {i}")
    x.label("mixed hints", bool(h.min() < 1 < h.max()))


# ---------------------------------------------------------------------------------------------- C04
rule("C04", "M log-uniform in [1,200] with 1, angles up to 0.99 of the vacuum limit, g in [1.01,3], all calling forms; "
     "turnings between two random supersonic Mach numbers.")
smach = real(1.0, 200.0, log=True, special=[1.0, 1.0 + 1e-9, 1.0 + 1e-6, 1.001, 2.0]) | real(1.0, 4.0)
smachs = st.lists(smach, min_size=1, max_size=4)
gb = dict(g=gammas(1.05, 1.67) | gammas(1.01, 3.0), gs=gstyles(), form=forms())


@sub("C04", "angle", st.fixed_dictionaries(dict(M=smachs, **gb)), quick=600)
def c04_angle(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    f = gcall(sup.PrandtlMeyer_Mach, c["g"], c["gs"])
    w = ev(f, M, c["form"], "Prandtl-Meyer")
    close(w, pmang(M, g), 1e-9, f"Prandtl-Meyer angle M={c['M']} g={g}", atol=1e-10)
    require(w < 90.0 * (np.sqrt((g + 1) / (g - 1)) - 1), "Prandtl-Meyer angle over its vacuum limit")
    # differential law, by central difference of the code itself
    for m in M:
        if m > 1.01:
            h = 1e-5 * m
            d = (float(f(m + h)) - float(f(m - h))) / (2 * h)
            ref = np.degrees(np.sqrt(m * m - 1) / (m * tt(m, g)))
            close(d, ref, 1e-4, f"d(Prandtl-Meyer)/dM at M={m} g={g}", atol=1e-7)
    x.label("M=1", bool(np.any(M == 1)))


@sub("C04", "inverse", st.fixed_dictionaries(dict(t=st.lists(real(0.0, 0.99, special=[0.0, 1e-9, 1e-6, 1e-4]), min_size=1, max_size=4), M=smachs, use_M=st.booleans(), **gb)), quick=700)
def c04_inverse(c, x):
    g = eff_gamma(c)
    lim = 90.0 * (np.sqrt((g + 1) / (g - 1)) - 1)
    om = pmang(np.array(c["M"]), g) if c["use_M"] else np.array(c["t"]) * lim
    om = np.minimum(om, 0.99 * lim)
    M = ev(gcall(sup.Mach_PrandtlMeyer, c["g"], c["gs"]), om, c["form"], "Mach from Prandtl-Meyer")
    require(M >= 1 - 1e-9, f"Mach from Prandtl-Meyer below 1: {M} for angle {om} g={g}")
    close(pmang(M, g), om, 1e-8, f"Prandtl-Meyer angle of Mach recovered g={g}", atol=1e-7)
    x.label("small angle", bool(om.min() < 0.5))
    x.label("large angle", bool(om.max() > 0.6 * lim))


@sub("C04", "inverse_fmmu", st.fixed_dictionaries(dict(M=smachs, **gb)), quick=400)
def c04_fmmu(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    v = pmang(M, g) - np.degrees(np.arcsin(1.0 / M))
    m = ev(gcall(sup.Mach_PMFmmu, c["g"], c["gs"]), v, c["form"], "Mach from angle minus Mach angle")
    require(m >= 1 - 1e-9, f"Mach {m} below 1")
    m = np.maximum(m, 1.0)
    close(pmang(m, g) - np.degrees(np.arcsin(1.0 / m)), v, 0.0, f"angle minus Mach angle of recovered Mach g={g}", atol=2e-6)
    k = M > 1.0001
    close(m[k], M[k], 1e-7, f"Mach recovered from angle minus Mach angle g={g}")


@sub("C04", "turning", st.fixed_dictionaries(dict(M1=real(1.0, 50.0, log=True, special=[1.0, 2.0, 3.0]), M2=st.lists(real(1.0, 50.0, log=True, special=[1.0, 2.0, 3.0]), min_size=1, max_size=3), **gb)), quick=500)
def c04_turning(c, x):
    g = eff_gamma(c)
    M1, M2 = c["M1"], np.array(c["M2"])
    turn = pmang(M2, g) - pmang(M1, g)  # positive: expansion
    pr = pt(M1, g) / pt(M2, g)
    d = ev(lambda p: gcall(sup.deflection_Mach_IsentropicPsratio, c["g"], c["gs"])(M1, p), pr, c["form"], "isentropic deflection", finite=False)
    # at M2 = 1 round-off may put the Mach number below 1
    ok = M2 > 1 + 1e-7
    close(d[ok], turn[ok], 1e-7, f"turning for pressure ratio, from M={M1} to {c['M2']} g={g}", atol=1e-7)
    # keep compressions strictly supersonic
    q = ev(lambda t: gcall(sup.IsentropicPsratio_Mach_deflection, c["g"], c["gs"])(M1, t), -turn[ok], c["form"], "isentropic pressure ratio") if ok.any() else np.array([])
    # error of the inverse Mach number (1e-7 deg) amplified by g M^2/sqrt(M^2-1)
    m2 = M2[ok]
    tol = 1e-7 + 1e-7 * g * m2**2 / np.sqrt(m2**2 - 1)
    require(np.abs(q / pr[ok] - 1) <= tol, f"pressure ratio {q} instead of {pr[ok]} for turning {turn[ok]} from M={M1} g={g}")
    if ok.any():
        back = ev(lambda p: gcall(sup.deflection_Mach_IsentropicPsratio, c["g"], c["gs"])(M1, p), q, "array", "isentropic deflection")
        close(back, turn[ok], 1e-6, f"round trip of turning from M={M1} g={g}", atol=1e-6)
    x.label("expansion", bool(np.any(turn > 0)))
    x.label("compression", bool(np.any(turn < 0)))
