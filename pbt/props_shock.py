"""C05..C09: normal, oblique and conical shock waves."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import (OutOfDomain, Violation, close, eff_gamma, ev, num, flt, forms, gammas, gcall, gstyles, out_text, real, require,
                      rule, sub)
from pbt import phys

import aerokit.aero.ShockWave as sw

GB = dict(g=gammas(1.05, 1.67) | gammas(1.01, 3.0), gs=gstyles())
FB = dict(form=forms(), **GB)
mn = real(1.0, 1e3, log=True, special=[1.0, 1.0 + 1e-9, 1.001, 1.5, 2.0, 3.0]) | real(1.0, 5.0) | real(1e-10, 1.0, log=True).map(lambda e: 1 + e)
mns = st.lists(mn, min_size=1, max_size=4)

# ---------------------------------------------------------------------------------------------- C05
rule("C05", "Mn log-uniform in [1,1000] with 1 and neighbours, Mn-1 log-uniform in [1e-10,1] (total-pressure inverse [1+1e-10,50]), g in [1.01,3], all calling forms.")


@sub("C05", "balances", st.fixed_dictionaries(dict(M=mns, **FB)), quick=800)
def c05_balances(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    e = lambda f, n: ev(gcall(f, c["g"], c["gs"]), M, c["form"], n)
    P, R, T, M2 = e(sw.Ps_ratio, "pressure ratio"), e(sw.Rho_ratio, "density ratio"), e(sw.Ts_ratio, "temperature ratio"), e(sw.downstream_Mn, "downstream Mach")
    w = f"Mn={c['M']} g={g}"
    # upstream state rho=1, p=1, u=M sqrt(g)
    u1 = M * np.sqrt(g)
    u2 = M2 * np.sqrt(g * P / R)
    close(R * u2, u1, 1e-11, "mass flux across shock " + w)
    close(P + R * u2**2, 1 + u1**2, 1e-11, "momentum flux across shock " + w)
    h = g / (g - 1)
    close(h * P / R + 0.5 * u2**2, h + 0.5 * u1**2, 1e-11, "total enthalpy across shock " + w)
    close(P, R * T, 1e-12, "perfect-gas law across shock " + w)
    require(M2 <= 1 + 1e-12, f"downstream Mach {M2} not subsonic {w}")
    k = M > 1 + 1e-7
    require(M2[k] < 1, f"downstream Mach {M2} not subsonic {w}")
    require(P[k] > 1, f"pressure does not increase through shock {w}")
    x.label("near sonic", bool(M.min() < 1.01))
    x.label("strong", bool(M.max() > 10))


@sub("C05", "involution", st.fixed_dictionaries(dict(M=mns, **FB)), quick=500)
def c05_involution(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    f = gcall(sw.downstream_Mn, c["g"], c["gs"])
    m2 = ev(f, M, c["form"], "downstream Mach")
    back = ev(f, m2, c["form"], "downstream Mach of downstream Mach")
    require(np.abs(back / M - 1) <= 1e-12 * (1 + M * M) + 1e-12, f"relation is not an involution: {back} from Mn={c['M']} g={g}")
    for n, fn in (("Ps", sw.Ps_ratio), ("Rho", sw.Rho_ratio), ("Ts", sw.Ts_ratio)):
        q = gcall(fn, c["g"], c["gs"])
        a = ev(q, M, c["form"], n)
        b = ev(q, m2, c["form"], n)
        require(np.abs(a * b - 1) <= 1e-12 * (1 + M**2), f"{n} ratio from downstream Mach is not the inverse ratio: {a} * {b} Mn={c['M']} g={g}")


@sub("C05", "total_pressure", st.fixed_dictionaries(dict(M=mns, legacy=st.booleans(), **FB)), quick=600)
def c05_pt(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    q = ev(gcall(sw.Pi_ratio if c["legacy"] else sw.Pt_ratio, c["g"], c["gs"]), M, c["form"], "total pressure ratio")
    close(q, phys.ptloss(M, g), 1e-9, f"total pressure ratio Mn={c['M']} g={g}")
    require(q <= 1 + 1e-12, f"total pressure increases {q}")
    o = np.argsort(M)
    k = np.diff(M[o]) > 1e-3
    require((np.diff(q[o]) < 0)[k], f"total pressure ratio does not decrease with Mn {c['M']} g={g}")
    k = M > 1.001
    require(q[k] < 1, "no total pressure loss")


@sub("C05", "inverse_ps", st.fixed_dictionaries(dict(M=mns, **FB)), quick=500)
def c05_inv(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    P = phys.nshock(M, g)[1]
    m = ev(gcall(sw.Mn_Ps_ratio, c["g"], c["gs"]), P, c["form"], "Mn from pressure ratio")
    close(m, M, 1e-10, f"Mn from pressure ratio of Mn={c['M']} g={g}")
    # the same jump seen from the downstream side
    m2 = ev(gcall(sw.Mn_Ps_ratio, c["g"], c["gs"]), 1 / P, c["form"], "Mn from inverse pressure ratio")
    close(m2, phys.nshock(M, g)[3], 1e-10 + 1e-15 / (np.min(g) - 1), f"downstream Mn from the inverse pressure ratio of Mn={c['M']} g={g}")


@sub("C05", "inverse_pt", st.fixed_dictionaries(dict(M=real(1.02, 50.0, log=True, special=[2.0, 1.5, 1.4985, 3.0]) | real(1e-4, 0.1, log=True).map(lambda e: 1 + e) | real(3e-5, 2e-4, log=True).map(lambda e: 1 + e) | real(1e-10, 1e-4, log=True).map(lambda e: 1 + e), legacy=st.booleans(), form=st.sampled_from(["scalar", "np64", "size1"]), **GB)), quick=500)
def c05_invpt(c, x):
    g = eff_gamma(c)
    M = c["M"]
    q = float(phys.ptloss(M, g))
    m = ev(gcall(sw.Mn_Pi_ratio if c["legacy"] else sw.Mn_Pt_ratio, c["g"], c["gs"]), [q], c["form"], "Mn from total pressure ratio")
    # conditioning: loss is of order (Mn-1)^3
    # (round-off of the ratio hides any shock weaker than 1e-5)
    close(m, M, min(2e-4, 2e-3 * (M - 1)) + (2e-5 if M > 1 + 3e-5 else 6e-5), f"Mn from total pressure ratio of Mn={M} g={g}")
    close(phys.ptloss(m, g), q, 1e-4, f"total pressure ratio of Mn recovered (Mn={M} g={g})")


@sub("C05", "inverse_pt_invalid", st.fixed_dictionaries(dict(q=real(1.0 + 1e-6, 10.0, special=[1.5, 2.0]), **GB)), quick=60)
def c05_invpt_bad(c, x):
    m = flt(gcall(sw.Mn_Pt_ratio, c["g"], c["gs"])(c["q"]), "Mn from total pressure ratio above 1")
    require(m == 1.0, f"Mn for a total pressure ratio {c['q']} > 1 is {m} instead of 1")
    require("cannot find" in out_text(), "no message for a total pressure ratio over 1")


# ---------------------------------------------------------------------------------------------- C06
rule("C06", "M in [1.0001,200], shock angles between Mach angle and 90 deg (both included), g in [1.01,3], scalar/array angle and Mach.")
obl = dict(M=real(1.0001, 200.0, log=True, special=[2.0, 3.0, 1.5]) | real(1.01, 5.0), t=st.lists(real(0.0, 1.0, special=[0.0, 1.0, 0.5, 1e-6]), min_size=1, max_size=4), Marr=st.booleans(), **FB)


def two(fn, M, Marr):
    return (lambda s: fn(M + 0.0 * s, s)) if Marr else (lambda s: fn(M, s))


@sub("C06", "deflection", st.fixed_dictionaries(obl), quick=800)
def c06_defl(c, x):
    g = eff_gamma(c)
    M = c["M"]
    mu = np.degrees(np.arcsin(1 / M))
    t = np.array(c["t"])
    s = mu + t * (90 - mu)
    d = ev(two(gcall(sw.deflection_Mach_sigma, c["g"], c["gs"]), M, c["Marr"]), s, c["form"], "deflection")
    close(d, phys.deflection(M, s, g), 1e-9, f"deflection M={M} sigma={s} g={g}", atol=1e-9)
    require(np.abs(d[(t == 0) | (t == 1)]) < 1e-8, f"deflection at ends of the range {d}")
    k = (t > 1e-4) & (t < 1 - 1e-4)
    require(d[k] > 0, f"deflection not positive {d}")
    x.label("ends", bool(np.any((t == 0) | (t == 1))))


@sub("C06", "from_pressure", st.fixed_dictionaries(dict(obl, t=st.lists(real(0.0, 1.0, special=[0.0, 0.5, 1.0, 1 - 1e-9]), min_size=1, max_size=4))), quick=800)
def c06_press(c, x):
    g = eff_gamma(c)
    M = c["M"]
    mu = np.degrees(np.arcsin(1 / M))
    t = np.array(c["t"])
    s = mu + t * (90 - mu)
    p = phys.nshock(M * np.sin(np.radians(s)), g)[1]
    # asin of nearly 1, then slope of the deflection: density ratio
    tol = 1e-9 + 1e-12 * np.minimum(np.abs(np.tan(np.radians(s))), 3e6) * 57.3 * max(1.0, 0.2 * (g + 1) / (g - 1))
    d = ev(two(gcall(sw.deflection_Mach_ShockPsratio, c["g"], c["gs"]), M, c["Marr"]), p, c["form"], "deflection from pressure ratio")
    require(np.abs(d - phys.deflection(M, s, g)) <= tol, f"deflection {d} from pressure ratio instead of {phys.deflection(M, s, g)} M={M} sigma={s} g={g}")
    m2 = ev(two(gcall(sw.downstreamMach_Mach_ShockPsratio, c["g"], c["gs"]), M, c["Marr"]), p, c["form"], "downstream Mach from pressure ratio")
    close(m2, phys.oblique_M2(M, s, g), 1e-8, f"downstream Mach from pressure ratio M={M} sigma={s} g={g}")
    x.label("subsonic downstream", bool(m2.min() < 1))


# ---------------------------------------------------------------------------------------------- C07
rule("C07", "M in [1.001,50], deflection 0..0.9999 of an independently computed maximum (iterative: 1e-7..0.999) and 1.0001..1.6 times it, g in [1.01,3].")
m7 = real(1.001, 50.0, log=True, special=[2.0, 3.0, 1.5]) | real(1.001, 5.0)


@sub("C07", "weak_strong", st.fixed_dictionaries(dict(M=m7, t=real(0.0, 0.9999, special=[0.0, 1e-6, 0.5, 0.99]), np64=st.booleans(), **GB)), quick=800)
def c07_ws(c, x):
    g = eff_gamma(c)
    M = c["M"]
    sm, dm = phys.devmax(M, g)
    d = c["t"] * dm
    mu = np.degrees(np.arcsin(1 / M))
    cv = np.float64 if c["np64"] else float
    w = flt(gcall(sw.weaksigma_Mach_deflection, c["g"], c["gs"])(cv(M), cv(d)), "weak shock angle")
    require("no " not in out_text(), f"weak: no solution reported for an attached shock M={M} deflection={d} g={g}: {out_text()}")
    s = flt(gcall(sw.strongsigma_Mach_deflection, c["g"], c["gs"])(cv(M), cv(d)), "strong shock angle")
    require("no " not in out_text(), f"strong: no solution reported for an attached shock M={M} deflection={d} g={g}: {out_text()}")
    # deflection is a steep function of the angle if density ratio is high
    tol = 3e-6 * max(1.0, 0.1 * (g + 1) / (g - 1))
    close(phys.deflection(M, w, g), d, 0, f"deflection of weak shock angle {w} M={M} g={g}", atol=tol)
    close(phys.deflection(M, s, g), d, 0, f"deflection of strong shock angle {s} M={M} g={g}", atol=tol)
    e = 1e-6
    require(mu - e <= w <= sm + 1e-5, f"weak angle {w} out of [{mu},{sm}] M={M} d={d} g={g}")
    require(sm - 1e-5 <= s <= 90 + e, f"strong angle {s} out of [{sm},90] M={M} d={d} g={g}")
    x.label("zero deflection", d == 0)
    x.label("near maximum", c["t"] > 0.95)


@sub("C07", "detached", st.fixed_dictionaries(dict(M=m7, t=real(1.0001, 1.6, special=[1.001]), **GB)), quick=400)
def c07_det(c, x):
    g = eff_gamma(c)
    M = c["M"]
    sm, dm = phys.devmax(M, g)
    d = c["t"] * dm
    if d > 85:
        raise OutOfDomain
    mu = np.degrees(np.arcsin(1 / M))
    w = flt(gcall(sw.weaksigma_Mach_deflection, c["g"], c["gs"])(M, d), "weak shock angle")
    o1 = out_text()
    s = flt(gcall(sw.strongsigma_Mach_deflection, c["g"], c["gs"])(M, d), "strong shock angle")
    o2 = out_text()[len(o1):]
    close(w, mu, 1e-9, f"weak angle over maximum deflection M={M} d={d} g={g}")
    close(s, 90.0, 1e-9, f"strong angle over maximum deflection M={M} d={d} g={g}")
    require("no" in o1.lower() and "no" in o2.lower(), f"no message for a detached shock M={M} d={d} g={g}: {o1!r} {o2!r}")


@sub("C07", "iterative", st.fixed_dictionaries(dict(M=m7, t=real(0.001, 0.999, special=[0.01, 0.5]) | real(1e-7, 1.0, log=True).map(lambda e: min(e, 0.999)), neg=st.booleans(), init=st.booleans(), pos=st.booleans(), more=st.lists(st.tuples(real(0.001, 0.999), st.booleans()), max_size=3), **GB)), quick=600)
def c07_it(c, x):
    g = eff_gamma(c)
    M = c["M"]
    sm, dm = phys.devmax(M, g)
    d = c["t"] * dm
    ref = phys.obl_sigma(M, d, g)
    kw = {} if c["gs"] == "omit" else dict(gamma=c["g"])
    if c["init"]:
        kw["init"] = ref + min(0.02 * ref, 0.1 * (sm - ref))
    if c["pos"]:
        f = lambda M, d: sw.sigma_Mach_deflection(M, d, kw.get("init"), g)
    else:
        f = lambda M, d: sw.sigma_Mach_deflection(M, d, **kw)
    r = flt(f(M, -d if c["neg"] else d), "iterative shock angle")
    require(np.sign(r) == (-1 if c["neg"] else 1), f"sign of the shock angle {r} for deflection {'-' if c['neg'] else ''}{d}")
    close(phys.deflection(M, abs(r), g), d, 0, f"deflection of iterative shock angle {r} (weak angle {ref}) M={M} g={g}", atol=1e-5)
    close(abs(r), ref, 0, f"iterative shock angle M={M} d={d} g={g}", atol=1e-3)
    if c["more"]:
        # array of deflections of both signs
        dd = np.array([-d if c["neg"] else d] + [(-t if n else t) * dm for t, n in c["more"]])
        kw.pop("init", None)
        d0 = dd.copy()
        rr = num(f(M, dd), "iterative shock angles of an array")
        require(np.array_equal(dd, d0), "array of deflections was modified")
        require(rr.shape == dd.shape and np.all(np.sign(rr) == np.sign(dd)), f"shock angles {rr} of deflections {dd} M={M} g={g}")
        close(phys.deflection(M, np.abs(rr), g), np.abs(dd), 0, f"deflections of iterative shock angles {rr} M={M} g={g}", atol=1e-5)
        x.label("both signs", bool(np.any(dd > 0) and np.any(dd < 0)))


@sub("C07", "started", st.fixed_dictionaries(dict(M=m7, t=st.lists(real(0.02, 0.98, special=[0.5]), min_size=1, max_size=3), strong=st.booleans(), off=real(-0.1, 0.1), g=gammas(1.05, 1.67), gs=st.sampled_from(["kw", "omit"]))), quick=400)
def c07_started(c, x):
    """a start close to the strong (weak) solution leads to it"""
    g = eff_gamma(c)
    M = c["M"]
    sm, dm = phys.devmax(M, g)
    d = np.array(c["t"]) * dm
    ref = np.array([phys.obl_sigma(M, v, g, strong=c["strong"]) for v in d])
    kw = {} if c["gs"] == "omit" else dict(gamma=c["g"])
    init = ref + c["off"] * np.minimum(np.abs(sm - ref), 90 - ref if c["strong"] else ref - np.degrees(np.arcsin(1 / M)))
    r = num(sw.sigma_Mach_deflection(M, d, init=init, **kw), "iterative shock angles")
    w = f"started at {init} M={M} deflections {d} g={g}"
    close(phys.deflection(M, r, g), d, 0, f"deflections of iterative shock angles {r} {w}", atol=0.05 if c["strong"] else 1e-3)
    close(r, ref, 0, f"iterative shock angles {w}", atol=1e-2)
    r1 = np.array([flt(sw.sigma_Mach_deflection(M, -float(a), init=float(b), **kw)) for a, b in zip(d, init)])
    close(-r1, r, 0, f"iterative shock angles of opposite deflections {w}", atol=1e-4)


# ---------------------------------------------------------------------------------------------- C08
rule("C08", "M in [1.0001,200], g in [1.01,3], 60 competing shock angles (random, grid and close to the maximum), scalar and array M.")


@sub("C08", "maximum", st.fixed_dictionaries(dict(M=st.lists(obl["M"], min_size=1, max_size=3), t=st.lists(real(0.0, 1.0), min_size=5, max_size=5), **FB)), quick=500)
def c08_max(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    s = ev(gcall(sw.sigma_DevMax, c["g"], c["gs"]), M, c["form"], "shock angle of maximum deflection")
    d = ev(gcall(sw.dev_Max, c["g"], c["gs"]), M, c["form"], "maximum deflection")
    for i, m in enumerate(M):
        mu = np.degrees(np.arcsin(1 / m))
        close(phys.deflection(m, s[i], g), d[i], 1e-9, f"deflection at reported angle M={m} g={g}", atol=1e-9)
        t = np.concatenate([np.linspace(0, 1, 41), c["t"]])
        a = np.concatenate([mu + t * (90 - mu), np.clip(s[i] + np.array([-1, -0.3, -0.05, 0.05, 0.3, 1]), mu, 90)])
        b = phys.deflection(m, a, g)
        j = np.argmax(b)
        require(b[j] <= d[i] + 1e-9, f"deflection {b[j]} at {a[j]} is larger than the reported maximum {d[i]} M={m} g={g}")
        close(d[i], phys.devmax(m, g)[1], 1e-8, f"maximum deflection M={m} g={g}", atol=1e-9)


@sub("C08", "sonic", st.fixed_dictionaries(dict(M=st.lists(obl["M"], min_size=1, max_size=3), **FB)), quick=600)
def c08_sonic(c, x):
    g = eff_gamma(c)
    M = np.array(c["M"])
    s = ev(gcall(sw.sigma_Sonic, c["g"], c["gs"]), M, c["form"], "sonic shock angle")
    d = ev(gcall(sw.dev_Sonic, c["g"], c["gs"]), M, c["form"], "sonic deflection")
    sm = ev(gcall(sw.sigma_DevMax, c["g"], c["gs"]), M, c["form"], "shock angle of maximum deflection")
    close(phys.oblique_M2(M, s, g), 1.0, 1e-8, f"downstream Mach at sonic angle {s} M={c['M']} g={g}")
    close(d, phys.deflection(M, s, g), 1e-9, f"sonic deflection M={c['M']} g={g}", atol=1e-9)
    require(s <= sm + 1e-9, f"sonic angle {s} over maximum-deflection angle {sm} M={c['M']} g={g}")


# ---------------------------------------------------------------------------------------------- C09
rule("C09", "M in [1.02,50], shock angle fraction 0.002..0.999 of [Mach angle, 90], g in [1.02,3], tolerance omitted or 1e-4..1e-8; "
     "inverses on weak attached cases; reference: Taylor-Maccoll in velocity components, DOP853 at 1e-11.")


def taylor_maccoll(M, sig, g):
    s = np.radians(sig)
    d = np.radians(phys.deflection(M, sig, g))
    M2 = phys.oblique_M2(M, sig, g)
    V = 1 / np.sqrt(2 / ((g - 1) * M2 * M2) + 1)

    def f(th, y):
        vr, vt = y
        A = 0.5 * (g - 1) * (1 - vr * vr - vt * vt)
        return [vt, (vt * vt * vr - A * (2 * vr + vt / np.tan(th))) / (A - vt * vt)]

    e = lambda th, y: y[1]
    e.terminal = True
    r = solve_ivp(f, (s, 1e-6), [V * np.cos(s - d), -V * np.sin(s - d)], method="DOP853", rtol=1e-11, atol=1e-13, events=e)
    if not len(r.t_events[0]):
        return None
    return np.degrees(r.t_events[0][0])


con = dict(M=real(1.02, 50.0, log=True, special=[2.0, 3.0, 1.5]) | real(1.05, 5.0), t=real(0.002, 0.999, special=[0.5, 0.1]), g=gammas(1.05, 1.67) | gammas(1.02, 3.0), gs=gstyles())


@sub("C09", "direct", st.fixed_dictionaries(dict(con, tol=st.sampled_from([None, None, 1e-4, 1e-5, 1e-7, 1e-8]))), quick=150, weight=5)
def c09_direct(c, x):
    g = eff_gamma(c)
    M = c["M"]
    mu = np.degrees(np.arcsin(1 / M))
    s = mu + c["t"] * (90 - mu)
    ref = taylor_maccoll(M, s, g)
    if ref is None:
        raise OutOfDomain
    kw = {} if c["tol"] is None else dict(tol=c["tol"])
    if c["gs"] in ("kw", "mix"):  # one gamma at a time
        kw["gamma"] = c["g"]
    a = (M, s, c["g"]) if c["gs"] == "pos" else (M, s)
    d = flt(sw.conical_deflection_Mach_sigma(*a, **kw), "cone angle")
    tol = c["tol"] or 1e-6
    close(d, ref, 0, f"cone angle M={M} sigma={s} g={g} tol={tol}", atol=(300 + 5 / (c["t"] * (M - 1))) * tol + 1e-6)
    require(phys.deflection(M, s, g) - 1e-6 <= d <= s + 1e-6, f"cone angle {d} out of [plane deflection, shock angle] M={M} sigma={s} g={g}")


def c09_inv(c, x, which):
    g = eff_gamma(c)
    M = c["M"]
    mu = np.degrees(np.arcsin(1 / M))
    s = mu + c["t"] * (phys.devmax(M, g)[0] - mu)
    ref = taylor_maccoll(M, s, g)
    if ref is None:
        raise OutOfDomain
    if which == "sigma":
        r = flt(gcall(sw.conical_sigma_Mach_walldeflection, c["g"], c["gs"])(M, ref), "conical shock angle")
        close(taylor_maccoll(M, r, g) or np.nan, ref, 0, f"cone angle of recovered shock angle {r} M={M} sigma={s} g={g}", atol=1e-2)
        if c["t"] <= (0.7 if M > 1.2 else 0.5):  # close to the largest cone angle two shock angles are possible
            close(r, s, 0, f"conical shock angle M={M} cone={ref} g={g}", atol=0.1)
    else:
        r = flt(gcall(sw.conical_Mach_walldeflection_sigma, c["g"], c["gs"])(ref, s), "conical upstream Mach")
        close(r, M, 1e-2, f"conical upstream Mach for cone={ref} sigma={s} g={g}")
        close(taylor_maccoll(r, s, g) or np.nan, ref, 0, f"cone angle of recovered Mach {r} M={M} sigma={s} g={g}", atol=1e-2)


INV = st.fixed_dictionaries(dict(con, t=real(0.005, 0.7, special=[0.2, 0.4]) | real(0.7, 0.97, special=[0.2, 0.4])))


@sub("C09", "inverse_sigma", INV, quick=40, weight=5)
def c09_inv_sigma(c, x):
    c09_inv(c, x, "sigma")


@sub("C09", "inverse_Mach", INV, quick=40, weight=5)
def c09_inv_mach(c, x):
    c09_inv(c, x, "Mach")
