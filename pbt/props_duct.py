"""C10, C11: Fanno and Rayleigh flows."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad

from pbt.core import Violation, close, eff_gamma, ev, forms, gcall, gstyles, num, real, require, rule, sub
from pbt import phys
from pbt.phys import pt, tt

import aerokit.aero.Fanno as fa
import aerokit.aero.Rayleigh as ra

wideg = real(1.01, 3.0, special=[1.4, 1.4, 1.3, 5.0 / 3.0, 1.2, 2.0])
mach = real(1e-4, 1e3, log=True, special=[1.0, 1.0, 0.5, 2.0, 1 + 1e-8, 1 - 1e-8]) | real(0.05, 3.0)
machs = st.lists(mach, min_size=1, max_size=4)
FB = dict(M=machs, g=wideg, gs=gstyles(), form=forms())


def allof(mod, names, c):
    M = phys.within(np.array(c["M"]), eff_gamma(c))
    return [ev(gcall(getattr(mod, n), c["g"], c["gs"]), M, c["form"], n) for n in names]


rule("C10", "M log-uniform in [1e-4,1e3] with 1 and neighbours, g in [1.01,3], all calling forms.")
NAMES = ["Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri", "NormdS"]


def at_one(mod, names, c, g):
    for n in names:
        v = ev(gcall(getattr(mod, n), c["g"], c["gs"]), [1.0], "scalar", n)[0]
        ref = 0.0 if n in ("NormdS", "maxFparam_Mach") else 1.0
        close(v, ref, 0, f"{n} at the critical state g={g}", atol=1e-12)


@sub("C10", "ratios", st.fixed_dictionaries(FB), quick=700)
def c10_ratios(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    p, T, rho, pi, V, s = allof(fa, NAMES, c)
    w = f"M={c['M']} g={g}"
    close(p, rho * T, 1e-11, "Fanno perfect-gas law " + w)
    close(rho * V, 1.0, 1e-11, "Fanno mass flux " + w)
    close(T * tt(M, g), tt(1.0, g), 1e-11, "Fanno total temperature " + w)
    close(V, M * np.sqrt(T), 1e-11, "Fanno velocity, sound speed and Mach number " + w)
    close(pi, p * pt(M, g) / pt(1.0, g), 1e-9, "Fanno total pressure " + w)
    close(s, np.log(T) - (g - 1) / g * np.log(p), 1e-10, "Fanno entropy " + w, atol=1e-11)
    close(s, -(g - 1) / g * np.log(pi), 1e-9, "Fanno entropy and total pressure " + w, atol=1e-11)
    require(s <= 1e-12, f"Fanno entropy {s} not maximal at M=1 {w}")
    far = np.abs(M - 1) > 1e-4
    require(s[far] < 0, f"Fanno entropy {s} not maximal at M=1 {w}")
    at_one(fa, NAMES, c, g)
    x.label("subsonic", bool(M.min() < 1))
    x.label("supersonic", bool(M.max() > 1))


@sub("C10", "friction", st.fixed_dictionaries(FB), quick=500)
def c10_friction(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    f = gcall(fa.maxFparam_Mach, c["g"], c["gs"])
    F = ev(f, M, c["form"], "friction parameter")
    for m, v in zip(M, F):
        # momentum balance dp + rho u du = -rho u^2/2 dF, integrated to the sonic state over ln M^2
        ref = quad(lambda l: (1 - np.exp(l)) / (g * np.exp(l) * (1 + 0.5 * (g - 1) * np.exp(l))), 2 * np.log(m), 0.0, epsabs=1e-13, epsrel=1e-11)[0]
        close(v, ref, 1e-8, f"friction parameter to choking M={m} g={g}", atol=1e-12)
        if abs(m - 1) > 1e-4:
            require(v > 0, f"friction parameter {v} not positive M={m} g={g}")
        h = 1e-5 * m
        d = (float(f(m + h)) - float(f(m - h))) / (2 * h)
        dref = -2 * (1 - m * m) / (g * m**3 * tt(m, g))
        close(d, dref, 1e-5, f"d(friction parameter)/dM at M={m} g={g}", atol=1e-6 / m)
    at_one(fa, ["maxFparam_Mach"], c, g)


rule("C11", "M log-uniform in [1e-4,1e3] with 1 and neighbours, g in [1.01,3], all calling forms; total temperature ratios from M.")
RN = NAMES + ["Ti_Ticri"]


@sub("C11", "ratios", st.fixed_dictionaries(FB), quick=700)
def c11_ratios(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    p, T, rho, pi, V, s, ti = allof(ra, RN, c)
    w = f"M={c['M']} g={g}"
    close(p, rho * T, 1e-11, "Rayleigh perfect-gas law " + w)
    close(rho * V, 1.0, 1e-11, "Rayleigh mass flux " + w)
    close(p * (1 + g * M * M), 1 + g, 1e-11, "Rayleigh impulse " + w)
    close(V, M * np.sqrt(T), 1e-11, "Rayleigh velocity, sound speed and Mach number " + w)
    close(ti, T * tt(M, g) / tt(1.0, g), 1e-11, "Rayleigh total temperature " + w)
    close(pi, p * pt(M, g) / pt(1.0, g), 1e-9, "Rayleigh total pressure " + w)
    close(s, np.log(T) - (g - 1) / g * np.log(p), 1e-10, "Rayleigh entropy " + w, atol=1e-11)
    require(ti <= 1 + 1e-12, f"Rayleigh total temperature {ti} not maximal at M=1 {w}")
    require(s <= 1e-12, f"Rayleigh entropy {s} not maximal at M=1 {w}")
    at_one(ra, RN, c, g)


@sub("C11", "max_heating", st.fixed_dictionaries(FB), quick=400)
def c11_max(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    v = ev(gcall(ra.maxTiratio_Mach, c["g"], c["gs"]), M, c["form"], "maximum heating ratio")

    def ref(q):
        return (1 + q * M * M) ** 2 / (2 * (q + 1) * M * M * tt(M, q))

    try:
        close(v, ref(g), 1e-10, f"maximum heating ratio M={c['M']} g={g}")
    except Violation as e:
        close(v, ref(1.4), 1e-10, f"maximum heating ratio M={c['M']} g={g}, neither of g nor of 1.4")
        x.known("rayleigh-max-gamma", str(e))


@sub("C11", "inverse", st.fixed_dictionaries(dict(FB, sup=st.booleans())), quick=600)
def c11_inv(c, x):
    g = eff_gamma(c)
    M = phys.within(np.array(c["M"]), g)
    M = np.where((M > 1) == c["sup"], M, 1 / M)  # on the requested side
    M = np.clip(M, 1e-5, 1000)
    t = np.minimum(2 * (g + 1) * M * M * tt(M, g) / (1 + g * M * M) ** 2, 1.0)
    f = ra.SupMach_TiTicri if c["sup"] else ra.SubMach_TiTicri
    m = ev(gcall(f, c["g"], c["gs"]), t, c["form"], f.__name__)
    require(m > 0, f"{f.__name__} of {t} g={g}: {m}")
    require(m >= 1 - 1e-7 if c["sup"] else m <= 1 + 1e-7, f"{f.__name__} of {t} g={g}: {m} is not on the named side")
    # the root of a very cold flow is a small difference of numbers of order 1
    cold = 5e-15 / t if not c["sup"] else 0 * t
    err = np.abs(2 * (g + 1) * m * m * tt(m, g) / (1 + g * m * m) ** 2 / t - 1)
    require(err <= 1e-10 + cold, f"total temperature ratio of Mach from {f.__name__} of {t} g={g}: relative error {err}")
    k = np.abs(M - 1) > 1e-3
    require(np.abs(m / M - 1)[k] <= (1e-9 * (1 + M**2) + cold)[k], f"{f.__name__}: Mach {m} instead of {M} g={g}")
