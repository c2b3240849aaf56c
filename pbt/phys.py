"""Independent perfect-gas formulas shared by the oracles (none of them calls the code under test)."""
import numpy as np


def tt(M, g):
    return 1.0 + 0.5 * (g - 1.0) * M * M


def pt(M, g):
    return np.exp(g / (g - 1.0) * np.log1p(0.5 * (g - 1.0) * M * M))


def within(M, g):
    """Mach numbers reduced where the total pressure ratio would not fit a floating-point number"""
    return np.minimum(M, np.sqrt(2.0 / (g - 1.0) * np.expm1(500.0 * (g - 1.0) / g)))


def mach_pt(P, g):
    return np.sqrt(np.expm1((g - 1.0) / g * np.log(P)) * 2.0 / (g - 1.0))


def weight(M, g):
    """dimensionless isentropic mass flow rho u sqrt(r Tt)/Pt, from static quantities"""
    return M * np.sqrt(g * tt(M, g)) / pt(M, g)


def sigma(M, g):
    lnw = lambda m: np.log(m) - 0.5 * (g + 1.0) / (g - 1.0) * np.log1p(0.5 * (g - 1.0) * m * m)
    return np.exp(lnw(1.0) - lnw(M))


def mach_sigma(s, g, sup):
    """Mach number of A/A*, bisection"""
    if s <= 1.0:
        return 1.0
    lo, hi = (1.0, 2.0) if sup else (0.0, 1.0)
    if sup:
        while sigma(hi, g) < s:
            lo, hi = hi, 2 * hi
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if m in (lo, hi):
            break
        if (sigma(m, g) < s) == sup:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def pmang(M, g):
    a = np.sqrt((g + 1.0) / (g - 1.0))
    b = np.sqrt(np.maximum(M * M - 1.0, 0.0))
    return np.degrees(a * np.arctan(b / a) - np.arctan(b))


def mach_pm(om, g):
    lo, hi = 1.0, 2.0
    while pmang(hi, g) < om:
        lo, hi = hi, 2 * hi
        if hi > 1e8:
            return np.inf
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if m in (lo, hi):
            break
        if pmang(m, g) < om:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def nshock(M, g):
    """normal shock from momentum: velocity ratio u2/u1, pressure, temperature ratios, downstream Mach, total pressure ratio"""
    r = (g - 1.0) / (g + 1.0) + 2.0 / ((g + 1.0) * M * M)
    p = 1.0 + g * M * M * (1.0 - r)
    T = p * r
    M2 = M * r / np.sqrt(T)
    return r, p, T, M2, p * pt(M2, g) / pt(M, g)


def ptloss(M, g):
    """total pressure ratio of a normal shock (entropy form)"""
    r, p, T, M2, q = nshock(M, g)
    return np.exp(-(g / (g - 1.0)) * np.log(T) + np.log(p))


def deflection(M, sig, g):
    """angle (deg) between velocities on both sides of a shock at angle sig (deg)"""
    s = np.radians(sig)
    n, t = np.sin(s), np.cos(s)
    r = nshock(M * n, g)[0]
    return np.degrees(s - np.arctan2(r * n, t))


def oblique_M2(M, sig, g):
    s = np.radians(sig)
    n, t = np.sin(s), np.cos(s)
    r, p, T, _, _ = nshock(M * n, g)
    return M * np.sqrt(t * t + r * r * n * n) / np.sqrt(T)


def devmax(M, g):
    """(shock angle, deflection) at maximum deflection, golden-section search"""
    a, b = np.degrees(np.arcsin(1.0 / M)), 90.0
    k = 0.5 * (np.sqrt(5.0) - 1)
    c, d = b - k * (b - a), a + k * (b - a)
    fc, fd = deflection(M, c, g), deflection(M, d, g)
    for _ in range(70):
        if fc > fd:
            b, d, fd = d, c, fc
            c = b - k * (b - a)
            fc = deflection(M, c, g)
        else:
            a, c, fc = c, d, fd
            d = a + k * (b - a)
            fd = deflection(M, d, g)
    s = 0.5 * (a + b)
    return s, deflection(M, s, g)


def obl_sigma(M, d, g, strong=False):
    """shock angle of a deflection below the maximum, bisection"""
    sm, dm = devmax(M, g)
    if d >= dm:
        return None
    lo, hi = (90.0, sm) if strong else (np.degrees(np.arcsin(1.0 / M)), sm)
    for _ in range(100):
        m = 0.5 * (lo + hi)
        if deflection(M, m, g) < d:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)
