"""C33: curves and markers drawn by the polar plots."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, close, gammas, num, real, require, rule, sub
from pbt import phys

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.colors as mcolors
import aerokit.aero.plot.shockpolar as sp
import aerokit.aero.plot.isentropicpolar as ip
import aerokit.aero.plot.defaultstyle as ds

rule("C33", "M in [1.001,151], g in [1.02,3] given or omitted, sides, markers, shift, scale, number of points, styles and target axes; "
     "data read back from the axes and substituted in the relations of phys.py.")

machs = real(1.05, 20.0, log=True, special=[2.0, 3.0, 1.5]) | real(1e-3, 150.0, log=True).map(lambda e: 1.0 + e)
OPTS = dict(M=machs, g=gammas(1.1) | gammas(1.02, 3.0), gs=st.sampled_from(["kw", "kw", "omit"]), npts=st.none() | st.integers(2, 60) | st.integers(100, 500), devmax=st.booleans(), sonic=st.booleans(),
            color=st.none() | st.sampled_from(["b", "red", "#123456"]), ls=st.none() | st.sampled_from(["-", "--", ":"]), lw=st.none() | st.sampled_from([1.0, 3.5]),
            intm=st.booleans())


def kwargs(c):
    kw = {}
    for k, n in (("npts", "npts"), ("color", "color"), ("ls", "linestyle"), ("lw", "linewidth")):
        if c[k] is not None:
            kw[n] = c[k]
    for k in ("devmax", "sonic"):
        if c[k]:
            kw[k] = True
    if c["gs"] == "kw":
        kw["gamma"] = c["g"]
    g = c["g"] if c["gs"] == "kw" else 1.4
    M = c["M"]
    if c["intm"]:
        M = max(2, int(round(M)))
    return M, g, kw


def read(ax, c, what):
    lines = [(num(l.get_xdata(), what), num(l.get_ydata(), what), l) for l in ax.get_lines()]
    curves = [l for l in lines if l[0].size > 1]
    marks = [l for l in lines if l[0].size == 1]
    for x, y, l in curves:
        require(mcolors.same_color(l.get_color(), c["color"] or "k"), f"{what}: colour {l.get_color()}")
        require(l.get_linestyle() == (c["ls"] or "-"), f"{what}: line style {l.get_linestyle()}")
        if c["lw"] is not None:
            require(l.get_linewidth() == c["lw"], f"{what}: line width {l.get_linewidth()}")
    return curves, marks


def sonic_angle(M, g):
    """shock angle with sonic downstream flow, bisection between the Mach angle and 90"""
    lo, hi = np.degrees(np.arcsin(1.0 / M)), 90.0
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if m in (lo, hi):
            break
        if phys.oblique_M2(M, m, g) > 1.0:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def markers(c, M, g, marks, sides, X, Y, what):
    """X(side, deflection), Y(shock angle) transform to the axes of the plot"""
    want = []
    if c["devmax"]:
        s, d = phys.devmax(M, g)
        # the angle of a maximum is only known to the square root of round-off
        want += [("maximum deflection", X(k, d), Y(s), 1e-5) for k in sides]
    if c["sonic"]:
        s = sonic_angle(M, g)
        want += [("sonic", X(k, phys.deflection(M, s, g)), Y(s), 1e-6) for k in sides]
    require(len(marks) == len(want), f"{what}: {len(marks)} markers instead of {len(want)}")
    left = [(float(x[0]), float(y[0]), l.get_color(), l.get_markerfacecolor()) for x, y, l in marks]
    styles = {}
    for n, wx, wy, tol in want:
        j = [i for i, (x, y, _, _) in enumerate(left) if abs(x - wx) <= 1e-6 * (1 + abs(wx)) and abs(y - wy) <= tol * (1 + abs(wy))]
        require(bool(j), f"{what}: no marker at {n} point ({wx}, {wy}) for M={M} g={g}, markers {left}")
        left.pop(j[0])


SIDES = {"right": [1], "left": [-1], "both": [1, -1]}


@sub("C33", "shock_angle", st.fixed_dictionaries(dict(curve=st.sampled_from(["right", "left", "both", None]), **OPTS)), quick=400)
def c33_angle(c, x):
    M, g, kw = kwargs(c)
    if c["curve"]:
        kw["curve"] = c["curve"]
    sides = SIDES[c["curve"] or "both"]
    fig = plt.figure()
    try:
        sp.plot_theta_sigma(M, **kw)
        curves, marks = read(plt.gca(), c, "shock angle polar")
    finally:
        plt.close(fig)
    require(len(curves) == len(sides), f"{len(curves)} curves for side {c['curve']}")
    mu = np.degrees(np.arcsin(1.0 / M))
    found = []
    for X, Y, l in curves:
        require(X.size >= (c["npts"] or 100), f"{X.size} points instead of {c['npts'] or 100}")
        close(np.sort([Y[0], Y[-1]]), [mu, 90.0], 1e-9, f"ends of the curve, M={M}")
        require(np.all(np.diff(Y) * np.sign(Y[-1] - Y[0]) > 0), "shock angles are not ordered along the curve")
        d = phys.deflection(M, Y, g)
        side = np.sign(X[np.argmax(np.abs(X))])
        found.append(side)
        close(side * X, d, 1e-9, f"deflection along the curve M={M} g={g}", atol=1e-8)
    require(sorted(found) == sorted(sides), f"sides {found} instead of {sides}")
    markers(c, M, g, marks, sides, lambda k, d: k * d, lambda s: s, "shock angle polar")
    x.label("markers", c["devmax"] or c["sonic"])


@sub("C33", "shock_pressure", st.fixed_dictionaries(dict(curve=st.sampled_from(["right", "left", "both", None]), th=st.none() | real(-60.0, 60.0, special=[0.0]), p=st.none() | real(1e-3, 1e6, log=True, special=[1.0]), own=st.booleans(), **OPTS)), quick=500)
def c33_pressure(c, x):
    M, g, kw = kwargs(c)
    if c["curve"]:
        kw["curve"] = c["curve"]
    if c["th"] is not None:
        kw["thet_init"] = c["th"]
    if c["p"] is not None:
        kw["p_init"] = c["p"]
    th, p = c["th"] or 0.0, 1.0 if c["p"] is None else c["p"]
    sides = SIDES[c["curve"] or "both"]
    fig, axs = plt.subplots(1, 2)
    try:
        ax = axs[0]
        plt.sca(axs[1])
        if c["own"]:
            kw["ax"] = ax
        else:
            ax = axs[1]
        other = axs[1] if c["own"] else axs[0]
        sp.plot_theta_pressure(M, **kw)
        curves, marks = read(ax, c, "shock pressure polar")
        require(not other.get_lines(), "lines drawn on other axes")
    finally:
        plt.close(fig)
    require(len(curves) == len(sides), f"{len(curves)} curves for side {c['curve']}")
    pn = phys.nshock(M, g)[1]
    mu = np.degrees(np.arcsin(1.0 / M))
    found = []
    for X, Y, l in curves:
        require(X.size >= (c["npts"] or 100), f"{X.size} points instead of {c['npts'] or 100}")
        X, Y = X - th, Y / p
        close(np.sort([Y[0], Y[-1]]), [1.0, pn], 1e-8, f"pressure at the ends of the curve, M={M} g={g}")
        require(np.all(np.diff(Y) * np.sign(Y[-1] - Y[0]) > 0), "pressures are not ordered along the curve")
        # shock angle of this pressure ratio, then deflection
        Mn2 = 1.0 + (Y - 1.0) * (g + 1.0) / (2.0 * g)
        t = Mn2 / M**2
        tan = np.sqrt(np.maximum(t, 0) / np.maximum(1 - t, 1e-300))
        r = (g - 1.0) / (g + 1.0) + 2.0 / ((g + 1.0) * Mn2)
        d = np.degrees(np.arctan(tan) - np.arctan(r * tan))
        side = np.sign(X[np.argmax(np.abs(X))])
        found.append(side)
        # near the normal shock the deflection is the square root of the pressure difference
        close(side * X, d, 1e-7, f"deflection along the curve M={M} g={g}", atol=3e-6 * (1 + 1 / r))
    require(sorted(found) == sorted(sides), f"sides {found} instead of {sides}")
    P = lambda s: p * phys.nshock(M * np.sin(np.radians(s)), g)[1]
    if c["p"] is None or c["p"] >= 1:
        markers(c, M, g, marks, sides, lambda k, d: th + k * d, P, "shock pressure polar")
    else:
        sc = [(xx, yy / p, l) for xx, yy, l in marks]
        markers(c, M, g, sc, sides, lambda k, d: th + k * d, lambda s: P(s) / p, "shock pressure polar")
    x.label("markers", c["devmax"] or c["sonic"])
    x.label("shifted or scaled", th != 0 or p != 1)


@sub("C33", "isentropic", st.fixed_dictionaries(dict(curve=st.sampled_from(["C+", "c+", "C-", "c-", "both", None]), th=st.none() | real(-60.0, 60.0, special=[0.0]), p=st.none() | real(1e-3, 1e6, log=True, special=[1.0]),
                                                     a=real(0.0, 1.0), b=real(0.0, 1.0), **OPTS)), quick=500)
def c33_isen(c, x):
    M, g, kw = kwargs(c)
    om = phys.pmang(M, g)
    mx = 90.0 * (np.sqrt((g + 1) / (g - 1)) - 1)
    lo, hi = om - 0.9 * mx, 0.99 * om  # range of deflections of a C+ characteristic
    if c["curve"] in ("C-", "c-"):
        lo, hi = -hi, -lo
    elif c["curve"] == "both":
        hi = min(hi, -lo)
        lo = -hi
    if not lo < hi:
        raise OutOfDomain()
    d0, d1 = lo + (hi - lo) * c["a"], lo + (hi - lo) * c["b"]
    if abs(d1 - d0) < 1e-3 * (hi - lo):
        raise OutOfDomain()
    kw["curve"] = c["curve"]
    if c["curve"] is None:
        del kw["curve"]
    if c["th"] is not None:
        kw["thet_init"] = c["th"]
    if c["p"] is not None:
        kw["p_init"] = c["p"]
    th, p = c["th"] or 0.0, 1.0 if c["p"] is None else c["p"]
    kw.pop("devmax", None)
    kw.pop("sonic", None)
    fig = plt.figure()
    try:
        ip.plot_theta_pressure(M, [d0, d1], **kw)
        curves, marks = read(plt.gca(), c, "isentropic polar")
    finally:
        plt.close(fig)
    want = {"both": [1, -1], "C-": [-1], "c-": [-1]}.get(c["curve"], [1])
    require(len(curves) == len(want), f"{len(curves)} curves for {c['curve']}")
    require(not marks, "unexpected markers")
    left = list(want)
    for X, Y, l in curves:
        require(X.size >= (c["npts"] or 100), f"{X.size} points instead of {c['npts'] or 100}")
        X = X - th
        close(np.sort([X[0], X[-1]]), np.sort([d0, d1]), 1e-9, "ends of the curve", atol=1e-9)
        require(np.all(np.diff(X) * np.sign(X[-1] - X[0]) > 0), "deflections are not ordered along the curve")
        err = {}
        # Mach number along the curve from the pressure, then Prandtl-Meyer angle difference
        q = phys.pt(M, g) / (Y / p)
        if np.any(q <= phys.pt(1.0, g) * (1 - 1e-9)):
            raise Violation(f"subsonic pressure on the isentropic polar M={M} g={g}")
        d = om - phys.pmang(np.maximum(phys.mach_pt(q, g), 1.0), g)
        ok = [k for k in left if np.all(np.abs(k * X - d) <= 1e-6 * (1 + np.abs(d)))]
        require(bool(ok), f"isentropic polar M={M} g={g} {c['curve']}: deflections {X[:3]}.. have pressures {Y[:3] / p}, of deflections {d[:3]}")
        left.remove(ok[0])
    x.label("both families", len(want) == 2)


@sub("C33", "figures", st.fixed_dictionaries(dict(kind=st.sampled_from(["sigma", "pressure"]), size=st.none() | st.tuples(real(3.0, 8.0), real(3.0, 8.0)).map(list), M=machs)), quick=40)
def c33_fig(c, x):
    kw = {} if c["size"] is None else dict(figsize=tuple(c["size"]))
    f = ds.figure_theta_sigma(**kw) if c["kind"] == "sigma" else ds.figure_theta_pressure(**kw)
    try:
        require(f is plt.gcf(), "returned figure is not the current one")
        if c["size"] is not None:
            close(f.get_size_inches(), c["size"], 1e-9, "figure size")
        require(plt.gca().get_yscale() == ("linear" if c["kind"] == "sigma" else "log"), f"vertical scale {plt.gca().get_yscale()}")
        if c["kind"] == "sigma":
            sp.plot_theta_sigma(c["M"])
        else:
            sp.plot_theta_pressure(c["M"])
        require(len(plt.gca().get_lines()) == 2 and len(f.axes) == 1, "curves are not drawn on the figure")
    finally:
        plt.close("all")
