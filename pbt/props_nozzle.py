"""C18, C19, C20: nozzle regimes, nozzle fields, default gas register."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, close, ev, flt, forms, gammas, num, real, require, rule, sub
from pbt import phys

import aerokit.instance.nozzle as nz
import aerokit.common.defaultgas as dg
from aerokit.aero import Isentropic as Is, MassFlow as mf, ShockWave as sw, Supersonic as su, Fanno, Rayleigh
from aerokit.aero.model1D import state


# ---------------------------------------------------------------------------------------------- references
def limits(s, g):
    """NPR0, NPRsw, NPR1, subsonic, behind-shock and supersonic exit Mach numbers"""
    mb, mp = phys.mach_sigma(s, g, False), phys.mach_sigma(s, g, True)
    _, p, _, M2, _ = phys.nshock(mp, g)
    return phys.pt(mb, g), phys.pt(mp, g) / p, phys.pt(mp, g), mb, M2, mp


def choked_exit(s, npr, g):
    """subsonic exit Mach number of a choked nozzle: static pressure 1/npr, mass flow of a unit throat"""
    q = phys.weight(1.0, g) * npr / s
    lo, hi = 0.0, 1.5
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if m in (lo, hi):
            break
        if m * np.sqrt(g * phys.tt(m, g)) < q:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def near1_tol(s):
    """Mach number sensitivity to round-off of the area ratio near the throat"""
    return 1e-9 + min(3e-7, 1e-14 / np.sqrt(max(s - 1.0, 1e-16)))


# ---------------------------------------------------------------------------------------------- C18
rule("C18", "area ratio 1+[1e-9..5000] log-uniform in (ratio-1) or uniform in [1,12]; NPR placed by regime: fraction of each interval between "
     "limits computed by bisection from isentropic/Rankine-Hugoniot relations, or just beside a limit (relative offset 1e-12..1e-3).")
areas = st.one_of(real(1e-9, 5e3, log=True).map(lambda v: 1.0 + v), real(1.0, 12.0, special=[1.0, 2.0]))


@sub("C18", "limits", st.fixed_dictionaries(dict(s=st.lists(areas, min_size=1, max_size=5), form=forms(), g=gammas(1.1) | gammas(1.03, 3.0))), quick=800)
def c18_limits(c, x):
    s, f = np.array(c["s"]), c["form"]
    ref = [limits(v, 1.4) for v in s]
    tol = [10 * near1_tol(v) for v in s]
    for k, fn in enumerate((nz.NPR_choked_subsonic, nz.NPR_shock_at_exit, nz.NPR_choked_supersonic)):
        v = ev(fn, s, f)
        for a, r, t, ss in zip(v, ref, tol, s):
            close(a, r[k], t, f"{fn.__name__} of {ss}")
    for v in s:
        n0, n1, n2 = (flt(fn(float(v))) for fn in (nz.NPR_choked_subsonic, nz.NPR_shock_at_exit, nz.NPR_choked_supersonic))
        require(1 < n0 * (1 + 1e-9) and n0 <= n1 * (1 + 1e-6) and n1 <= n2 * (1 + 1e-6), f"order of limits {n0} {n1} {n2} for area ratio {v}")
        if v > 1.001:
            require(n0 < n1 < n2, f"order of limits {n0} {n1} {n2} for area ratio {v}")
    # limits and exit Mach numbers of a nozzle object with its own gamma
    g, v = c["g"], float(s[0])
    N = nz.nozzle(np.arange(3.0), np.array([1.5 * v, 1.0, v]), gamma=g)
    for nm, r in zip(("NPR0", "NPRsw", "NPR1", "Msub", "Msh", "Msup"), limits(v, g)):
        close(getattr(N, nm), r, 10 * near1_tol(v), f"{nm} of nozzle with exit/throat {v} gamma {g}")


regime = st.fixed_dictionaries(dict(s=areas, reg=st.sampled_from(["sub", "int", "int", "over", "over", "under"]), f=real(0.0, 1.0, special=[0.5]),
                                    near=st.none() | st.none() | st.tuples(st.integers(0, 2), st.sampled_from([-1.0, 0.0, 1.0]), real(1e-12, 1e-3, log=True)).map(list)))


def place(c, lim):
    n0, nsw, n1 = lim[:3]
    if c["near"]:
        k, sg, e = c["near"]
        return max(lim[k] * (1 + sg * e), 1 + 1e-9)
    f = c["f"]
    if c["reg"] == "sub":
        return 1 + (n0 - 1) * max(f, 1e-4)
    lo, hi = dict(int=(n0, nsw), over=(nsw, n1), under=(n1, n1 * 30))[c["reg"]]
    return lo * (hi / lo) ** f


def expected_exit(s, npr, g, lim):
    """list of acceptable (regime, exit Mach, adapted Mach)"""
    n0, nsw, n1, mb, msh, mp = lim
    t = 3e-9 + 10 * near1_tol(s)
    out = []
    if npr < n0 * (1 + t):
        m = phys.mach_pt(npr, g)
        out.append(("sub", m, m))
    if n0 * (1 - t) < npr < nsw * (1 + t):
        m = choked_exit(s, npr, g)
        out.append(("int", m, m))
    if nsw * (1 - t) < npr < n1 * (1 + t):
        p = max(n1 / npr, 1.0)
        n = min(np.sqrt(1 + (p - 1) * (g + 1) / (2 * g)) / mp, 1.0)
        r, pp, T, _, _ = phys.nshock(mp * n, g)
        m = mp * np.sqrt((1 - n * n) + r * r * n * n) / np.sqrt(T)
        out.append(("over", mp, m))
    if npr > n1 * (1 - t):
        out.append(("under", mp, phys.mach_pt(npr, g)))
    return out


@sub("C18", "exit", regime, quick=2500)
def c18_exit(c, x):
    s, g = c["s"], 1.4
    lim = limits(s, g)
    npr = place(c, lim)
    exp = expected_exit(s, npr, g, lim)
    for e in exp:
        x.label(e[0])
    Ms, Ma = flt(nz.Ms_from_AsAc_NPR(s, npr)), flt(nz.Madapt_from_AsAc_NPR(s, npr))
    t = 1e-8 + 10 * near1_tol(s)

    def ta(e):  # round-off of the normal component when the shock of the jet is almost normal, or vanishing when M almost 1
        return t + (1e-7 if e[0] == "over" else 0)

    require(any(abs(Ms - e[1]) <= t * (1 + e[1]) for e in exp), f"exit Mach {Ms} for As/Ac={s} NPR={npr}, expected {exp}")
    require(any(abs(Ma - e[2]) <= ta(e) * (1 + e[2]) for e in exp), f"adapted Mach {Ma} for As/Ac={s} NPR={npr}, expected {exp}")
    # conservation statements, without the reference solution
    regs = {e[0] for e in exp}
    if regs == {"int"}:
        close(Ms * np.sqrt(g * phys.tt(Ms, g)) * s / npr, phys.weight(1.0, g), 1e-9 + 1e-15 * s * s, f"mass flow at exit, As/Ac={s} NPR={npr}")
        require(Ms < 1 + 1e-6 and phys.pt(Ms, g) <= npr * (1 + 1e-9), f"total pressure gain, As/Ac={s} NPR={npr} Ms={Ms}")
    elif regs == {"sub"}:
        close(phys.pt(Ms, g), npr, 1e-10, f"exit pressure, As/Ac={s} NPR={npr}")
        require(phys.weight(Ms, g) * s <= phys.weight(1.0, g) * (1 + 1e-9), f"mass flow over choking, As/Ac={s} NPR={npr}")
    if regs <= {"sub", "int"}:
        close(Ma, Ms, 1e-12, f"adapted and exit Mach, As/Ac={s} NPR={npr}")
    elif regs == {"over"}:
        require(Ma <= Ms * (1 + 1e-8), "over-expanded jet accelerated")
    elif regs == {"under"}:
        require(Ma >= Ms * (1 - 1e-8), "under-expanded jet decelerated")


@sub("C18", "continuity", st.fixed_dictionaries(dict(s=real(1e-3, 199.0, log=True).map(lambda v: 1.0 + v), e=real(1e-9, 1e-4, log=True))), quick=400)
def c18_cont(c, x):
    s, e = c["s"], c["e"]
    n0, nsw, n1 = (flt(f(s)) for f in (nz.NPR_choked_subsonic, nz.NPR_shock_at_exit, nz.NPR_choked_supersonic))
    e = min(e, 0.1 * (n0 - 1))
    both = lambda f, n: (flt(f(s, n * (1 - e))), flt(f(s, n * (1 + e))))
    M = flt(nz.Ms_from_AsAc_NPR(s, n0))
    k = 10 * e * n0 / (n0 - 1)  # dM/M = dNPR/(gamma M^2 ...)
    a, b = both(nz.Ms_from_AsAc_NPR, n0)
    require(abs(a - b) <= (k + 1e-7) * M, f"exit Mach jumps from {a} to {b} at choking, As/Ac={s}")
    a, b = both(nz.Ms_from_AsAc_NPR, n1)
    require(abs(a - b) <= 1e-9 * a, f"exit Mach jumps from {a} to {b} at adaptation, As/Ac={s}")
    a, b = both(nz.Ms_from_AsAc_NPR, nsw)
    _, _, _, mb, msh, mp = limits(s, 1.4)
    require(abs(a - msh) <= (5 * e + 1e-7) and abs(b - mp) <= 1e-7 * mp, f"exit Mach {a}, {b} beside the shock at exit ({msh}, {mp}), As/Ac={s}")
    a, b = both(nz.Madapt_from_AsAc_NPR, n1)
    # weak oblique shock near adaptation: change proportional to pressure change, singular only when exit is sonic
    require(abs(a - b) <= 1e-6 * b + 20 * e * b / max(mp - 1, 1e-2) + 3 * np.sqrt(e) * (mp < 1.05), f"adapted Mach jumps from {a} to {b} at adaptation, As/Ac={s}")
    a, b = both(nz.Madapt_from_AsAc_NPR, nsw)
    require(abs(a - b) <= 1e-6 + 5 * e + 60 * e * mp * mp, f"adapted Mach jumps from {a} to {b} at shock at exit, As/Ac={s}")


# ---------------------------------------------------------------------------------------------- C19
rule("C19", "section laws of 3..160 stations: smooth, random monotone, stepped, with plateau throat, purely convergent or divergent, non-monotone "
     "convergent part, exit/throat up to 60, any scale, throat between stations (forced AsoAc); g in [1.03,3]; NPR by regime or beside a limit; "
     "sequences of set_NPR.")

law = st.fixed_dictionaries(dict(
    nc=st.integers(0, 30), nd=st.integers(0, 130), up=real(1.0, 12.0), dn=areas.map(lambda v: min(v, 60.0)),
    shape=st.sampled_from(["power", "power", "random", "steps", "cos"]), p=real(0.4, 3.0), bump=st.booleans(),
    plateau=st.sampled_from([0, 0, 0, 1, 3]), scale=real(1e-3, 1e3, log=True), seed=st.integers(0, 10 ** 6), force=st.sampled_from([0.0, 0.0, 0.0, 1e-3, 0.02, 0.3]),
    xlist=st.booleans()))


def ramp(n, shape, p, rng):
    """n values increasing from above 0 to 1"""
    if n == 0:
        return np.zeros(0)
    t = np.arange(1, n + 1) / n
    if shape == "power":
        return t ** p
    if shape == "cos":
        return 0.5 - 0.5 * np.cos(np.pi * t)
    if shape == "steps":
        k = max(1, n // 5)
        v = np.ceil(t * k) / k
        return v
    w = np.cumsum(rng.random(n) ** 3 + 1e-6)
    return w / w[-1]


def build_law(l):
    """section array, throat index, forced area ratio or None, exit/throat"""
    rng = np.random.default_rng(l["seed"])
    nc, nd = l["nc"], l["nd"]
    if nc + nd < 2:
        nd += 3
    conv = 1 + (l["up"] - 1) * ramp(nc, l["shape"], l["p"], rng)[::-1]
    if l["bump"] and nc > 4:
        conv[1:-1] *= 1 + 0.3 * rng.random(nc - 2)
    div = 1 + (l["dn"] - 1) * ramp(nd, l["shape"], l["p"], rng)
    sec = np.concatenate([conv, np.ones(1 + l["plateau"]), div])
    force = None
    i = int(np.argmin(sec))
    ratio = sec[-1] / sec.min()
    if l["force"] and i < sec.size - 1:
        ratio *= 1 + l["force"]
        force = float(ratio)
    return sec * l["scale"], i, force, float(ratio)


def check_field(N, sec, i, s, g, npr, x, where):
    n = sec.size
    A = sec * s / sec[-1]  # over critical section
    M, Ps, Pt = (num(v, f"{nm} of nozzle {where}") for v, nm in ((N.Mach(), "Mach"), (N.Ps(), "Ps"), (N.Ptot(), "Ptot")))
    require(M.shape == Ps.shape == Pt.shape == (n,), f"field shapes {M.shape} {Ps.shape} {Pt.shape} {where}")
    require(M > 0, f"Mach not positive {where}")
    lim = limits(s, g)
    n0, nsw, n1 = lim[:3]
    close(Ps * phys.pt(M, g), Pt, 1e-10, f"total pressure of static state {where}")
    tl = 3e-9 + 10 * near1_tol(s)
    exact_sub, choked = npr < n0 * (1 - tl), npr > n0 * (1 + tl)
    # upstream reservoir, losses
    require(abs(Pt[: i + 1] - 1) <= 1e-12, f"total pressure upstream of throat {where}: {Pt[:i + 1].tolist()}")
    d = np.diff(Pt)
    jumps = np.nonzero(np.abs(d) > 1e-13)[0] + 1
    require(len(jumps) <= 1, f"{len(jumps)} total pressure changes {where}")
    require(Pt <= 1 + 1e-12, f"total pressure over reservoir one {where}")
    # mass flow
    W = Pt * phys.weight(M, g) * A
    if exact_sub:
        m = phys.mach_pt(npr, g)
        close(W, phys.weight(m, g) * s, 1e-9 + 3e-15 / (npr - 1), f"mass flow {where}")
    elif choked:
        close(W, phys.weight(1.0, g), 1e-9, f"mass flow {where}")
    else:
        close(W, W[0], 1e-7, f"mass flow {where}")
    require(M[: i + 1] <= 1 + 3e-7, f"supersonic before throat {where}")
    if npr < nsw * (1 - tl) and not (i == n - 1 and choked):
        close(Ps[-1] * npr, 1.0, 1e-9 + tl * 10, f"exit pressure times NPR {where}")
        require(M[-1] <= 1 + 3e-7, f"supersonic exit {where}")
    if exact_sub:
        require(len(jumps) == 0, f"total pressure loss in subsonic regime {where}")
        require(M <= 1 + 3e-7, f"supersonic flow in subsonic regime {where}")
    if npr > nsw * (1 + tl):
        require(len(jumps) == 0, f"total pressure loss in supersonic regime {where}")
        require(M[i + 1:] >= 1 - 3e-7, f"subsonic flow after throat in supersonic regime {where}")
    if len(jumps):
        k = int(jumps[0])
        q = Pt[-1]
        x.label("shock")
        require(k > i, f"shock at station {k} before throat {i} {where}")
        require(M[k:] <= 1 + 3e-7, f"supersonic after shock {where}")
        require(M[i + 1:k] >= 1 - 3e-7, f"subsonic between throat and shock {where}")
        # the loss is that of a normal shock whose upstream Mach number is found around this station
        lossA = lambda a: phys.ptloss(phys.mach_sigma(max(a, 1.0), g, True), g)
        prev, nxt = np.nonzero(A[:k] < A[k] * (1 - 1e-12))[0], np.nonzero(A[k:] > A[k] * (1 + 1e-12))[0]
        a0 = A[prev[-1]] if len(prev) and prev[-1] > i else 1.0
        hi = lossA(a0)
        lo = lossA(A[k + nxt[0]] if len(nxt) else A[-1])
        require(q <= hi * (1 + 1e-7), f"total pressure ratio {q} at station {k}: less loss than a shock at previous station {hi} {where}")
        if q < lo * (1 - 1e-7):
            # only if the section of previous stations is too small for the subsonic flow behind shock
            require(a0 * q < 1 + 1e-9 and k - 1 > i, f"total pressure ratio {q} at station {k}: more loss than a shock at next station {lo} {where}")
            x.label("moved weak shock")
    return M, Ps, Pt


nprs = st.fixed_dictionaries(dict(reg=st.sampled_from(["sub", "int", "int", "int", "over", "under"]), f=real(0.0, 1.0, special=[0.5]),
                                  near=st.none() | st.none() | st.none() | st.tuples(st.integers(0, 2), st.sampled_from([-1.0, 0.0, 1.0]), real(1e-12, 1e-2, log=True)).map(list)))


def domain(sec, i, s):
    """diverging part must not contain another throat"""
    require_mono = np.all(np.diff(sec[i:]) >= 0)
    if not require_mono:
        raise OutOfDomain()


@sub("C19", "field", st.fixed_dictionaries(dict(law=law, g=gammas(1.1) | gammas(1.03, 3.0), npr=nprs, how=st.sampled_from(["init", "set", "kw"]))), quick=900, weight=3)
def c19_field(c, x):
    sec, i, force, s = build_law(c["law"])
    domain(sec, i, s)
    g = c["g"]
    lim = limits(s, g)
    npr = place(c["npr"], lim)
    n = sec.size
    xs = np.linspace(0, 1, n)
    if c["law"]["xlist"]:
        xs = xs.tolist()
    keep = sec.copy()
    kw = dict(gamma=g)
    if force:
        kw["AsoAc"] = force
    if c["how"] == "init":
        N = nz.nozzle(xs, sec, NPR=npr, **kw)
    elif c["how"] == "kw":
        N = nz.nozzle(x=xs, section=sec, NPR=npr, **kw)
    else:
        N = nz.nozzle(xs, sec, **kw)
        N.set_NPR(npr)
    where = f"(gamma {g}, exit/throat {s}, NPR {npr}, limits {lim[:3]})"
    x.label("sub" if npr < lim[0] else "int" if npr < lim[1] else "over" if npr < lim[2] else "under")
    x.label("forced throat", bool(force))
    check_field(N, sec, i, s, g, npr, x, where)
    require(np.array_equal(sec, keep), "section array modified")
    require(int(N.ithroat) == i, f"throat index {N.ithroat} instead of {i}")
    close(N.AsoAc, s, 1e-12, "exit/throat")
    # theory of exit station
    exp = expected_exit(s, npr, g, lim)
    if not (i == n - 1):
        t = 1e-8 + 10 * near1_tol(s)
        require(any(abs(N.Mach()[-1] - e[1]) <= t * (1 + e[1]) for e in exp), f"exit Mach {N.Mach()[-1]}, expected {exp} {where}")


@sub("C19", "history", st.fixed_dictionaries(dict(law=law, g=gammas(1.1) | gammas(1.03, 3.0), nprs=st.lists(nprs, min_size=2, max_size=4) | st.lists(nprs, min_size=5, max_size=10))), quick=200, weight=4)
def c19_history(c, x):
    sec, i, force, s = build_law(c["law"])
    domain(sec, i, s)
    g = c["g"]
    lim = limits(s, g)
    seq = [place(v, lim) for v in c["nprs"]]
    xs = np.linspace(0, 1, sec.size)
    fresh = lambda v=None: nz.nozzle(xs, sec.copy(), AsoAc=force, gamma=g, NPR=v)
    N, other = fresh(), fresh(seq[0])
    held = []
    for v in seq:
        N.set_NPR(v)
        F = fresh(v)
        where = f"(gamma {g}, exit/throat {s}, NPR {v} after {seq}, limits {lim[:3]})"
        for nm in ("Mach", "Ps", "Ptot"):
            close(getattr(N, nm)(), num(getattr(F, nm)()), 1e-12, f"{nm} after changing NPR, compared to a new nozzle {where}")
            held.append((nm, v, getattr(N, nm)(), num(getattr(N, nm)()).copy()))
        check_field(N, sec, i, s, g, v, x, where)
    for nm, v, f, k in held:
        require(np.array_equal(f, k), f"{nm} read with NPR {v} was changed by later settings of {seq}")
    F = fresh(seq[0])
    for nm in ("Mach", "Ps", "Ptot"):
        close(getattr(other, nm)(), num(getattr(F, nm)()), 1e-12, f"{nm} of a nozzle left alone while another one is changed")


@sub("C19", "scale", st.fixed_dictionaries(dict(law=law, g=gammas(1.1) | gammas(1.03, 3.0), npr=nprs, k=real(1e-3, 1e3, log=True))), quick=250)
def c19_scale(c, x):
    """only ratios of sections matter"""
    sec, i, force, s = build_law(c["law"])
    domain(sec, i, s)
    lim = limits(s, c["g"])
    npr = place(c["npr"], lim)
    if min(abs(npr / v - 1) for v in lim[:3]) < 1e-7:
        raise OutOfDomain()
    k = 2.0 ** round(np.log2(c["k"]))
    a = nz.nozzle(None, sec, AsoAc=force, gamma=c["g"], NPR=npr)
    b = nz.nozzle(None, sec * k, AsoAc=force, gamma=c["g"], NPR=npr)
    for nm in ("Mach", "Ps", "Ptot"):
        close(getattr(b, nm)(), num(getattr(a, nm)()), 1e-9, f"{nm} with all sections multiplied by {k} (gamma {c['g']} NPR {npr} exit/throat {s})")


# ---------------------------------------------------------------------------------------------- C20
rule("C20", "histories of 1..25 operations set/get/save/restore of both registers (g in [1.05,1.8], r in [50,5000]) interleaved with nozzle "
     "constructions, flow states and flow-function calls with explicit or omitted gamma; model: two variables and one saved pair.")

# functions with gamma: (name, callable(gamma or None) -> value, reference(gamma))
FUN = {}


def _fun(name, f, *args, r=False):
    def call(g=None, rr=None):
        kw = {} if g is None else dict(gamma=g)
        if rr is not None:
            kw["r"] = rr
        return flt(f(*args, **kw), name)

    FUN[name] = (call, r)


_fun("TtTs_Mach", Is.TtTs_Mach, 1.7)
_fun("PtPs_Mach", Is.PtPs_Mach, 1.7)
_fun("Mach_TtTs", Is.Mach_TtTs, 1.9)
_fun("Mach_PtPs", Is.Mach_PtPs, 2.9)
_fun("Velocity_MachTt", Is.Velocity_MachTt, 1.2, 300.0, r=True)
_fun("WeightMassFlow", mf.WeightMassFlow, 0.7)
_fun("Sigma_Mach", mf.Sigma_Mach, 0.7)
_fun("Mach_Sigma", mf.Mach_Sigma, 1.7)
_fun("MachSub_Sigma", mf.MachSub_Sigma, 1.7)
_fun("MachSup_Sigma", mf.MachSup_Sigma, 1.7)
_fun("PrandtlMeyer_Mach", su.PrandtlMeyer_Mach, 2.2)
_fun("Mach_PrandtlMeyer", su.Mach_PrandtlMeyer, 22.0)
_fun("Mach_PMFmmu", su.Mach_PMFmmu, -10.0)
_fun("deflection_Mach_IsentropicPsratio", su.deflection_Mach_IsentropicPsratio, 2.2, 0.7)
_fun("IsentropicPsratio_Mach_deflection", su.IsentropicPsratio_Mach_deflection, 2.2, 7.0)
for _n in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio", "dev_Max", "dev_Sonic", "sigma_DevMax", "sigma_Sonic"):
    _fun(_n, getattr(sw, _n), 2.3)
_fun("Mn_Ps_ratio", sw.Mn_Ps_ratio, 3.3)
_fun("Mn_Pt_ratio", sw.Mn_Pt_ratio, 0.63)
_fun("deflection_Mach_sigma", sw.deflection_Mach_sigma, 2.3, 47.0)
_fun("deflection_Mach_ShockPsratio", sw.deflection_Mach_ShockPsratio, 2.3, 2.1)
_fun("downstreamMach_Mach_ShockPsratio", sw.downstreamMach_Mach_ShockPsratio, 2.3, 2.1)
_fun("weaksigma_Mach_deflection", sw.weaksigma_Mach_deflection, 2.9, 9.0)
_fun("strongsigma_Mach_deflection", sw.strongsigma_Mach_deflection, 2.9, 9.0)
_fun("sigma_Mach_deflection", sw.sigma_Mach_deflection, 2.9, 9.0)
_fun("conical_deflection_Mach_sigma", sw.conical_deflection_Mach_sigma, 2.3, 47.0)
_fun("Fanno.Ps_Pscri", Fanno.Ps_Pscri, 0.4)
_fun("Fanno.maxFparam_Mach", Fanno.maxFparam_Mach, 0.4)
_fun("Rayleigh.Ts_Tscri", Rayleigh.Ts_Tscri, 0.4)
FUN["state.Mach"] = (lambda g=None, rr=None: flt((state(1.2, 150.0, 1e5) if g is None else state(1.2, 150.0, 1e5, gamma=g)).Mach()), False)
NAMES = sorted(FUN)

gval = real(1.05, 1.8, special=[1.4, 1.3])
rval = real(50.0, 5000.0, log=True, special=[287.1, 518.0])
op = st.one_of(
    st.tuples(st.just("setg"), gval), st.tuples(st.just("setr"), rval), st.tuples(st.just("setg"), gval), st.tuples(st.just("setr"), rval),
    st.tuples(st.just("save")), st.tuples(st.just("restore")), st.tuples(st.just("save")), st.tuples(st.just("restore")),
    st.tuples(st.just("nozzle"), gval, real(1.05, 20.0, log=True)),
    st.tuples(st.just("omit"), st.sampled_from(NAMES)),
    st.tuples(st.just("explicit"), st.sampled_from(NAMES), gval, rval),
    st.tuples(st.just("npr"), areas, regime),
).map(list)


def reset():
    dg.set_gamma(1.4)
    dg.set_r_ideal(287.1)
    dg.save_default()


# explicit values at register 1.4 for fixed gammas are obtained when the case starts
wideg = st.one_of(real(1e-9, 1e3, log=True).map(lambda v: 1.0 + v), real(1.05, 1.8), st.integers(2, 5), st.sampled_from([1.0 + 1e-5, 1.4, 1.4000000000000001, 5 / 3]))
wider = st.one_of(real(1e-6, 1e6, log=True), st.integers(1, 9999), st.sampled_from([287.1, 287.05, 287.0, 1.0, 1e-12]))
regop = st.one_of(st.tuples(st.just("setg"), wideg), st.tuples(st.just("setr"), wider), st.tuples(st.sampled_from(["save", "restore"]))).map(list)


@sub("C20", "register", st.lists(regop, min_size=1, max_size=12), quick=800)
def c20_register(c, x):
    """pure register: what is read is what was set or restored last, whatever the values"""
    reset()
    try:
        dg.save_default()
        cur = {"setg": 1.4, "setr": 287.1}
        kept = dict(cur)
        for k, o in enumerate(c):
            if o[0] == "save":
                dg.save_default()
                kept = dict(cur)
            elif o[0] == "restore":
                dg.restore_default()
                cur = dict(kept)
            else:
                (dg.set_gamma if o[0] == "setg" else dg.set_r_ideal)(o[1])
                cur[o[0]] = o[1]
            got = (dg.gamma(), dg.r_ideal())
            require(got == (cur["setg"], cur["setr"]), f"register is {got} instead of {(cur['setg'], cur['setr'])} after {c[:k + 1]}")
    finally:
        reset()


@sub("C20", "history", st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=25))), quick=500, weight=2)
def c20_history(c, x):
    reset()
    try:
        want = {}
        for k, o in enumerate(c["ops"]):
            if o[0] == "explicit":
                want[k] = FUN[o[1]][0](o[2], o[3] if FUN[o[1]][1] else None)
        noz = {k: nz.nozzle(np.arange(4.0), np.array([2.0, 1.0, 1.3, 1.9]), gamma=o[1], NPR=o[2]) for k, o in enumerate(c["ops"]) if o[0] == "nozzle"}
        g, r = 1.4, 287.1
        saved = (g, r)
        for k, o in enumerate(c["ops"]):
            x.label(o[0])
            what = f"after {c['ops'][:k + 1]}"
            if o[0] == "setg":
                dg.set_gamma(o[1])
                g = o[1]
            elif o[0] == "setr":
                dg.set_r_ideal(o[1])
                r = o[1]
            elif o[0] == "save":
                dg.save_default()
                saved = (g, r)
            elif o[0] == "restore":
                dg.restore_default()
                g, r = saved
            elif o[0] == "nozzle":
                N = nz.nozzle(np.arange(4.0), np.array([2.0, 1.0, 1.3, 1.9]), gamma=o[1], NPR=o[2])
                for nm in ("Mach", "Ps", "Ptot"):
                    close(getattr(N, nm)(), num(getattr(noz[k], nm)()), 1e-12, f"nozzle {nm} with explicit gamma {o[1]} depends on the register {what}")
            elif o[0] == "explicit":
                f, hasr = FUN[o[1]]
                close(f(o[2], o[3] if hasr else None), want[k], 1e-12, f"{o[1]} with explicit gamma {o[2]} depends on the register {what}", atol=1e-300)
            elif o[0] == "omit":
                f, hasr = FUN[o[1]]
                v = f()
                new = f(g, r if hasr else None)
                old = f(1.4, 287.1 if hasr else None)
                if abs(v - new) > 1e-9 * abs(new):
                    if abs(v - old) <= 1e-9 * abs(old):
                        x.known("register-frozen-defaults", f"{o[1]} with omitted gamma gives {v} (value for 1.4) instead of {new} for default gamma {g}")
                    else:
                        raise Violation(f"{o[1]} with omitted gamma gives {v}: neither value for default gamma {g} ({new}) nor for 1.4 ({old}) {what}")
            elif o[0] == "npr":
                s = o[1]
                lim = limits(s, g)
                npr = place(o[2], lim)
                for nm, j in (("Ms_from_AsAc_NPR", 1), ("Madapt_from_AsAc_NPR", 2)):
                    v = flt(getattr(nz, nm)(s, npr))
                    ok = lambda es: any(abs(v - e[j]) <= (1e-7 + 20 * near1_tol(s)) * (1 + e[j]) for e in es)
                    if ok(expected_exit(s, npr, g, lim)):
                        continue
                    l4 = limits(s, 1.4)
                    e4 = expected_exit(s, npr, 1.4, l4)
                    if ok(e4):
                        x.known("register-frozen-defaults", f"{nm}({s},{npr}) gives {v} (value for 1.4) with default gamma {g}")
                    elif any(e[0] == "int" for e in e4) and ok([(0, choked_exit(s, npr, g), choked_exit(s, npr, g))]):
                        x.known("register-mixed-nozzle", f"{nm}({s},{npr}) gives {v}, formula of internal shock with default gamma {g} but limits with 1.4")
                    else:
                        raise Violation(f"{nm}({s},{npr}) gives {v} {what}")
            require(flt(dg.gamma()) == g, f"default gamma reads {dg.gamma()} instead of {g} {what}")
            require(flt(dg.r_ideal()) == r, f"default gas constant reads {dg.r_ideal()} instead of {r} {what}")
    finally:
        reset()


@sub("C20", "explicit", st.fixed_dictionaries(dict(n=st.sampled_from(NAMES), g=gval, r=rval, g2=gval, r2=rval)), quick=600)
def c20_explicit(c, x):
    reset()
    try:
        f, hasr = FUN[c["n"]]
        a = f(c["g"], c["r"] if hasr else None)
        dg.set_gamma(c["g2"])
        dg.set_r_ideal(c["r2"])
        b = f(c["g"], c["r"] if hasr else None)
        require(a == b or abs(a - b) <= 1e-12 * abs(a), f"{c['n']} with explicit gamma {c['g']}: {a} becomes {b} when default gas is set to {c['g2']}, {c['r2']}")
    finally:
        reset()


@sub("C20", "initial", st.fixed_dictionaries(dict(n=st.sampled_from(NAMES))), quick=60)
def c20_initial(c, x):
    """untouched register: 1.4 and 287.1, used by functions when omitted"""
    reset()
    f, hasr = FUN[c["n"]]
    v, w = f(), f(1.4, 287.1 if hasr else None)
    close(v, w, 1e-12, f"{c['n']} with omitted gamma", atol=1e-300)
