"""C12..C17: 1D states, unsteady waves, Riemann and inflow problems."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import OutOfDomain, Violation, close, ev, expect_raises, flt, forms, gammas, num, real, require, rule, sub, undisturbed
from pbt import phys

import aerokit.aero.model1D as m1d
import aerokit.aero.unsteady1D as uq
import aerokit.instance.riemann as riem
import aerokit.instance.unsteady_inflow as inflow

mag = real(1e-6, 1e6, log=True, special=[1.0, 0.125, 0.1, 1.4, 101325.0])
dens = real(1e-4, 1e4, log=True, special=[1.0, 0.125, 1.4])

# ---------------------------------------------------------------------------------------------- C12
rule("C12", "density and pressure over 12 decades, M in +-20, g in [1.05,1.67] scalar or per element, scalar and array states of both "
     "state classes; chains of up to 6 copy/index/RH/isentropic/rebuild/mirror operations; reference: plain (rho,u,p,g) model.")


def derived(rho, u, p, g):
    a = np.sqrt(g * p / rho)
    M = u / a
    return dict(asound=a, Mach=M, left_acoustic=u - a, right_acoustic=u + a, massflow=rho * u, Ptot=p * phys.pt(np.abs(M), g),
                rTtot=p / rho * phys.tt(M, g))


def check_state(q, mod, what, n):
    rho, u, p, g = mod
    for k, v in derived(rho, u, p, g).items():
        f = getattr(q, k)()
        sc = np.max(np.abs(u) + np.sqrt(g * p / rho)) if "acoustic" in k else 0.0
        close(f, v, 1e-9, f"{k} of state {what} (rho,u,p,g)={mod}", atol=1e-13 * sc)
        require(np.shape(f) == np.shape(v), f"{k} of state {what}: shape {np.shape(f)} instead of {np.shape(v)}")
    require(q.size == n, f"size {q.size} of state {what} instead of {n}")


def snapshot(q):
    return [np.array(v, dtype=float) for v in (q.rho, q.u, q.p, q.asound(), q.Ptot(), q.rTtot())]


@sub("C12", "shapes", st.fixed_dictionaries(dict(shape=st.sampled_from([[2], [2, 3], [1, 3], [4, 1], [2, 1, 2], [1]]), full=st.lists(st.booleans(), min_size=4, max_size=4), seed=st.integers(0, 10 ** 6), unsteady=st.booleans(), i=st.integers(0, 3), ints=st.sampled_from([None, None, "int64", "int32"]))), quick=300)
def c12_shapes(c, x):
    """each of density, velocity, pressure and gamma is a scalar or an array of any number of dimensions"""
    r = np.random.default_rng(c["seed"])
    sh = tuple(c["shape"])
    rho, p, M, g = (r.uniform(lo, hi, sh) if f else float(r.uniform(lo, hi)) for (lo, hi), f in zip(((0.1, 5.0), (0.1, 5.0), (-3.0, 3.0), (1.05, 1.67)), c["full"]))
    u = M * np.sqrt(1.4)
    if c["ints"]:  # values of integer type
        rho, p, u = (np.rint(v).astype(c["ints"]) if np.ndim(v) else int(round(v)) for v in (rho + 1, p + 1, u * 3))
        x.label("integers")
    q = (uq.unsteady_state if c["unsteady"] else m1d.state)(rho, u, p, g)
    mod = (rho, u, p, g)
    for w in ("built", "copied"):
        check_state(q, mod, f"{w} with shapes {[np.shape(v) for v in mod]}", rho.size if c["full"][0] else 1)
        q = q.copy()
    if c["full"][0] and c["full"][1] and c["full"][2]:
        i = c["i"] % sh[0]
        new = tuple(v[i] if np.ndim(v) else v for v in mod)
        check_state(q[i], new, f"element {i} of shapes {[np.shape(v) for v in mod]}", np.size(new[0]))
        x.label("element of a state")
    x.label("several dimensions", len(sh) > 1)


stop = st.one_of(
    st.tuples(st.just("copy")),
    st.tuples(st.just("index"), st.integers(-3, 3)),
    st.tuples(st.just("slice"), st.integers(0, 1) | st.sampled_from([[None, None, -1], [None, -1, None], [-2, None, None], [None, None, 2], "mask", "list", "neglist", "npint"])),
    st.tuples(st.just("RH")),
    st.tuples(st.just("RH")),
    st.tuples(st.just("mirror")),
    st.tuples(st.just("assign"), st.sampled_from(["rho", "p", "u"]), real(0.3, 3.0, log=True), st.booleans()),
    st.tuples(st.just("isen"), real(-8.0, 8.0, special=[1.0, 0.5, 2.0, 0.0])),
    st.tuples(st.just("pt_rtt_M"), mag, mag, real(-8.0, 8.0, special=[1.0, 0.5, 2.0, 0.0])),
    st.tuples(st.just("pt_rtt_u"), mag, mag, real(-0.999, 0.999, special=[0.0])),
    st.tuples(st.just("pt_rtt_p"), mag, mag, real(1e-4, 1.0, log=True, special=[1.0])),
)


@sub("C12", "chains", st.fixed_dictionaries(dict(
        cells=st.lists(st.tuples(mag, mag, real(-20.0, 20.0, special=[0.0, 1.0, -1.0, 2.0, 3.0]), gammas()), min_size=1, max_size=4),
        array=st.booleans(), garr=st.booleans(), omit=st.booleans(), unsteady=st.booleans(), ops=st.lists(stop, max_size=6) | st.lists(stop, min_size=6, max_size=20), tile=st.sampled_from([1, 1, 1, 1, 9, 60]))), quick=900)
def c12(c, x):
    rho, p, M, g = np.tile(np.array(c["cells"]).T, c["tile"])
    if not c["array"]:
        rho, p, M, g = (float(v[0]) for v in (rho, p, M, g))
    elif not c["garr"]:
        g = float(g[0])
    if c["omit"]:
        g = 1.4
    cls = uq.unsteady_state if c["unsteady"] else m1d.state
    u = M * np.sqrt(g * p / rho)
    q = cls(rho, u, p) if c["omit"] else cls(rho, u, p, g)
    mod = (rho, u, p, g)
    n = len(rho) if c["array"] else 1
    arr = c["array"]
    check_state(q, mod, "built", n)
    old = []
    for k, o in enumerate(c["ops"]):
        w = f"after operation {k} {o}"
        rho, u, p, g = mod
        old.append((q, snapshot(q), w))
        d = derived(*mod)
        inplace = False
        if o[0] == "copy":
            r, new = q.copy(), mod
            if isinstance(q, uq.unsteady_state) and arr:
                # a copy does not follow later changes of the values of its origin
                keep = {k: np.copy(getattr(r, k)) for k in ("rho", "u", "p")}
                for k in keep:
                    v = getattr(q, k)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v += 1.0
                        require(np.array_equal(getattr(r, k), keep[k]), f"copy of an unsteady state shares {k} with its origin")
                        v[...] = keep[k]
        elif o[0] == "mirror":
            if not hasattr(q, "copysymmetric"):
                continue
            r, new = q.copysymmetric(), (rho, -u, p, g)
        elif o[0] in ("index", "slice"):
            if not arr or np.ndim(rho) == 0:
                continue
            nr = len(rho)
            if o[0] == "index":
                i = o[1] if -nr <= o[1] < nr else o[1] % nr  # negative ones count from the end
            elif isinstance(o[1], int):
                i = slice(o[1], None)
            elif isinstance(o[1], list):
                i = slice(*o[1])
            else:
                i = dict(mask=np.arange(nr) % 2 == 0, list=[nr - 1, 0], neglist=np.array([-1, 0, -1]), npint=np.arange(nr)[::-1])[o[1]]
            if np.size(rho[i]) == 0:
                continue
            r = q[i]
            new = (rho[i], u[i], p[i], g[i] if np.ndim(g) else g)
            if o[0] == "index":
                arr, n = False, 1
            else:
                n = len(new[0])
            x.label("indexed")
        elif o[0] == "assign":
            # a value of the state changed by its user, by assignment or within its array
            r = q
            old = [s for s in old if not any(np.shares_memory(getattr(s[0], k), getattr(q, k)) for k in ("rho", "u", "p")) and s[0] is not q]
            new = tuple(v * o[2] if k == o[1] else v for k, v in zip(("rho", "u", "p", "g"), mod))
            if o[3] and arr and isinstance(getattr(q, o[1]), np.ndarray):
                getattr(q, o[1])[...] *= o[2]
                x.label("changed in place")
            else:
                setattr(q, o[1], getattr(q, o[1]) * o[2])
                x.label("assigned")
        elif o[0] == "RH":
            M = np.abs(d["Mach"])
            if np.any(M < 1.02 * np.sqrt(0.5 * (g - 1) / g) + 0.02):
                continue
            r = q.state_RH()
            s = phys.nshock(M, g)
            new = (rho / s[0], u * s[0], p * s[1], g)
            e = lambda z: derived(*z)["rTtot"]
            x.label("RH")
            got = (num(r.rho), num(r.u), num(r.p), g)
            close(got[0] * got[1], rho * u, 1e-9, f"mass flux {w}")
            close(got[2] + got[0] * got[1] ** 2, p + rho * u * u, 1e-9, f"momentum flux {w}")
            close(e(got), e(mod), 1e-9, f"total enthalpy {w}")
        elif o[0] == "isen":
            r = q.state_isentropic_Mach(o[1])
            ps = d["Ptot"] / phys.pt(abs(o[1]), g)
            ts = d["rTtot"] / phys.tt(o[1], g)
            new = (ps / ts, o[1] * np.sqrt(g * ts), ps, g)
            x.label("isentropic")
        else:
            # rebuilt from total quantities, scaled by a value per case
            pt, rtt = o[1], o[2]
            one = np.ones_like(np.asarray(rho)) if arr else 1.0
            inplace = True
            r = q.copy()
            if o[0] == "pt_rtt_M":
                r.compute_from_pt_rtt_M(pt * one, rtt * one, o[3] * one)
                m = o[3]
            elif o[0] == "pt_rtt_u":
                vmax = np.sqrt(2 * g / (g - 1) * rtt)
                uu = o[3] * vmax
                r.compute_from_pt_rtt_u(pt * one, rtt * one, uu * one)
                m = uu / np.sqrt(g * (rtt - 0.5 * (g - 1) / g * uu**2))
            else:
                m = phys.mach_pt(1 / o[3], g) if o[3] < 1 else 0.0 * np.asarray(g) * one
                r.compute_from_pt_rtt_p(pt * one, rtt * one, pt * o[3] * one)
            ts = rtt / phys.tt(m, g)
            ps = pt / phys.pt(np.abs(m), g)
            new = (ps / ts * one, m * np.sqrt(g * ts) * one, ps * one, g)
            x.label("rebuilt")
        a = np.sqrt(new[3] * new[2] / new[0])
        close(r.rho, new[0], 1e-8, f"density {w}")
        close(r.p, new[2], 1e-8, f"pressure {w}")
        close(r.u, new[1], 1e-8, f"velocity {w}", atol=float(np.max(1e-8 * a)))
        # continue from the values of the object itself, with the gamma of the model
        mod = (num(r.rho, w) if arr else flt(r.rho, w), num(r.u, w) if arr else flt(r.u, w), num(r.p, w) if arr else flt(r.p, w), new[3])
        check_state(r, mod, w, n)
        q = r
    for q0, s, w in old:
        for a, b in zip(snapshot(q0), s):
            require(np.array_equal(a, b, equal_nan=True), f"a state was modified by later operations ({w}): {b} became {a}")
    x.label("array", c["array"])
    x.label("gamma array", c["array"] and c["garr"] and not c["omit"])


# ---------------------------------------------------------------------------------------------- C13
rule("C13", "density, pressure over 12 decades, M in +-100, pressure ratios log-uniform in [1e-8,1e8] (down to 1e-15 through expansions) and close to 1, g in [1.02,3], "
     "scalar/array pressures and states.")
base = dict(rho=mag, p=mag, M=real(-10.0, 10.0, special=[0.0, 1.0]) | real(-100.0, 100.0), g=gammas() | gammas(1.02, 3.0), form=forms())
up = real(1.0, 1e8, log=True, special=[1.0, 2.0]) | real(1e-8, 1.0, log=True).map(lambda e: 1 + e)


def mk(c, n=None):
    g = c["g"]
    a = np.sqrt(g * c["p"] / c["rho"])
    u = c["M"] * a
    return uq.unsteady_state(c["rho"], u, c["p"], g), a, u


@sub("C13", "shock", st.fixed_dictionaries(dict(base, r=st.lists(up, min_size=1, max_size=4))), quick=700)
def c13_shock(c, x):
    q, a, u = mk(c)
    g, rho, p = c["g"], c["rho"], c["p"]
    P = np.array(c["r"]) * p
    du = ev(q.delta_u_shock, P, c["form"], "velocity change through shock")
    rs = ev(q.rho_through_shock, P, c["form"], "density through shock")
    w = f"{c}"
    k = P > p
    require(du[~k] == 0, f"velocity change {du} without pressure change {w}")
    close(rs[~k], rho, 1e-12, f"density without pressure change {w}")
    require(du[k] > 0, f"velocity change {du} of a compression {w}")
    # Mach number of the shock from momentum, then all jumps of the normal shock
    Ms = np.sqrt(1 + (g + 1) / (2 * g) * ((P - p) / p))
    r = 2 / (g + 1) * (Ms - 1 / Ms)
    weak = 1e-15 / np.maximum(P / p - 1, 1e-16)
    require(np.abs(du / a - r)[k] <= (1e-10 + 10 * weak)[k] * r[k] + 1e-15, f"velocity change {du} through shock instead of {r*a} {w}")
    close(rs, rho / phys.nshock(Ms, g)[0], 1e-11, f"density through shock {w}")
    # fluxes in the frame of the (right-running) shock
    j = rho * Ms * a
    close(rs * (Ms * a - du), j, 1e-10, f"mass flux through shock {w}")
    close(P + j * (Ms * a - du), p + j * Ms * a, 1e-10, f"momentum flux through shock {w}")
    h = g / (g - 1)
    close(h * P / rs + 0.5 * (Ms * a - du) ** 2, h * p / rho + 0.5 * (Ms * a) ** 2, 1e-10, f"total enthalpy through shock {w}")
    x.label("weak", bool(P.min() < p * 1.001))
    x.label("strong", bool(P.max() > 100 * p))


@sub("C13", "expansion", st.fixed_dictionaries(dict(base, r=st.lists(real(1e-8, 1.0, log=True, special=[1.0, 0.5]) | real(1e-15, 1e-7, log=True) | real(0.9, 1.1), min_size=1, max_size=4))), quick=700)
def c13_exp(c, x):
    q, a, u = mk(c)
    g, rho, p = c["g"], c["rho"], c["p"]
    P = np.array(c["r"]) * p
    du = ev(q.delta_u_expansion, P, c["form"], "velocity change through expansion")
    rs = ev(q.rho_through_isentropic, P, c["form"], "density through isentropic wave")
    close(np.log(P / p), g * np.log(rs / rho), 1e-9, f"entropy through expansion {c}", atol=1e-12)
    a2 = np.sqrt(g * P / rs)
    close(du, 2 / (g - 1) * (a2 - a), 1e-9, f"Riemann invariant through expansion {c}", atol=1e-11 * a / (g - 1))


@sub("C13", "junction_mirror", st.fixed_dictionaries(dict(base, r=real(1e-4, 1e4, log=True))), quick=400)
def c13_junction(c, x):
    q, a, u = mk(c)
    g, rho, p = c["g"], c["rho"], c["p"]
    for e in (1e-3, 1e-2):
        d1, d2 = flt(q.delta_u_shock(p * (1 + e))), flt(q.delta_u_expansion(p * (1 + e)))
        d3 = flt(q.delta_u_expansion(p * (1 - e)))
        close(d1, e * p / (rho * a), 1.1 * e, f"slope of shock branch at own pressure {c}")
        close(d3, -e * p / (rho * a), 1.1 * e, f"slope of expansion branch at own pressure {c}")
        require(abs(d1 - d2) <= e**3 * a + 1e-11 * a, f"shock and expansion branches do not join to second order {c}: {d1} {d2}")
        require(abs(flt(q.rho_through_shock(p * (1 + e))) - flt(q.rho_through_isentropic(p * (1 + e)))) <= e**3 * rho + 1e-11 * rho, f"densities do not join {c}")
    s = q.copysymmetric()
    close(s.u, -u, 0, "velocity of mirrored state")
    P = p * c["r"]
    for n in ("delta_u_shock", "delta_u_expansion", "rho_through_shock", "rho_through_isentropic"):
        close(getattr(s, n)(P), flt(getattr(q, n)(P)), 1e-12, f"{n} of mirrored state {c}")
    close(s.asound(), q.asound(), 1e-14, f"sound speed of mirrored state {c}")


@sub("C13", "shock_velocity", st.fixed_dictionaries(dict(base, Ms=real(1.0, 1e3, log=True, special=[1.0, 2.0]), side=st.sampled_from([-1, 1]))), quick=500)
def c13_ws(c, x):
    q, a, u = mk(c)
    f = getattr(q, "_rankinehugoniot_from_ushock", None)
    if f is None:
        raise OutOfDomain
    g, rho, p = c["g"], c["rho"], c["p"]
    W = u + c["side"] * c["Ms"] * a
    r = f(W)
    r2, u2, p2 = flt(r.rho), flt(r.u), flt(r.p)
    w = f"for shock velocity {W} {c}"
    tol = 1e-9 * (1 + abs(c["M"]))
    v, v2 = u - W, u2 - W
    close(r2 * v2, rho * v, tol, "mass flux " + w)
    close(p2 + r2 * v2**2, p + rho * v**2, tol, "momentum flux " + w)
    h = g / (g - 1)
    close(h * p2 / r2 + 0.5 * v2**2, h * p / rho + 0.5 * v**2, tol, "total enthalpy " + w)
    require(p2 >= p * (1 - 1e-12 * (1 + abs(c["M"]))), "pressure decreases through shock " + w)
    close(flt(r.asound()) ** 2 * r2 / p2, g, 1e-10, "gamma of jump state " + w)
    if c["Ms"] > 1.001:
        require(p2 > p, "no jump " + w)
    m = q.copysymmetric()._rankinehugoniot_from_ushock(-W)
    close(m.u, -u2, 1e-11, "mirrored jump velocity " + w, atol=1e-12 * abs(W))
    close(m.p, p2, 1e-11, "mirrored jump pressure " + w)


# ---------------------------------------------------------------------------------------------- Riemann problems
# du in units of the vacuum limit if positive, of the sum of sound speeds if negative
gam2 = gammas(1.1, 1.67) | gammas(1.03, 3.0)
rp = dict(rL=dens, pL=dens, kr=real(1e-5, 1e5, log=True, special=[1.0, 1.0 + 1e-6, 0.125, 1.0 + 1e-10]), kp=real(1e-5, 1e5, log=True, special=[1.0, 1.0 + 1e-6, 0.1, 1.0 + 1e-10]),
          du=real(-6.0, 0.95, special=[0.0, 0.0, 1e-8, -1e-8, 0.5]), base=real(-5.0, 5.0, special=[0.0, 0.0]), gL=gam2, gR=gam2, sameg=st.booleans(),
          eq=st.sampled_from(["", "", "", "", "rho", "p", "all"]))
# same, but given by the strengths ln(p*/p) of both waves, from acoustic to very strong ones
strength = st.builds(lambda x, neg: -x if neg else x, real(1e-7, 11.0, log=True) | real(1e-3, 3.0), st.booleans())
rpw = dict(rp, xL=strength, xR=strength)
RP = st.fixed_dictionaries(rp) | st.fixed_dictionaries(rpw)
# densities, velocities and pressures of whole numbers, given as integers
mid = real(1.0, 100.0, log=True)
rpi = dict(rp, rL=mid, pL=real(1.0, 1e4, log=True), kr=real(0.01, 100.0, log=True, special=[1.0]), kp=real(0.01, 100.0, log=True, special=[1.0]), ints=st.just(True))
RP = RP | RP | RP | st.fixed_dictionaries(rpi)
RTXT = ("density and pressure over 8 decades with ratios up to 1e5 both ways, nearly equal and identical states, velocity difference from strong "
        "collision to 95 % of the vacuum limit, any mean velocity, independent g in [1.03,3] on each side; or given by the strengths "
        "|ln(p*/p)| of both waves from 1e-7 to 11. Expansions whose star sound speed is below 1e-12 of the velocities (contact and tail "
        "not distinct numbers) are out of domain. One problem out of four has whole densities, velocities and pressures given as integers; the "
        "states given to the solver are changed afterwards.")


class RPb:
    """reference solution"""

    def __init__(self, c):
        gL = c["gL"]
        gR = gL if c["sameg"] else c["gR"]
        rL, pL = c["rL"], c["pL"]
        rR = rL if c["eq"] in ("rho", "all") else rL * c["kr"]
        pR = pL if c["eq"] in ("p", "all") else pL * c["kp"]
        if "xL" in c:
            pR = pL * np.exp(c["xL"] - c["xR"])
            uL = c["base"] * np.sqrt(gL * pL / rL)
            self.set(rL, uL, pL, gL, rR, 0.0, pR, gR)
            lp = np.log(pL) + c["xL"]
            return self.set(rL, uL, pL, gL, rR, uL - self.fk(lp, self.L) - self.fk(lp, self.R), pR, gR) and None
        if c["eq"] == "all":
            gR = gL
        aL, aR = np.sqrt(gL * pL / rL), np.sqrt(gR * pR / rR)
        k = c["du"] if c["eq"] != "all" else 0.0
        du = k * (2 * aL / (gL - 1) + 2 * aR / (gR - 1)) if k > 0 else k * (aL + aR)
        uL = c["base"] * max(aL, aR)
        uR = uL + du
        self.set(rL, uL, pL, gL, rR, uR, pR, gR)
        if c.get("ints"):
            self.set(*[max(round(v), 1) if k % 4 != 1 else round(v) for k, v in enumerate((rL, uL, pL))], gL, *[max(round(v), 1) if k != 1 else round(v) for k, v in enumerate((rR, uR, pR))], gR)
            if self.R[1] - self.L[1] > 0.95 * (2 * self.aL / (gL - 1) + 2 * self.aR / (gR - 1)):
                raise OutOfDomain
            self.ints = True

    ints = False

    def set(self, rL, uL, pL, gL, rR, uR, pR, gR):
        self.L, self.R = (float(rL), float(uL), float(pL), float(gL)), (float(rR), float(uR), float(pR), float(gR))
        self.aL, self.aR = np.sqrt(gL * pL / rL), np.sqrt(gR * pR / rR)
        return self

    def solve(self):
        L, R = self.L, self.R
        lo, hi = np.log(min(L[2], R[2])), np.log(max(L[2], R[2]))
        f = self.f
        d = 1.0
        while f(lo) > 0:
            lo -= d
            d *= 2
            if lo < -700:
                raise OutOfDomain
        d = 1.0
        while f(hi) < 0:
            hi += d
            d *= 2
        for _ in range(200):
            m = 0.5 * (lo + hi)
            if m in (lo, hi):
                break
            if f(m) > 0:
                hi = m
            else:
                lo = m
        self.lp = 0.5 * (lo + hi)
        self.ps = float(np.exp(self.lp))
        self.uscale = self.aL + self.aR + abs(L[1]) + abs(R[1])
        self.us = 0.5 * (L[1] - self.fk(self.lp, L) + R[1] + self.fk(self.lp, R))
        e = 1e-6
        # sensitivity of ln p* to velocity round-off
        slope = (f(self.lp + e) - f(self.lp - e)) / (2 * e)
        self.tol = 1e-9 + 2e-14 * self.uscale / slope
        self.utol = 1e-9 * (self.aL + self.aR) + 1e-13 * self.uscale + 1e-12 * max(abs(self.fk(self.lp, L)), abs(self.fk(self.lp, R)))
        self.rsL, self.asL = self.star(L)
        self.rsR, self.asR = self.star(R)
        for S, a in ((L, self.asL), (R, self.asR)):
            # expansion nearly to vacuum: its tail and the contact are the same number, u - x/t is all round-off
            if self.lp < np.log(S[2]) and a < 1e-12 * self.uscale:
                raise OutOfDomain
        self.wL = self.waves(L, self.aL, self.rsL, self.asL, -1)
        self.wR = self.waves(R, self.aR, self.rsR, self.asR, 1)
        return self

    def fk(self, lp, S):
        r, u, p, g = S
        a = np.sqrt(g * p / r)
        x = lp - np.log(p)
        if x > 0:
            Ms = np.sqrt(1 + (g + 1) / (2 * g) * np.expm1(x))
            # Ms - 1/Ms = (Ms^2-1)/Ms
            return a * 2 / (g + 1) * ((g + 1) / (2 * g) * np.expm1(x)) / Ms
        return 2 * a / (g - 1) * np.expm1((g - 1) / (2 * g) * x)

    def f(self, lp):
        return self.fk(lp, self.L) + self.fk(lp, self.R) + self.R[1] - self.L[1]

    def star(self, S):
        r, u, p, g = S
        x = self.lp - np.log(p)
        if x > 0:
            Ms = np.sqrt(1 + (g + 1) / (2 * g) * np.expm1(x))
            rs = r / phys.nshock(Ms, g)[0]
        else:
            rs = r * np.exp(x / g)
        return rs, np.sqrt(g * self.ps / rs)

    def waves(self, S, a, rs, as_, side):
        r, u, p, g = S
        x = self.lp - np.log(p)
        if x > 0:
            w = u + side * a * np.sqrt(1 + (g + 1) / (2 * g) * np.expm1(x))
            return w, w
        return u + side * a, self.us + side * as_

    def states(self):
        t = int if self.ints else float
        return tuple(uq.unsteady_state(*[t(v) for v in S[:3]], S[3]) for S in (self.L, self.R))

    def sample(self, xi):
        """(rho,u,p,g) at x/t"""
        if xi < self.us:
            S, a, s, (head, tail), rs = self.L, self.aL, 1, self.wL, self.rsL
            out, fan = xi < head, head <= xi < tail
        else:
            S, a, s, (head, tail), rs = self.R, self.aR, -1, self.wR, self.rsR
            out, fan = xi > head, tail < xi <= head
        r, u, p, g = S
        if out:
            return S
        if fan:
            v = 2 / (g + 1) * (s * a + 0.5 * (g - 1) * u + xi)
            c = s * (v - xi)
            k = c / a
            return r * k ** (2 / (g - 1)), v, p * k ** (2 * g / (g - 1)), g
        return rs, self.us, self.ps, g


def problem(c):
    R = RPb(c).solve()
    qL, qR = R.states()
    P = riem.riemann_pb(qL, qR)
    require((qL.rho, qL.u, qL.p, qR.rho, qR.u, qR.p) == R.L[:3] + R.R[:3], "initial states were modified")
    # the caller goes on with his states: nothing to do with the solution
    for q, k in ((qL, 3.0), (qR, 0.2)):
        q.rho, q.u, q.p = q.rho * k, q.u + k, q.p * k * k
    return R, P


rule("C14", RTXT)


@sub("C14", "star_state", RP, quick=700)
def c14(c, x):
    R, P = problem(c)
    ps, us = flt(P.pstar(), "star pressure"), flt(P.ustar(), "star velocity")
    require(ps > 0, f"star pressure {ps}")
    w = f"L={R.L} R={R.R}"
    require(abs(np.log(ps) - R.lp) <= R.tol, f"star pressure {ps} instead of {R.ps} (tolerance {R.tol:.2g}) {w}")
    require(abs(us - R.us) <= R.utol, f"star velocity {us} instead of {R.us} {w}")
    for q, S, rs, as_, a, n in ((P.qstarL(), R.L, R.rsL, R.asL, R.aL, "left"), (P.qstarR(), R.R, R.rsR, R.asR, R.aR, "right")):
        require(flt(q.p) == ps and flt(q.u) == us, f"{n} star state has another pressure or velocity {w}")
        close(q.rho, rs, 1e-8 + 2 * R.tol, f"{n} star density {w}")
        close(flt(q.asound()) ** 2 * flt(q.rho) / ps, S[3], 1e-10, f"gamma of {n} star state {w}")
        shock = R.lp > np.log(S[2])
        x.label(n + (" shock" if shock else " expansion"))
    lf, rf = flt(P.left_fastest()), flt(P.right_fastest())
    # wave speed error through M_shock ~ sqrt(p*/p)
    wt = 1e-8 + R.tol
    close(lf, R.wL[0], 0, f"left-most wave speed {w}", atol=R.utol + wt * abs(R.wL[0] - R.L[1]))
    close(rf, R.wR[0], 0, f"right-most wave speed {w}", atol=R.utol + wt * abs(R.wR[0] - R.R[1]))
    require(lf <= us <= rf, f"wave speeds are not ordered {lf} {us} {rf} {w}")
    # jump relations with the reported speeds
    for q, S, W, n in ((P.qstarL(), R.L, lf, "left"), (P.qstarR(), R.R, rf, "right")):
        r, u, p, g = S
        if ps > p * (1 + 1e-6):
            m = r * (u - W)
            sc = abs(m) * 1e-8 + r * R.utol
            require(abs(flt(q.rho) * (us - W) - m) <= sc + abs(m) * R.tol + flt(q.rho) * R.utol, f"mass flux through {n} shock {w}")
            require(abs(ps - p + m * (us - u)) <= (1e-8 + R.tol) * (ps + abs(m * (us - u))) + abs(m) * R.utol, f"momentum through {n} shock {w}")
    # tails of expansions: star state between tail and contact, acoustic line just inside the fan
    for q, S, W, n, sd in ((P.qstarL(), R.L, R.wL, "left", 1), (P.qstarR(), R.R, R.wR, "right", -1)):
        if R.lp - np.log(S[2]) < -1e-3:
            head, tail = W
            a_ = sd * (us - tail)
            y = np.array([tail + sd * f * a_ for f in (0.01, 0.5, 0.98)] + [head + f * (tail - head) for f in (0.02, 0.5, 0.98)])
            s_ = P.qsol(y)
            rr, uu, pp = num(s_.rho, "density"), num(s_.u, "velocity"), num(s_.p, "pressure")
            if 0.01 * a_ > 1e-6 * abs(tail - head) + 1e3 * R.utol:
                ok = (np.abs(pp[:3] / ps - 1) < 1e-9) & (np.abs(rr[:3] / flt(q.rho) - 1) < 1e-9) & (np.abs(uu[:3] - us) <= 1e-9 * (a_ + abs(us)))
                require(ok, f"between tail {tail} of the {n} expansion and contact: density {rr[:3]} velocity {uu[:3]} pressure {pp[:3]} instead of the star state {w}")
            if 0.02 * abs(tail - head) > 1e3 * R.utol:
                ac = uu[3:] - sd * np.sqrt(S[3] * pp[3:] / rr[3:])
                close(ac, y[3:], 0, f"acoustic speed inside the {n} expansion {w}", atol=1e-6 * abs(tail - head) + 10 * R.utol)


@sub("C14", "vacuum", st.fixed_dictionaries(dict(rp, k=real(1.001, 5.0))), quick=60)
def c14_vac(c, x):
    R = RPb(dict(c, du=1.0, eq=""))
    (rL, uL, pL, gL), (rR, uR, pR, gR) = R.L, R.R
    uR = uL + c["k"] * (2 * R.aL / (gL - 1) + 2 * R.aR / (gR - 1))
    qL, qR = uq.unsteady_state(rL, uL, pL, gL), uq.unsteady_state(rR, uR, pR, gR)
    expect_raises(Exception, riem.riemann_pb, qL, qR)


rule("C15", RTXT + " 12 sample positions: inside every wave and region, exact wave speeds, any order.")


def same(a, S, ptol, utol, rtol):
    return abs(a[2] / S[2] - 1) <= ptol and abs(a[1] - S[1]) <= utol and abs(a[0] / S[0] - 1) <= rtol and abs(a[3] / S[3] - 1) < 1e-9


@sub("C15", "samples", st.fixed_dictionaries(dict(c=RP, t=st.lists(st.tuples(st.integers(0, 6), real(0.0, 1.0, special=[0.0, 1.0, 0.5])), min_size=1, max_size=12), tile=st.sampled_from([1, 1, 1, 7, 40]), shuffle=st.integers(0, 99),
                                                  far=st.lists(st.tuples(st.booleans(), st.sampled_from([10.0, 1e3, 1e6, 1e9, np.inf]) | real(2.0, 1e12, log=True)), max_size=2))), quick=700)
def c15(c, x):
    R, P = problem(c["c"])
    lf, rf, us = flt(P.left_fastest()), flt(P.right_fastest()), flt(P.ustar())
    span = max(rf - lf, 1e-12)
    # region bounds from the reported wave speeds, tails from the star states
    tl = us - flt(P.qstarL().asound()) if R.lp <= np.log(R.L[2]) else lf
    tr = us + flt(P.qstarR().asound()) if R.lp <= np.log(R.R[2]) else rf
    reg = [(lf - span, lf), (lf, tl), (tl, us), (us, tr), (tr, rf), (rf, rf + span), (lf - span, rf + span)]
    # wave speeds themselves must be sampled exactly
    xi = np.array([reg[i][int(f)] if f in (0.0, 1.0) else reg[i][0] + f * (reg[i][1] - reg[i][0]) for i, f in c["t"]])
    if c["tile"] > 1:
        # more samples than positions of interest: those of a regular grid between, in any order
        xi = np.concatenate([xi, np.linspace(xi.min(), xi.max() + 1e-3 * span, c["tile"] * len(xi))])
        xi = xi[np.random.default_rng(c["shuffle"]).permutation(len(xi))]
        x.label("many samples")
    if c["far"]:  # far outside the waves, and at t=0
        xi = np.concatenate([xi, [rf + span * k if r else lf - span * k for r, k in c["far"]]])
        x.label("far outside")
    xi0 = xi.copy()
    s = P.qsol(xi)
    require(np.array_equal(xi, xi0), "sample positions were modified")
    rho, u, p = num(s.rho, "density"), num(s.u, "velocity"), num(s.p, "pressure")
    a = num(s.asound(), "sound speed")
    rho0, u0, p0 = rho.copy(), u.copy(), p.copy()
    require(rho.shape == xi.shape and p.shape == xi.shape and a.shape == xi.shape, "shape of sampled solution")
    g = a * a * rho / p
    eps = 1e-9 * span + 10 * R.utol + 1e-8 * max(abs(R.wL[0] - R.L[1]), abs(R.wR[0] - R.R[1]))
    for i in range(len(xi)):
        ok = False
        for y in (xi[i], xi[i] - eps, xi[i] + eps):
            S = R.sample(y)
            # inside a fan a shift of eps changes the state
            a0 = np.sqrt(S[3] * S[2] / S[0])
            de = eps / a0
            pw = 2 * S[3] / (S[3] - 1)
            if same((rho[i], u[i], p[i], g[i]), S, 1e-7 + 4 * R.tol + pw * de, R.utol * 10 + 2 * eps + 1e-8 * a0, 1e-7 + 4 * R.tol + pw * de):
                ok = True
                break
        require(ok, f"sample at x/t={xi[i]} is {(rho[i], u[i], p[i], g[i])} instead of {R.sample(xi[i])}; L={R.L} R={R.R} waves {R.wL} {R.us} {R.wR}")
    k = np.unique(np.round(xi[np.abs(xi) < 1e9]))
    if len(k):
        si, sf = P.qsol(k.astype(int)), P.qsol(k)
        for n in ("rho", "u", "p"):
            close(getattr(si, n), num(getattr(sf, n)), 1e-12, f"{n} sampled at integer positions {k} (same positions as floats) L={R.L} R={R.R}", atol=1e-300)
    # sampling again leaves the first samples as they were
    P.qsol(xi[::-1] - 0.3 * span)
    for n, v in (("rho", rho0), ("u", u0), ("p", p0)):
        require(np.array_equal(num(getattr(s, n)), v), f"{n} of an earlier sampling was changed by a later one L={R.L} R={R.R}")
    x.label("integer states", R.ints)
    x.label("left fan", any(lf < y < tl for y in xi))
    x.label("right fan", any(tr < y < rf for y in xi))


X20, W20 = np.polynomial.legendre.leggauss(48)


@sub("C15", "balance", st.fixed_dictionaries(dict(c=RP, xl=real(0.0, 2.0), xr=real(0.0, 2.0))), quick=400)
def c15_balance(c, x):
    R, P = problem(c["c"])
    lf, rf, us = flt(P.left_fastest()), flt(P.right_fastest()), flt(P.ustar())
    span = rf - lf
    tl = us - flt(P.qstarL().asound()) if R.lp <= np.log(R.L[2]) else lf
    tr = us + flt(P.qstarR().asound()) if R.lp <= np.log(R.R[2]) else rf
    xl, xr = lf - c["xl"] * span, rf + c["xr"] * span
    b = [xl, lf, tl, us, tr, rf, xr]
    xs, ws = [], []
    for i in range(6):
        h = 0.5 * (b[i + 1] - b[i])
        if h > 0:
            xs.append(0.5 * (b[i + 1] + b[i]) + h * X20)
            ws.append(h * W20)
    if not xs:
        raise OutOfDomain
    xs, ws = np.concatenate(xs), np.concatenate(ws)
    s = P.qsol(xs)
    rho, u, p = num(s.rho), num(s.u), num(s.p)
    g = num(s.asound()) ** 2 * rho / p
    U = np.array([rho, rho * u, p / (g - 1) + 0.5 * rho * u * u])

    def cons(S):
        r, v, q, k = S
        return np.array([r, r * v, q / (k - 1) + 0.5 * r * v * v]), np.array([r * v, r * v * v + q, v * (k / (k - 1) * q + 0.5 * r * v * v)])

    (UL, FL), (UR, FR) = cons(R.L), cons(R.R)
    tot = U @ ws
    ref = xr * UR - xl * UL - (FR - FL)
    sc = np.abs(U) @ ws + np.abs(xr * UR) + np.abs(xl * UL) + np.abs(FR) + np.abs(FL)
    sc = np.maximum(sc, np.abs(U).max(axis=1) * R.utol * 1e8)
    # momentum in units consistent with mass and energy
    sc[1] = max(sc[1], np.sqrt(sc[0] * sc[2]))
    err = np.abs(tot - ref) / sc
    require(err <= 1e-7 + 10 * R.tol, f"mass/momentum/energy balance errors {err} over [{xl},{xr}] L={R.L} R={R.R}")


# ---------------------------------------------------------------------------------------------- C16
rule("C16", RTXT + " Transforms: mirror, velocity shift, density/pressure/velocity scalings; trivial and one-wave problems built from known waves.")


def observe(P, xi):
    s = P.qsol(xi)
    return dict(ps=flt(P.pstar()), us=flt(P.ustar()), lf=flt(P.left_fastest()), rf=flt(P.right_fastest()), rl=flt(P.qstarL().rho), rr=flt(P.qstarR().rho),
                rho=num(s.rho), u=num(s.u), p=num(s.p), a=num(s.asound()))


@sub("C16", "symmetries", st.fixed_dictionaries(dict(c=RP, kind=st.sampled_from(["mirror", "shift", "scale"]), t=st.lists(real(0.02, 0.98), min_size=3, max_size=3),
                                                   d=real(-8.0, 8.0, special=[1.0]), s=st.tuples(mag, mag) | st.tuples(real(1e-14, 1e14, log=True), real(1e-14, 1e14, log=True)))), quick=700)
def c16(c, x):
    R, P = problem(c["c"])
    lf, rf, us = flt(P.left_fastest()), flt(P.right_fastest()), flt(P.ustar())
    tl = us - flt(P.qstarL().asound()) if R.lp <= np.log(R.L[2]) else lf
    tr = us + flt(P.qstarR().asound()) if R.lp <= np.log(R.R[2]) else rf
    span = rf - lf
    bounds = [lf - span, lf, tl, us, tr, rf, rf + span]
    guard = 1e-6 * span + 100 * R.utol
    xi = []
    for i in range(6):
        if bounds[i + 1] - bounds[i] > 4 * guard:
            for f in c["t"]:
                y = bounds[i] + f * (bounds[i + 1] - bounds[i])
                if min(abs(y - b) for b in bounds) > guard:
                    xi.append(y)
    if not xi:
        raise OutOfDomain
    xi = np.array(xi)
    A = observe(P, xi)
    (rL, uL, pL, gL), (rR, uR, pR, gR) = R.L, R.R
    S = RPb.__new__(RPb)
    sign, kv, kr, dv = 1, 1.0, 1.0, 0.0
    if c["kind"] == "mirror":
        S.set(rR, -uR, pR, gR, rL, -uL, pL, gL)
        sign = -1
    elif c["kind"] == "shift":
        dv = c["d"] * max(R.aL, R.aR)
        S.set(rL, uL + dv, pL, gL, rR, uR + dv, pR, gR)
    else:
        kr, kp = c["s"]
        kv = np.sqrt(kp / kr)
        S.set(rL * kr, uL * kv, pL * kp, gL, rR * kr, uR * kv, pR * kp, gR)
    S.solve()
    T = riem.riemann_pb(*S.states())
    B = observe(T, sign * (xi * kv) + dv)
    if sign < 0:
        B["lf"], B["rf"], B["rl"], B["rr"] = -B["rf"], -B["lf"], B["rr"], B["rl"]
        B["us"], B["u"] = -B["us"], -B["u"]
    w = f"{c['kind']} of L={R.L} R={R.R} ({c['d']}, {c['s']})"
    kp = kr * kv * kv
    tol = 1e-8 + 4 * (R.tol + S.tol)
    ut = R.utol * kv + S.utol
    vel = kv * (abs(R.wL[0] - R.L[1]) + abs(R.wR[0] - R.R[1]))
    close(B["ps"], A["ps"] * kp, tol, "star pressure, " + w)
    close(B["rl"], A["rl"] * kr, tol, "left star density, " + w)
    close(B["rr"], A["rr"] * kr, tol, "right star density, " + w)
    for k in ("us", "lf", "rf"):
        close(B[k], A[k] * kv + dv, 0, f"velocity {k}, " + w, atol=4 * ut + tol * vel)
    g = A["a"] ** 2 * A["rho"] / A["p"]
    de = (ut * 4 + 1e-12 * abs(dv)) / (A["a"] * kv) * 2 * g / (g - 1)  # sensitivity inside fans
    require(np.abs(B["rho"] / (A["rho"] * kr) - 1) <= tol + de, f"sampled density {B['rho']} instead of {A['rho']*kr}, {w}")
    require(np.abs(B["p"] / (A["p"] * kp) - 1) <= tol + de, f"sampled pressure {B['p']} instead of {A['p']*kp}, {w}")
    close(B["u"], A["u"] * kv + dv, 0, "sampled velocity, " + w, atol=8 * ut + tol * vel + 1e-12 * abs(dv))
    close(B["a"], A["a"] * kv, tol + de.max(), "sampled sound speed, " + w)
    x.label(c["kind"])


VEL = st.just(0.0) | st.builds(lambda v, k: k * v, real(1e-30, 1e6, log=True), st.sampled_from([1.0, -1.0]))


@sub("C16", "mirror_state", st.fixed_dictionaries(dict(r=mag, p=mag, g=gam2, u=st.lists(VEL, min_size=1, max_size=5), arr=st.booleans())), quick=300)
def c16_mirror_state(c, x):
    """the mirrored copy of a state has the exact opposite velocity, however small, and nothing else changed"""
    u = np.array(c["u"]) if c["arr"] else c["u"][0]
    one = np.ones_like(u)
    q = uq.unsteady_state(c["r"] * one, u, c["p"] * one, c["g"])
    m = q.copysymmetric()
    b = m.copysymmetric()
    w = f"rho={c['r']} u={u} p={c['p']} g={c['g']}"
    for n, v, e in (("velocity", m.u, -np.asarray(u)), ("density", m.rho, q.rho), ("pressure", m.p, q.p), ("sound speed", m.asound(), q.asound()), ("velocity of the mirrored mirror", b.u, u)):
        require(np.array_equal(np.asarray(v), np.asarray(e)), lambda: f"mirrored state: {n} {v} instead of {e}, {w}")
    x.label("slow", bool(np.any(np.abs(u) < 1e-8)))


@sub("C16", "known_waves", st.fixed_dictionaries(dict(r=dens, p=dens, M=real(-5.0, 5.0, special=[0.0]), g=gam2, g2=gam2, kind=st.sampled_from(["equal", "contact", "Lshock", "Rshock", "Lexp", "Rexp"]),
                                                   k=real(1.0 + 1e-3, 1e4, log=True, special=[2.0, 10.0]) | st.builds(lambda z: 1 + z, real(1e-4, 1.0, log=True)), t=st.lists(real(-2.0, 3.0), min_size=1, max_size=6))), quick=600)
def c16_known(c, x):
    g = c["g"]
    a = np.sqrt(g * c["p"] / c["r"])
    u = c["M"] * a
    A = (c["r"], u, c["p"], g)
    k = c["k"]
    kind = c["kind"]
    waves = []
    if kind == "equal":
        L = R = A
        lo, hi = u - a, u + a
    elif kind == "contact":
        L, R = A, (c["r"] * k, u, c["p"], c["g2"])
        lo, hi = u - a, u + a
    else:
        side = -1 if kind[0] == "L" else 1
        if kind.endswith("shock"):
            Ms = np.sqrt(1 + (g + 1) / (2 * g) * (k - 1))
            q = phys.nshock(Ms, g)
            du = a * (1 - q[0]) * Ms
            B = (c["r"] / q[0], u + side * du, c["p"] * k, g)
            lo = hi = u + side * a * Ms
        else:
            a2 = a * k ** (-(g - 1) / (2 * g))
            B = (c["r"] * k ** (-1 / g), u + side * 2 / (g - 1) * (a2 - a), c["p"] / k, g)
            lo, hi = sorted((u + side * a, B[1] + side * a2))
        L, R = (A, B) if side < 0 else (B, A)
    ref = RPb.__new__(RPb).set(*L, *R).solve()
    P = riem.riemann_pb(*ref.states())
    w = f"{kind} L={L} R={R}"
    star = R if kind[0] == "L" else L
    close(P.pstar(), star[2], 1e-8 + ref.tol, "star pressure of " + w)
    close(P.ustar(), star[1], 0, "star velocity of " + w, atol=ref.utol + 1e-9 * a)
    span = max(hi - lo, a)
    xi = lo + np.array(c["t"]) * span
    sl = 1e-6 * span + 100 * ref.utol
    if kind in ("equal", "contact"):
        xi = u + np.array(c["t"]) * 2 * a
        split = u
        lo = hi = u
    xi = np.array([y for y in xi if min(abs(y - lo), abs(y - hi)) > sl])
    if not len(xi):
        return x.trivial()
    s = P.qsol(xi)
    for i, y in enumerate(xi):
        got = (float(s.rho[i]), float(s.u[i]), float(s.p[i]))
        if lo < y < hi:
            S = ref.sample(y)
        else:
            S = L if y <= lo else R
        ok = abs(got[0] / S[0] - 1) < 1e-5 and abs(got[2] / S[2] - 1) < 1e-5 and abs(got[1] - S[1]) < 1e-6 * (a + abs(u) + abs(S[1] - u))
        require(ok, f"sample at x/t={y} is {got} instead of {S[:3]} for {w}")
    x.label(kind)


# ---------------------------------------------------------------------------------------------- C17
rule("C17", "problems built from a star velocity (1e-4..20 initial sound speeds) and a boundary Mach number in (0,1]: initial states over "
     "8 decades (in other units: 36), Mach number in +-3, g in [1.05,1.67]; 1..8 successive solves on one object.")
ip = st.tuples(real(0.02, 1.0, special=[1.0, 0.5]) | real(1e-3, 1.0, log=True), real(0.01, 5.0, log=True, special=[0.5]) | real(1e-4, 20.0, log=True))


unit = real(1e-14, 1e14, log=True)


@sub("C17", "solves", st.fixed_dictionaries(dict(r=dens, p=dens, M=real(-0.95, 0.95, special=[0.0, 0.0]) | real(-3.0, 3.0), g=gammas(1.05, 1.67), touch=st.booleans(), ints=st.integers(0, 5).map(lambda k: k == 0),
                                           unit=st.just((1.0, 1.0)) | st.tuples(unit, unit), s=st.lists(ip, min_size=1, max_size=3) | st.lists(ip, min_size=4, max_size=8))), quick=600)
def c17(c, x):
    g = c["g"]
    if not c.get("ints"):
        k = c.get("unit", (1.0, 1.0))
        c = dict(c, r=c["r"] * k[0], p=c["p"] * k[1])
        x.label("other units", k != (1.0, 1.0))
    a = np.sqrt(g * c["p"] / c["r"])
    u = c["M"] * a
    S = (c["r"], float(u), c["p"], g)
    ini = S
    if c.get("ints"):
        S = (max(round(c["r"] * 10), 1), round(u), max(round(c["p"] * 100), 1), g)
        ini, S = S, tuple(float(v) for v in S)
        c = dict(c, r=S[0], p=S[2])
        u, a = S[1], np.sqrt(g * S[2] / S[0])
    q = uq.unsteady_state(*ini)
    P = inflow.inflow_pb(q)
    if c.get("touch"):
        require((q.rho, q.u, q.p) == S[:3], "initial state was modified")
        q.rho, q.u, q.p = 2.0 * q.rho, q.u - 1.0, 0.3 * q.p  # the caller goes on with his state
    mine = (q.rho, q.u, q.p)
    ref = RPb.__new__(RPb)
    done = 0
    for Ms, k in c["s"]:
        us = k * a
        lo, hi = np.log(c["p"]) - 200, np.log(c["p"]) + 20
        for _ in range(90):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if u + ref.fk(mid, S) < us else (lo, mid)
        ps = np.exp(0.5 * (lo + hi))
        us = u + ref.fk(np.log(ps), S)
        if us <= 0 or u + a * np.sqrt(max(1.0, 1 + (g + 1) / (2 * g) * (ps / c["p"] - 1))) <= 0:
            continue  # right wave would leave through the boundary
        as2 = (us / Ms) ** 2
        pt0 = ps * phys.pt(Ms, g)
        rtt0 = as2 / g * phys.tt(Ms, g)
        w = f"initial (rho,u,p,g)={S} pt={pt0} rtt={rtt0} (p*={ps}, u*={us}, M*={Ms})"
        P.solve_with_pt0_rtt0(pt0, rtt0)
        done += 1
        p1, u1 = flt(P.pstar(), "inflow pressure"), flt(P.ustar(), "inflow velocity")
        close(p1, ps, 1e-7, "inflow pressure " + w)
        close(u1, us, 1e-7, "inflow velocity " + w, atol=1e-7 * a)
        b, r = P.qstarL(), P.qstarR()
        close(b.Ptot(), pt0, 1e-7, "total pressure of the boundary state " + w)
        close(b.rTtot(), rtt0, 1e-7, "total temperature of the boundary state " + w)
        close(b.p, p1, 1e-7, "pressure of the boundary state " + w)
        close(b.u, u1, 1e-9, "velocity of the boundary state " + w, atol=1e-9 * a)
        close(flt(b.asound()) ** 2 * flt(b.rho) / flt(b.p), g, 1e-9, "gamma of the boundary state " + w)
        close(r.p, p1, 1e-12, "pressure behind the right wave " + w)
        close(r.u, u1, 1e-12, "velocity behind the right wave " + w)
        close(u1, u + ref.fk(np.log(p1), S), 1e-9, "velocity behind the right wave " + w, atol=1e-10 * a)
        x0 = np.log(p1 / c["p"])
        if x0 > 0:
            M2 = 1 + (g + 1) / (2 * g) * np.expm1(x0)
            close(r.rho, c["r"] / phys.nshock(np.sqrt(M2), g)[0], 1e-9, "density behind the right shock " + w)
            wr = u + a * np.sqrt(M2)
        else:
            close(r.rho, c["r"] * np.exp(x0 / g), 1e-9, "density behind the right expansion " + w)
            wr = u + a
        close(flt(r.asound()) ** 2 * flt(r.rho) / flt(r.p), g, 1e-9, "gamma behind the right wave " + w)
        try:
            rf = P.right_fastest()
        except AttributeError:
            raise Violation("right_fastest is not available after a solve")
        close(rf, wr, 1e-8, "speed of the right wave " + w, atol=1e-8 * a)
        lf = flt(P.left_fastest(), "left_fastest")
        require(-1e-12 * a <= lf <= 1e-12 * a, f"left limit of the inflow problem is {lf}, not the boundary {w}")
        F = inflow.inflow_pb(uq.unsteady_state(*S))
        F.solve_with_pt0_rtt0(pt0, rtt0)
        close(F.pstar(), p1, 1e-12, "pressure of a fresh problem " + w)
        close(F.ustar(), u1, 1e-12, "velocity of a fresh problem " + w)
        for n in ("rho", "u", "p"):
            close(getattr(F.qstarL(), n), flt(getattr(b, n)), 1e-12, f"{n} of the boundary state of a fresh problem " + w)
            close(getattr(F.qstarR(), n), flt(getattr(r, n)), 1e-12, f"{n} behind the wave of a fresh problem " + w)
        require((q.rho, q.u, q.p) == mine, "initial state was modified")
        x.label("shock", x0 > 1e-9)
        x.label("expansion", x0 < -1e-9)
        x.label("sonic", Ms == 1.0)
    if not done:
        raise OutOfDomain
    x.label("repeated", done > 1)


# ---------------------------------------------------------------------------------------------- two computations at the same time
AT = st.lists(real(0.0, 1.0), min_size=1, max_size=3)


@sub("C15", "interleaved", st.fixed_dictionaries(dict(a=RP, b=RP, at=AT, t=st.lists(real(-1.5, 1.5), min_size=1, max_size=4))), quick=250)
def c15_interleaved(c, x):
    """a problem is solved and sampled the same way when another one is while it runs"""
    def job(k):
        R = RPb(c[k]).solve()
        w = [R.L[1] - 2 * R.aL, R.R[1] + 2 * R.aR]
        xi = np.array([0.5 * (w[0] + w[1]) + 0.5 * t * (w[1] - w[0]) for t in c["t"]])
        return lambda: (lambda P: [P.pstar(), P.ustar(), P.left_fastest(), P.right_fastest()] + list(observe(P, xi).values()))(riem.riemann_pb(*R.states()))

    undisturbed(job("a"), job("b"), c["at"], "Riemann problem")


@sub("C17", "interleaved", st.fixed_dictionaries(dict(s=st.lists(st.tuples(dens, dens, real(-0.5, 0.5), gammas(1.05, 1.67), real(1.5, 4.0), real(0.9, 2.0)), min_size=2, max_size=2), at=AT)), quick=150)
def c17_interleaved(c, x):
    def job(r, p, M, g, kp, kt):
        def run():
            P = inflow.inflow_pb(uq.unsteady_state(r, M * np.sqrt(g * p / r), p, g))
            P.solve_with_pt0_rtt0(kp * p, kt * p / r)
            return [P.pstar(), P.ustar(), P.qstarL().rho, P.qstarL().u, P.qstarR().rho, P.qstarR().p]
        return run

    undisturbed(job(*c["s"][0]), job(*c["s"][1]), c["at"], f"inflow {c['s'][0]} while {c['s'][1]} is solved")
