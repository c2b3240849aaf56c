"""C26, C27, C28: stability operators."""
import copy

import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Polynomial

from pbt.core import OutOfDomain, Violation, close, expect_raises, flt, gammas, num, real, require, rule, sub, undisturbed
from pbt import phys
from pbt.props_num import nodes

from aerokit.stability import LinOperator
from aerokit.stability.Euler import Euler1D
import aerokit.stability.OrrSommerfeld as OS
from aerokit.aero.model1D import state


def cheb_D(n, a, b):
    """first derivative matrix on Chebyshev extrema (explicit formulas, negative-sum diagonal)"""
    x = nodes(n, -1.0, 1.0)
    c = np.ones(n)
    c[0] = c[-1] = 2.0
    c *= (-1.0) ** np.arange(n)
    dx = x[:, None] - x[None, :] + np.eye(n)
    D = np.outer(c, 1 / c) / dx
    D -= np.diag(D.sum(axis=1))
    return D * 2 / (b - a)


def cnum(a, what):
    a = np.asarray(a)
    if a.dtype.kind not in "fci":
        raise Violation(f"{what}: {a!r}")
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite")
    return a


def span_equal(R, Cref, what, tol=1e-8, cols=None):
    """rows of R and of Cref span the same space (columns scaled by cols first)"""
    R, Cref = np.array(R, dtype=complex), np.array(Cref, dtype=complex)
    if R.shape != Cref.shape:
        raise Violation(f"{what}: {R.shape[0]} boundary rows instead of {Cref.shape[0]}")
    if cols is not None:
        R, Cref = R * cols, Cref * cols
    nr = np.linalg.norm(R, axis=1)
    if np.any(nr == 0):
        raise Violation(f"{what}: null boundary row")
    R = R / nr[:, None]
    Cref = Cref / np.linalg.norm(Cref, axis=1)[:, None]
    for P, Q, w in ((R, Cref, "imposed condition is not a boundary condition"), (Cref, R, "boundary condition not imposed")):
        q, _ = np.linalg.qr(Q.conj().T)
        e = np.abs(P.conj().T - q @ (q.conj().T @ P.conj().T)).max()
        if not e <= tol:
            raise Violation(f"{what}: {w} (distance {e:.3g} > {tol:.3g})")


def matrices(op, what):
    B, A = op.get_RHS_time_matrices()
    B, A = cnum(B, what + " B"), cnum(A, what + " At")
    require(B.ndim == 2 and B.shape[0] == B.shape[1] and A.shape == B.shape, f"{what}: matrix shapes {B.shape} {A.shape}")
    return B, A


# ---------------------------------------------------------------------------------------------- C27
rule("C27", "9..80 points, random intervals (lengths 1e-3..1e3), base flows polynomial (degree 0..3) of either flow direction, |M| to 20, density 1e-6..1e6, sound speed 1e-3..1e4, g in [1.01,3], boundary types "
     "sym/per/RH; perturbations random polynomials; histories of base-state and boundary changes; uniform flows for spectra.")

iv1 = st.tuples(real(-5.0, 5.0, special=[0.0]), real(0.1, 10.0, log=True, special=[1.0])).map(lambda t: [t[0], t[0] + t[1]])
iv = (st.tuples(real(-5.0, 5.0, special=[0.0]), real(0.1, 10.0, log=True, special=[1.0])).map(lambda t: [t[0], t[0] + t[1]])
      | st.tuples(real(-2.0, 2.0, special=[0.0]), real(1e-3, 1e3, log=True)).map(lambda t: [t[0] * t[1], (t[0] + 1) * t[1]]))
srho = real(0.1, 10.0, log=True) | real(1e-6, 1e6, log=True)
ssnd = real(0.5, 400.0, log=True) | real(1e-3, 1e4, log=True)
sgam = gammas() | gammas(1.01, 3.0)
flow = st.fixed_dictionaries(dict(rho=srho, a=ssnd, M=real(-2.0, 2.0, special=[0.0]) | real(-20.0, 20.0), g=sgam,
                                  deg=st.integers(0, 3), seed=st.integers(0, 10 ** 6), amp=real(0.0, 0.4)))

flow1 = st.fixed_dictionaries(dict(rho=real(0.1, 10.0, log=True), a=real(0.5, 400.0, log=True), M=real(-2.0, 2.0, special=[0.0]), g=gammas(),
                                   deg=st.integers(0, 3), seed=st.integers(0, 10 ** 6), amp=real(0.0, 0.4)))


def base_polys(f):
    """polynomials of t in [-1,1] for rho, u, p"""
    r = np.random.default_rng(f["seed"])
    p = f["rho"] * f["a"] ** 2 / f["g"]

    def var(m, s):
        c = r.uniform(-1, 1, f["deg"] + 1) * s * f["amp"] / (f["deg"] + 1)
        c[0] = m
        return Polynomial(c)

    return var(f["rho"], f["rho"]), var(f["M"] * f["a"], f["a"]), var(p, p)


def make_state(f, n):
    t = nodes(n, -1.0, 1.0)
    R, U, P = base_polys(f)
    return state(R(t) + 0 * t, U(t) + 0 * t, P(t) + 0 * t, f["g"])


def euler_rhs(f, n, L, pert):
    """exact time derivative of the perturbation at nodes, linearised primitive Euler equations"""
    t = nodes(n, -1.0, 1.0)
    R, U, P = base_polys(f)
    r, u, p = pert
    g = f["g"]
    k = 2 / L
    # complex step along the perturbation of the nonlinear equations
    e = 1e-30
    q = [b(t) + 1j * e * w(t) for b, w in ((R, r), (U, u), (P, p))]
    d = [k * (b.deriv()(t) + 1j * e * w.deriv()(t)) for b, w in ((R, r), (U, u), (P, p))]
    return np.concatenate([-(q[1] * d[0] + q[0] * d[1]).imag, -(q[1] * d[1] + d[2] / q[0]).imag, -(q[1] * d[2] + g * q[2] * d[1]).imag]) / e


def perturbation(seed, f):
    r = np.random.default_rng(seed)
    sc = (f["rho"], f["a"], f["rho"] * f["a"] ** 2)
    return [Polynomial(r.uniform(-1, 1, 5)) * s for s in sc]


def rows_types(A, n):
    """indices of boundary rows: no time derivative of a nodal value"""
    return np.nonzero(np.all(A[:, : 3 * n] == 0, axis=1))[0]


def scales(f):
    return np.array([f["rho"], f["a"], f["rho"] * f["a"] ** 2])


def check_euler(op, n, ab, f, bc, seed, what):
    a, b = ab
    L = b - a
    B, A = matrices(op, what)
    N = 3 * n + (1 if bc == "RH" else 0)
    require(B.shape == (N, N), f"{what}: size {B.shape} instead of {N}")
    require(np.all(np.isreal(B)) and np.all(np.isreal(A)), what + ": complex matrices")
    sc = np.repeat(scales(f), n)
    # interior
    pert = perturbation(seed, f)
    t = nodes(n, -1.0, 1.0)
    v = np.zeros(N)
    v[: 3 * n] = np.concatenate([p(t) for p in pert])
    ref = np.zeros(N)
    ref[: 3 * n] = euler_rhs(f, n, L, pert)
    node = np.tile(np.arange(n), 3)
    inter = np.nonzero((node > 0) & (node < n - 1))[0].tolist()
    if bc == "RH":
        inter.append(n)  # momentum equation is kept downstream of shock
    inter = np.array(sorted(inter))
    lhs, rhs = (B @ v)[inter], (A @ ref)[inter]
    scale = (sc * f["a"] / L * (1 + abs(f["M"])))[inter]
    require(np.abs(A[inter, inter]) > 0, what + ": no time derivative in an interior row")
    amax = np.abs(A[inter]).max(axis=1)
    bad = np.abs(lhs - rhs) > 1e-12 * n ** 2 * 50 * scale * amax
    if np.any(bad):
        i = int(inter[np.argmax(np.abs(lhs - rhs) / scale)])
        raise Violation(f"{what}: row {i} (variable {i // n}, node {i % n}) gives {(B @ v)[i]} instead of {(A @ ref)[i]}")
    # boundary rows
    D = cheb_D(n, a, b)
    cols = np.concatenate([sc, np.ones(N - 3 * n)])

    def unit(var, vec):
        r = np.zeros(N)
        r[var * n: (var + 1) * n] = vec
        return r

    e0, e1 = np.eye(n)[0], np.eye(n)[-1]
    conds = []
    if bc == "per":
        for k in range(3):
            conds += [unit(k, e0 - e1), unit(k, D[0] - D[-1])]
    else:
        for nd, e in ((0, e0), (n - 1, e1)):
            if bc == "RH" and nd == 0:
                continue
            conds += [unit(0, D[nd]), unit(1, e), unit(2, D[nd])]
    rb = rows_types(A, n)
    if bc == "RH":
        rb = np.array([r for r in rb if r not in rh_rows(A, B, n)], dtype=int)
    span_equal(B[rb], conds, what + f" ({bc} conditions)", tol=1e-7, cols=cols)
    if bc != "RH":
        require(len(rb) == 6 and np.all(A[rb] == 0), what + ": boundary rows with time derivative")
    return B, A


def rh_rows(A, B, n):
    """the three rows of the shock: those involving the shock displacement"""
    return [r for r in range(A.shape[0]) if np.all(A[r, : 3 * n] == 0) and (A[r, 3 * n] != 0 or B[r, 3 * n] != 0)]


BCS = ["sym", "per"]


def set_bc(op, bc, style, extra=None):
    if bc == "RH":
        op.set_BC(dict(type="RH", dM0dx=extra), "sym")
    elif style == 0:
        op.set_BC(bc, bc)
    elif style == 1:
        op.set_BC({"type": bc}, {"type": bc})
    else:
        op.set_BC(Ltype=bc, Rtype={"type": bc})


def make_euler(n, ab, f=None, style=0):
    if style == 0 and f is not None:
        return Euler1D(n, ab[0], ab[1], basestate=make_state(f, n))
    if style == 1 and f is not None:
        return Euler1D(n, xmin=ab[0], xmax=ab[1], basestate=make_state(f, n))
    op = Euler1D(n, xmin=ab[0], xmax=ab[1])
    if f is not None:
        op.set_basestate(make_state(f, n))
    return op


@sub("C27", "operator", st.fixed_dictionaries(dict(n=st.integers(9, 40) | st.integers(41, 80), iv=iv, f=flow, bc=st.sampled_from(BCS), style=st.integers(0, 2), seed=st.integers(0, 10 ** 6))), quick=500)
def c27_operator(c, x):
    op = make_euler(c["n"], c["iv"], c["f"], c["style"])
    set_bc(op, c["bc"], c["style"])
    x.label(c["bc"])
    q = make_state(c["f"], c["n"])
    keep = [np.array(v) for v in (q.rho, q.u, q.p)]
    op.set_basestate(q)
    close(num(op.x), nodes(c["n"], *c["iv"]), 0, "nodes", atol=1e-14 * (10 + max(map(abs, c["iv"]))))
    check_euler(op, c["n"], c["iv"], c["f"], c["bc"], c["seed"], f"Euler operator {c['bc']}")
    require(all(np.array_equal(a, b) for a, b in zip(keep, (q.rho, q.u, q.p))), "base state modified by operator")


@sub("C27", "integers", st.fixed_dictionaries(dict(n=st.integers(5, 20), iv=iv1, seed=st.integers(0, 10 ** 6), g=sgam, which=st.integers(1, 7), flat=st.booleans(), as_=st.sampled_from(["int64", "int32"]), bc=st.sampled_from(BCS), style=st.integers(0, 2))), quick=120)
def c27_integers(c, x):
    """a base flow held in integers gives the operator of the same real flow"""
    n = c["n"]
    r = np.random.default_rng(c["seed"])
    vals = [r.integers(lo, 10, 1 if c["flat"] else n) * np.ones(n, dtype=int) for lo in (1, -9, 1)]
    M = []
    for k in (c["which"], 0):
        q = state(*[v.astype(c["as_"] if k >> i & 1 else float) for i, v in enumerate(vals)], c["g"])
        op = make_euler(n, c["iv"])
        op.set_basestate(q)
        set_bc(op, c["bc"], c["style"])
        M.append(matrices(op, "Euler operator"))
    for a, b, name in zip(*M, ("right-hand side", "time")):
        close(a, b, 1e-12, f"{name} matrix for integer base flow {[v.tolist() for v in vals]}", atol=1e-12 * np.abs(b).max())
    x.label("uniform", c["flat"])


@sub("C27", "shock", st.fixed_dictionaries(dict(n=st.integers(12, 80), iv=iv, M0=real(1.15, 5.0, special=[2.0]), dM=real(-0.2, 0.2), rho=srho, a=ssnd, g=gammas(1.1) | gammas(1.02, 3.0),
                                                amp=real(0.0, 0.3), seed=st.integers(0, 10 ** 6), reuse=st.booleans())), quick=400)
def c27_shock(c, x):
    n, (xa, xb), g = c["n"], c["iv"], c["g"]
    L = xb - xa
    M1 = phys.nshock(c["M0"], g)[3]
    f = dict(rho=c["rho"], a=c["a"], M=M1, g=g, deg=2, seed=c["seed"], amp=c["amp"])
    # first node carries the downstream state: polynomials of (t+1) from it
    R, U, P = base_polys(f)
    q = make_state(f, n)
    sh = [float(np.asarray(v)[0]) for v in (q.rho, q.u, q.p)]
    r1, u1, p1 = sh
    m1 = u1 / np.sqrt(g * p1 / r1)
    if not 0.05 < m1 < 0.95 or phys.nshock(m1, g)[1] <= 0.02:  # conjugate state must exist
        raise OutOfDomain()
    k = phys.nshock(m1, g)  # relations are symmetric: conjugate of the subsonic state
    r0, u0, p0 = r1 / k[0], u1 * k[0], p1 * k[1]
    m0 = u0 / np.sqrt(g * p0 / r0)
    if not 1.05 < m0 < 6:
        raise OutOfDomain()
    dM = c["dM"] * (m0 - 1) / L
    bcL = dict(type="RH", dM0dx=dM)
    bcR = dict(type="sym")
    keep = copy.deepcopy((bcL, bcR))
    op = make_euler(n, c["iv"], f)
    op.set_BC(bcL, bcR)
    what = f"Euler operator with shock M0={m0} g={g}"
    B, A = check_euler(op, n, c["iv"], f, "RH", c["seed"], what)
    if c["reuse"]:  # same dictionaries for a second operator and again
        op2 = make_euler(n, c["iv"], f)
        op2.set_BC(bcL, bcR)
        B2, A2 = matrices(op2, what)
        close(B2, B, 1e-12, what + ": second operator with the same boundary dictionaries", atol=1e-12 * np.abs(B).max())
        op.set_basestate(make_state(f, n))
        B2, A2 = matrices(op, what)
        close(B2, B, 1e-12, what + ": same operator computed again", atol=1e-12 * np.abs(B).max())
        close(A2, A, 1e-12, what + ": same operator computed again", atol=1e-12 * np.abs(A).max())
    require((bcL, bcR) == keep, f"boundary condition dictionaries modified: {bcL} {bcR}")
    rows = rh_rows(A, B, n)
    require(len(rows) == 3, f"{what}: {len(rows)} shock conditions instead of 3")
    # columns: rho1', u1', p1' (first node), shock displacement, shock velocity
    idx = [0, n, 2 * n]
    for r in rows:
        other = np.delete(B[r], idx + [3 * n])
        require(np.abs(other) <= 1e-12 * np.abs(B[r]).max(), f"{what}: shock condition involves other nodes")
    S = np.array([[B[r, i] for i in idx] + [B[r, 3 * n], -A[r, 3 * n]] for r in rows])

    # nonlinear jump: upstream isentropic flow of linear Mach number, shock at dx moving at s, downstream at shock
    pt0, tt0 = p0 * phys.pt(m0, g), p0 / r0 * phys.tt(m0, g)

    def jump(dx, s):
        m = m0 + dM * dx
        p = pt0 / phys.pt(m, g)
        rt = tt0 / phys.tt(m, g)
        u = m * np.sqrt(g * rt)
        mr = (u - s) / np.sqrt(g * rt)
        rr, pp, TT, _, _ = phys.nshock(mr, g)
        return np.array([p / rt / rr, (u - s) * rr + s, p * pp])

    h = 1e-5
    a0 = np.sqrt(g * p0 / r0)
    hx = h * L
    J = np.stack([(jump(hx, 0) - jump(-hx, 0)) / (2 * hx), (jump(0, h * a0) - jump(0, -h * a0)) / (2 * h * a0)], axis=1)
    close(jump(0, 0), [r1, u1, p1], 1e-8, "reference jump")
    D = cheb_D(n, xa, xb)
    dq = np.array([D[0] @ np.asarray(v) for v in (q.rho, q.u, q.p)])
    Cref = np.zeros((3, 5))
    Cref[:, :3] = np.eye(3)
    Cref[:, 3] = dq - J[:, 0]
    Cref[:, 4] = -J[:, 1]
    cols = np.array([r1, a0, p1, L, a0])
    dxs = L * (1 - np.cos(np.pi / (n - 1))) / 2
    # gradient of the upstream flow is a first order difference over the first cell
    tol = 2e-6 + 20 * (dM * L) ** 2 * dxs / L
    span_equal(S, Cref, what + f" dM0dx*L={dM * L}", tol=tol, cols=cols)
    x.label("gradient", abs(dM) * L > 0.01)


@sub("C27", "spectrum", st.fixed_dictionaries(dict(n=st.integers(34, 52), iv=iv, rho=real(0.1, 10.0, log=True), a=real(0.5, 400.0, log=True), M=real(-1.6, 1.6, special=[0.0, 0.5, 1.0]), g=sgam, bc=st.sampled_from(BCS))), quick=60, weight=3)
def c27_spectrum(c, x):
    n, (xa, xb) = c["n"], c["iv"]
    L, a = xb - xa, c["a"]
    per = c["bc"] == "per"
    M = c["M"] if per else 0.0
    f = dict(rho=c["rho"], a=a, M=M, g=c["g"], deg=0, seed=0, amp=0.0)
    op = make_euler(n, c["iv"], f)
    set_bc(op, c["bc"], 0)
    vals, vects = op.solve_eig()
    vals = np.asarray(vals)
    vals = vals[np.isfinite(vals)]
    want = []
    if per:
        for m in range(-4, 5):
            want += [2 * np.pi * m / L * (M * a + s * a) for s in (-1, 0, 1)]
    else:
        want = [np.pi * m * a / L for m in range(-6, 7)]
    what = f"spectrum {c['bc']} M={M} a={a} L={L} n={n}"
    for w in want:
        d = np.abs(vals - w).min()
        require(d <= 1e-3 * a / L, f"{what}: no eigenvalue near {w} (nearest {vals[np.argmin(np.abs(vals - w))]})")
    # no other neutral low frequency
    low = vals[(np.abs(vals.real) < 2.2 * np.pi * a / L) & (np.abs(vals.imag) < 1e-4 * a / L)]
    full = []
    if per:
        for m in range(-60, 61):
            full += [2 * np.pi * m / L * (M * a + s * a) for s in (-1, 0, 1)]
    else:
        full = [np.pi * m * a / L for m in range(-20, 21)]
    full = np.array(full)
    for v in low:
        if abs(v.real) < 2.0 * np.pi * a / L:
            k = np.abs(full - v).min()
            if k > 5e-3 * a / L:
                # high wave numbers convected slowly are not resolved
                mm = min(abs(M), abs(1 - abs(M)), 1.0)
                require(per and mm < 0.3, f"{what}: neutral frequency {v} is not one of the box")
    x.label(c["bc"])


hop = st.one_of(st.tuples(st.just("base"), flow), st.tuples(st.just("same"), flow), st.tuples(st.just("refused"), st.integers(0, 6)), st.tuples(st.just("bc"), st.sampled_from(BCS), st.integers(0, 2)), st.tuples(st.just("mat")), st.tuples(st.just("eig")), st.tuples(st.just("mat"))).map(list)


@sub("C27", "history", st.fixed_dictionaries(dict(n=st.integers(9, 20), iv=iv, f=flow, bc=st.sampled_from(BCS), ops=st.lists(hop, min_size=1, max_size=8), seed=st.integers(0, 1000), twin=st.booleans())), quick=250, weight=2)
def c27_history(c, x):
    n = c["n"]
    op = make_euler(n, c["iv"], c["f"])
    set_bc(op, c["bc"], 0)
    tw = make_euler(n, c["iv"], c["f"]) if c["twin"] else None
    if tw:
        set_bc(tw, c["bc"], 1)
        tm = [m.copy() for m in matrices(tw, "twin")]
    f, bc, q = c["f"], c["bc"], None
    for k, o in enumerate(c["ops"]):
        what = f"Euler operator after {[q[0] for q in c['ops'][:k + 1]]} ({bc})"
        if o[0] == "base":
            f = o[1]
            q = make_state(f, n)
            op.set_basestate(q)
        elif o[0] == "same":  # values of the same state object changed, then set again
            f = dict(o[1], g=f["g"])
            new = make_state(f, n)
            if q is None:
                q = new
            else:
                q.rho[...], q.u[...], q.p[...] = new.rho, new.u, new.p
            op.set_basestate(q)
            x.label("same state object changed")
        elif o[0] == "refused":
            refuse(op, o[1])
            x.label("refused boundary condition")
        elif o[0] == "bc":
            bc = o[1]
            set_bc(op, bc, o[2])
        elif o[0] == "mat":
            check_euler(op, n, c["iv"], f, bc, c["seed"], what)
        else:
            F = make_euler(n, c["iv"], f)
            set_bc(F, bc, 0)
            v, w = np.asarray(F.solve_eig()[0]), np.asarray(op.solve_eig()[0])
            require(v.shape == w.shape and np.array_equal(np.isfinite(v), np.isfinite(w)), what + ": eigenvalues differ from a new operator")
            v, w = v[np.isfinite(v)], w[np.isfinite(w)]
            require(np.array_equal(v, w) or np.abs(np.sort_complex(v) - np.sort_complex(w)).max() <= 1e-6 * np.abs(v).max() or
                    max(np.abs(v - z).min() for z in w) <= 1e-6 * np.abs(v).max(), what + ": eigenvalues differ from a new operator")
    check_euler(op, n, c["iv"], f, bc, c["seed"], f"Euler operator after {[q[0] for q in c['ops']]}")
    if tw:
        t2 = matrices(tw, "twin")
        require(all(np.array_equal(a, b) for a, b in zip(tm, t2)), "matrices of another operator changed")


def refuse(op, k):
    """unknown conditions, set on one or both sides: refused at once"""
    bad = [("wall", "sym"), ("sym", "wall"), ({"type": "RHx", "dM0dx": 0.0}, "sym"), ("", ""), ("sym", {"type": None}), ("Sym", "sym"), ("per", "walls")][k]
    expect_raises(Exception, op.set_BC, *bad)


UNUSABLE = dict(missing=None, RH_nothing=({"type": "RH"}, "sym"), RH_extra=({"type": "RH", "dM0dx": 0.1, "dM1dx": 0.0}, "sym"), per_left=("per", "sym"), per_right=("sym", "per"))


@sub("C27", "refused", st.fixed_dictionaries(dict(n=st.integers(9, 16), iv=iv, f=flow, M=real(0.6, 0.85), bad=st.sampled_from(sorted(UNUSABLE)), before=st.booleans(), calls=st.lists(st.sampled_from(["mat", "eig"]), min_size=1, max_size=3), bc=st.sampled_from(BCS))), quick=200)
def c27_refused(c, x):
    """conditions which cannot be applied: every use is refused, until proper ones are set"""
    n = c["n"]
    f = dict(c["f"], M=c["M"], deg=2, amp=min(c["f"]["amp"], 0.05), g=min(max(c["f"]["g"], 1.2), 1.8))
    op = make_euler(n, c["iv"], f)
    if c["before"] and c["bad"] != "missing":
        set_bc(op, c["bc"], 0)
        op.get_RHS_time_matrices()
    if UNUSABLE[c["bad"]]:
        try:
            op.set_BC(*UNUSABLE[c["bad"]])
        except Exception:
            return
    for k in c["calls"]:
        expect_raises(Exception, op.solve_eig if k == "eig" else op.get_RHS_time_matrices)
    set_bc(op, c["bc"], 1)
    check_euler(op, n, c["iv"], f, c["bc"], 0, "Euler operator after refused boundary conditions")
    x.label(c["bad"])


sop = st.one_of(st.tuples(st.just("RH"), real(-0.5, 0.5, special=[0.0])), st.tuples(st.just("RH"), real(-0.5, 0.5, special=[0.0])), st.tuples(st.just("bc"), st.sampled_from(["sym", "per"])),
                st.tuples(st.just("base"), real(0.6, 0.85)), st.tuples(st.just("mat")), st.tuples(st.just("mat")), st.tuples(st.just("eig"))).map(list)


@sub("C27", "shock_history", st.fixed_dictionaries(dict(n=st.integers(9, 16), iv=iv, f=flow, M=real(0.6, 0.85), ops=st.lists(sop, min_size=2, max_size=8))), quick=250)
def c27_shock_history(c, x):
    """boundary conditions, with their parameters, are those set last"""
    n = c["n"]
    L = c["iv"][1] - c["iv"][0]

    def state(M):
        return dict(c["f"], M=M, deg=2, amp=min(c["f"]["amp"], 0.05), g=min(max(c["f"]["g"], 1.2), 1.8))

    def setbc(o, bc):
        if bc[0] == "RH":
            o.set_BC(dict(type="RH", dM0dx=bc[1] / L), dict(type="sym"))
        else:
            o.set_BC(*([bc[1]] * 2 if n % 2 else [dict(type=bc[1]) for _ in "LR"]))

    f, bc = state(c["M"]), ["bc", "sym"]
    op = make_euler(n, c["iv"], f)
    setbc(op, bc)
    kinds = []
    for k, o in enumerate(c["ops"] + [["mat"]]):
        if o[0] == "base":
            f = state(o[1])
            op.set_basestate(make_state(f, n))
        elif o[0] in ("RH", "bc"):
            bc = o
            kinds.append(o[0])
            setbc(op, bc)
        elif o[0] == "eig":
            op.solve_eig()
        else:
            F = make_euler(n, c["iv"], f)
            setbc(F, bc)
            what = f"Euler operator after {c['ops'][:k]}"
            for a, b in zip(matrices(op, what), matrices(F, what)):
                require(a.shape == b.shape, what + f": matrices of shape {a.shape} instead of {b.shape}")
                close(a, b, 1e-12, what + ": matrices of a new operator", atol=1e-12 * np.abs(b).max())
    x.label("shock changed", kinds.count("RH") > 1)


# ---------------------------------------------------------------------------------------------- C28
rule("C28", "12..90 points on random intervals, polynomial profiles of degree 0..8, wave numbers 1e-3..50 (half of them complex), Re 0.1..1e9; random polynomial functions; "
     "spectra of shifted, mirrored, Poiseuille profiles; base states with missing keys; histories.")
prof1 = st.fixed_dictionaries(dict(alpha=real(0.1, 4.0, special=[1.0]), Re=real(10.0, 1e5, log=True, special=[1e4]), deg=st.integers(0, 4), seed=st.integers(0, 10 ** 6)))
prof = st.fixed_dictionaries(dict(alpha=real(0.1, 4.0, special=[1.0]) | real(1e-3, 50.0, log=True), Re=real(10.0, 1e5, log=True, special=[1e4]) | real(0.1, 1e9, log=True), deg=st.integers(0, 4) | st.integers(5, 8), seed=st.integers(0, 10 ** 6),
                                im=st.sampled_from([0.0, 0.0, 0.0, 0.1, -0.5, 1.0])))  # imaginary part of the wave number (spatial theory), over its real part


def wave(p):
    return p["alpha"] * complex(1.0, p["im"]) if p.get("im") else p["alpha"]


def profile(p, ab, shift=0.0, mirror=False):
    c = np.random.default_rng(p["seed"]).uniform(-1, 1, p["deg"] + 1)
    P = Polynomial(c)
    a, b = ab
    sg = -1.0 if mirror else 1.0

    def U(y):
        return P(sg * (2 * (y - a) / (b - a) - 1)) + shift

    def ddU(y):
        return P.deriv(2)(sg * (2 * (y - a) / (b - a) - 1)) * (2 / (b - a)) ** 2 + 0 * y

    return U, ddU


def make_os(n, ab, p, style=0, shift=0.0, mirror=False):
    U, dd = profile(p, ab, shift, mirror)
    d = {"alpha": wave(p), "Reynolds": p["Re"], "uprofile": U}
    if style == 0:
        op = OS.OrrSommerfeldModel(n, ab[0], ab[1], basestate=d)
    else:
        op = OS.OrrSommerfeldModel(n, xmin=ab[0], xmax=ab[1])
        op.set_basestate(d)
    op.set_BC(*(({"type": "wall"}, {"type": "wall"}) if style == 0 else ("wall", "wall")))
    return op, U, dd, d


def check_os(op, n, ab, al, Re, U, ddU, seed, what):
    a, b = ab
    L = b - a
    B, A = matrices(op, what)
    require(B.shape == (n, n), f"{what}: size {B.shape}")
    y = nodes(n, a, b)
    t = nodes(n, -1.0, 1.0)
    k = 2 / L
    Um = np.abs(U(y)).max() + 0.1
    D = cheb_D(n, a, b)
    I = np.eye(n)
    rb = np.nonzero(np.all(A == 0, axis=1))[0]
    span_equal(B[rb], [I[0], D[0], I[-1], D[-1]], what + " walls", tol=1e-7)
    require(len(rb) == 4, what + f": {len(rb)} wall rows")
    inter = np.array([i for i in range(n) if i not in set(rb.tolist())])
    require(len(inter) == n - 4, what + " rows")
    require(np.array_equal(inter, np.arange(2, n - 2)), what + f": wall rows {rb.tolist()}")
    rng = np.random.default_rng(seed)
    for deg in (2, 9):
        v = Polynomial(rng.uniform(-1, 1, deg + 1))
        v0, v2, v4 = v(t), v.deriv(2)(t) * k ** 2, (v.deriv(4)(t) if deg >= 4 else 0 * t) * k ** 4
        a_ref = v2 - al ** 2 * v0
        b_ref = -1j * al * U(y) * a_ref + 1j * al * ddU(y) * v0 + (v4 - 2 * al ** 2 * v2 + al ** 4 * v0) / Re
        av, bv = A @ v0, B @ v0
        e2, e4, m = 3e-15 * n ** 4 * k ** 2, 3e-15 * n ** 8 * k ** 4, abs(al)
        ta = e2 + 1e-13 * m ** 2
        tb = m * Um * (ta + e2) + e4 / Re + e2 * m ** 2 / Re + 1e-13 * m ** 4 / Re
        s = 1.0
        r = np.abs(av - a_ref)[inter]
        if np.median(np.abs(av + a_ref)[inter]) < np.median(r):
            s = -1.0  # equation multiplied by -1
        ra, rbv = np.abs(av - s * a_ref)[inter], np.abs(bv - s * b_ref)[inter]
        require(ra <= ta * 10, f"{what}: time matrix applied to a polynomial of degree {deg}: error {ra.max():.3g} (scale {np.abs(a_ref).max():.3g})")
        require(rbv <= tb * 10, f"{what}: operator applied to a polynomial of degree {deg}: error {rbv.max():.3g} (scale {np.abs(b_ref).max():.3g}, tolerance {tb * 10:.3g})")
    return B, A


@sub("C28", "operator", st.fixed_dictionaries(dict(n=st.integers(20, 40) | st.integers(12, 90), iv=iv, p=prof, style=st.integers(0, 1), seed=st.integers(0, 10 ** 6), shift=real(-2.0, 2.0, special=[0.0]))), quick=500)
def c28_operator(c, x):
    op, U, dd, d = make_os(c["n"], c["iv"], c["p"], c["style"], c["shift"])
    al, Re = wave(c["p"]), c["p"]["Re"]
    x.label("complex wave number", c["p"]["im"] != 0)
    keep = dict(d)
    B, A = check_os(op, c["n"], c["iv"], al, Re, U, dd, c["seed"], f"Orr-Sommerfeld alpha={al} Re={Re} interval {c['iv']}")
    require(d == keep, f"base state dictionary modified: {d}")
    # shifted profile: same time matrix, frequencies shifted by alpha times the shift
    op2, _, _, _ = make_os(c["n"], c["iv"], c["p"], c["style"], c["shift"] + 0.75)
    B2, A2 = matrices(op2, "shifted")
    e = np.abs(B2 - B + 1j * al * 0.75 * A).max()
    require(e <= 1e-9 * (np.abs(A).max() * abs(al) + 1) + 1e-12 * np.abs(B).max(), f"shifting the profile does not shift frequencies: {e}")


def match(v, w, tol, what):
    for z in v:
        d = np.abs(w - z).min()
        require(d <= tol, f"{what}: no eigenvalue near {z} (distance {d:.3g})")


@sub("C28", "spectrum", st.fixed_dictionaries(dict(n=st.integers(36, 48), iv=iv1, p=prof1, shift=real(-2.0, 2.0))), quick=60, weight=2)
def c28_spectrum(c, x):
    p = dict(c["p"], Re=min(c["p"]["Re"], 300.0) / (c["iv"][1] - c["iv"][0]) * 2)
    p["alpha"] = c["p"]["alpha"] / (c["iv"][1] - c["iv"][0]) * 2
    n, ab = c["n"], c["iv"]
    sp = []
    for sh, mi in ((0.0, False), (c["shift"], False), (0.0, True)):
        op, _, _, _ = make_os(n, ab, p, 0, sh, mi)
        v = np.asarray(op.solve_eig()[0])
        v = v[np.isfinite(v)]
        require(v.size >= n - 4, f"{v.size} finite eigenvalues of {n} points")
        sp.append(v[np.argsort(-v.imag)])
    um = 3.0 + abs(c["shift"])
    # least damped eigenvalues, wall rows may give spurious large ones
    ph = [v[np.abs(v) < 50 * p["alpha"] * um][:60] for v in sp]
    k = min(6, ph[0].size)
    what = f"Orr-Sommerfeld alpha={p['alpha']} Re={p['Re']} {ab}"
    tol = 1e-4 * p["alpha"] * um
    match(ph[0][:k] + p["alpha"] * c["shift"], sp[1], tol, what + f" shifted by {c['shift']}")
    match(ph[0][:k], sp[2], tol, what + " mirrored")
    match(sp[2][np.abs(sp[2]) < 50 * p["alpha"] * um][:k], sp[0], tol, what + " mirrored")


@sub("C28", "poiseuille", st.fixed_dictionaries(dict(n=st.integers(64, 110), model=st.sampled_from(["Poiseuille", "generic", "generic2"]))), quick=12, thorough=60)
def c28_pois(c, x):
    n = c["n"]
    if c["model"] == "Poiseuille":
        op = OS.Poiseuille(n, alpha=1.0, Reynolds=1e4)
        ref = 0.23752649 + 0.00373967j
    else:
        s = 1.0 if c["model"] == "generic" else 2.0  # half-height 2, unit centre velocity: Re and alpha scaled
        op = OS.OrrSommerfeldModel(n, -s, s, {"alpha": 1.0 / s, "Reynolds": 1e4 / s, "uprofile": lambda y: 1 - (y / s) ** 2})
        op.set_BC("wall", "wall")
        ref = (0.23752649 + 0.00373967j) / s
    v = np.asarray(op.solve_eig()[0])
    v = v[np.isfinite(v)]
    z = v[np.argmin(np.abs(v - ref))]
    require(abs(z - ref) < 3e-6, f"Poiseuille Re=1e4 alpha=1 n={n}: {z} instead of {ref}")
    # it is the only unstable one, and this Reynolds number is unstable
    un = v[(v.imag > 1e-5) & (np.abs(v) < 10)]
    require(un.size == 1, f"unstable eigenvalues {un}")


@sub("C28", "neutral", st.fixed_dictionaries(dict(n=st.integers(60, 80), Re=st.sampled_from([5600.0, 5900.0]))), quick=6, thorough=30)
def c28_neutral(c, x):
    """critical point Re=5772.22, alpha=1.02056"""
    op = OS.Poiseuille(c["n"], alpha=1.02056, Reynolds=c["Re"])
    v = np.asarray(op.solve_eig()[0])
    v = v[np.isfinite(v) & (np.abs(v) < 10)]
    g = v[np.argmax(v.imag)]
    require((g.imag > 0) == (c["Re"] > 5772), f"Re={c['Re']}: growth rate {g}")
    close(g.real, 0.2694, 2e-2, "critical frequency")


@sub("C28", "refused", st.fixed_dictionaries(dict(n=st.integers(20, 30), drop=st.lists(st.sampled_from(["alpha", "Reynolds", "uprofile"]), min_size=1, max_size=3, unique=True), p=prof, extra=st.booleans(), init=st.booleans())), quick=100)
def c28_refused(c, x):
    op, U, dd, d = make_os(c["n"], [-1.0, 1.0], c["p"])
    bad = {k: v for k, v in d.items() if k not in c["drop"]}
    if c["extra"]:
        bad["Rey"] = 100.0
    if c["init"]:
        expect_raises(OS.DictKeyError, lambda: OS.OrrSommerfeldModel(c["n"], basestate=bad))
    B = matrices(op, "")[0].copy()
    expect_raises(OS.DictKeyError, op.set_basestate, bad)
    require(np.array_equal(matrices(op, "")[0], B), "operator changed by a refused base state")
    # unknown or missing boundary conditions
    expect_raises(Exception, op.set_BC, "wall", "sym")
    expect_raises(Exception, op.set_BC, {"type": "per"}, {"type": "wall"})
    require(np.array_equal(matrices(op, "")[0], B), "operator changed by refused boundary conditions")
    new = OS.OrrSommerfeldModel(c["n"], -1.0, 1.0, basestate=d)
    for k in range(2):
        expect_raises(Exception, new.solve_eig if c["init"] else new.get_RHS_time_matrices)
    new.set_BC("wall", "wall")
    require(np.array_equal(matrices(new, "")[0], B), "operator differs after refused calculations")


osop = st.one_of(st.tuples(st.just("base"), prof), st.tuples(st.just("param"), prof), st.tuples(st.just("given"), prof), st.tuples(st.just("bc")), st.tuples(st.just("mat")), st.tuples(st.just("eig")), st.tuples(st.just("bad"))).map(list)


@sub("C28", "history", st.fixed_dictionaries(dict(n=st.integers(20, 28), iv=iv, p=prof, ops=st.lists(osop, min_size=1, max_size=7), seed=st.integers(0, 1000))), quick=200)
def c28_history(c, x):
    n, ab = c["n"], c["iv"]
    p = c["p"]
    U, dd = profile(p, ab)
    # one profile function whose parameters change between the base states it is given in
    now = dict(U=U)

    def shared(y):
        return now["U"](y)

    op = OS.OrrSommerfeldModel(n, ab[0], ab[1], basestate={"alpha": wave(p), "Reynolds": p["Re"], "uprofile": shared})
    op.set_BC("wall", "wall")
    mine = {}
    for o in c["ops"]:
        if o[0] == "param":
            p = o[1]
            now["U"], dd = profile(p, ab)
            U = now["U"]
            x.label("same profile function, other parameters")
            op.set_basestate({"alpha": wave(p), "Reynolds": p["Re"], "uprofile": shared})
        elif o[0] == "given":  # the same dictionary, completed in place and given again
            p = o[1]
            U, dd = profile(p, ab)
            mine.update(alpha=wave(p), Reynolds=p["Re"], uprofile=U)
            op.set_basestate(mine)
        elif o[0] == "base":
            p = o[1]
            U, dd = profile(p, ab)
            op.set_basestate({"alpha": wave(p), "Reynolds": p["Re"], "uprofile": U})
        elif o[0] == "bc":
            op.set_BC("wall", "wall")
        elif o[0] == "bad":
            expect_raises(OS.DictKeyError, op.set_basestate, {"alpha": 1.0})
        elif o[0] == "eig":
            op.solve_eig()
        check_os(op, n, ab, wave(p), p["Re"], U, dd, c["seed"], f"Orr-Sommerfeld after {[q[0] for q in c['ops']]} alpha={p['alpha']} Re={p['Re']} {ab}")


# ---------------------------------------------------------------------------------------------- C26
rule("C26", "operators: random dense pairs (real or complex, size 3..12, regular time matrix), Euler (sym, per) and Orr-Sommerfeld with random data; "
     "windows cut between eigenvalues or default; perturbed starts for the refinement.")


class Dense(LinOperator):
    def __init__(self, B, A):
        super().__init__(len(B))
        self.M0 = (B, A)

    def compute_operators(self):
        self._B, self._At = self.M0[0].copy(), self.M0[1].copy()


opcase = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("dense"), n=st.integers(3, 12), cplx=st.booleans(), eye=st.booleans(), seed=st.integers(0, 10 ** 6), scale=real(1e-8, 1e8, log=True))),
    st.fixed_dictionaries(dict(kind=st.just("dense"), n=st.integers(3, 12), cplx=st.booleans(), eye=st.booleans(), seed=st.integers(0, 10 ** 6))),
    st.fixed_dictionaries(dict(kind=st.just("euler"), n=st.integers(9, 24), f=flow1, bc=st.sampled_from(BCS), iv=iv1)),
    st.fixed_dictionaries(dict(kind=st.just("os"), n=st.integers(14, 30), p=prof1)),
)


lacking = st.fixed_dictionaries(dict(kind=st.just("dense"), n=st.integers(3, 12), cplx=st.booleans(), eye=st.booleans(), seed=st.integers(0, 10 ** 6), lack=st.sampled_from(["equation", "time"])))


def make_op(c):
    if c["kind"] == "dense":
        r = np.random.default_rng(c["seed"])
        n = c["n"]
        B = r.normal(size=(n, n))
        A = np.eye(n) if c["eye"] else np.eye(n) * 2 + 0.4 * r.normal(size=(n, n))
        if c["cplx"]:
            B = B + 1j * r.normal(size=(n, n))
        B = B * c.get("scale", 1.0)
        # variables without equation (undefined eigenvalues) or without time derivative (infinite ones)
        k = c["seed"] % n
        if c.get("lack") == "equation":
            B[k] = B[:, k] = A[k] = A[:, k] = 0
        elif c.get("lack") == "time":
            A[k] = 0
        return Dense(B, A)
    if c["kind"] == "euler":
        op = make_euler(c["n"], c["iv"], c["f"])
        set_bc(op, c["bc"], 0)
        return op
    return make_os(c["n"], [-1.0, 1.0], c["p"])[0]


def residual(B, A, w, v):
    """relative backward error of (w, v) for B v = -i w A v"""
    r = B @ v + 1j * w * (A @ v)
    return np.linalg.norm(r) / ((np.linalg.norm(B, 2) + abs(w) * np.linalg.norm(A, 2)) * np.linalg.norm(v))


@sub("C26", "eig", st.fixed_dictionaries(dict(op=opcase)), quick=300)
def c26_eig(c, x):
    op = make_op(c["op"])
    B, A = (m.copy() for m in matrices(op, "operator"))
    vals, vects = op.solve_eig()
    vals, vects = np.asarray(vals), np.asarray(vects)
    n = B.shape[0]
    require(vals.shape == (n,) and vects.shape == (n, n), f"shapes {vals.shape} {vects.shape}")
    B2, A2 = matrices(op, "operator")
    require(np.array_equal(B2, B) and np.array_equal(A2, A), "matrices changed by solve_eig")
    fin = np.isfinite(vals)
    rk = np.linalg.matrix_rank(A)
    require(fin.sum() >= (n if c["op"]["kind"] == "dense" else min(rk - 8, n)), f"{fin.sum()} finite eigenvalues, rank {rk}")
    for k in np.nonzero(fin)[0]:
        if abs(vals[k]) > 1e12 * (1 + np.median(np.abs(vals[fin]))):
            continue
        require(np.linalg.norm(vects[:, k]) > 0, "null eigenvector")
        e = residual(B, A, vals[k], vects[:, k])
        require(e <= 1e-11 * n, f"eigenpair {k} of {c['op']['kind']}: omega={vals[k]} has residual {e:.3g}")
    if c["op"]["kind"] == "dense":
        ref = np.linalg.eigvals(np.linalg.solve(A, B)) * 1j
        for z in ref:
            require(np.abs(vals - z).min() < 1e-6 * np.abs(ref).max(), f"eigenvalue {z} missing in {vals}")
    x.label(c["op"]["kind"])


@sub("C26", "select", st.fixed_dictionaries(dict(op=opcase | lacking, w=st.lists(real(0.0, 1.0, special=[0.0, 1.0]), min_size=4, max_size=4), given=st.lists(st.booleans(), min_size=4, max_size=4), sort=st.sampled_from(["real", "imag", None]), twice=st.booleans(), exact=st.sampled_from([False, False, True]))), quick=500)
def c26_select(c, x):
    op = make_op(c["op"])
    vals, vects = op.solve_eig()
    vals, vects = np.array(vals), np.array(vects)
    fin = np.isfinite(vals)
    big = np.abs(vals) > 1e10

    def cut(a, t):
        """value between two consecutive ones, or beyond all"""
        a = np.unique(a)
        m = max(abs(a[0]), abs(a[-1])) or 1.0
        mids = [a[0] - m] + [0.5 * (p + q) for p, q in zip(a[:-1], a[1:]) if q - p > 1e-9 * (m + abs(p))] + [a[-1] + m]
        return float(mids[int(round(t * (len(mids) - 1)))])

    use = vals[fin & ~big]
    if use.size == 0:
        raise OutOfDomain()
    kw = {}
    w = [cut(use.real, c["w"][0]), cut(use.real, c["w"][1]), cut(use.imag, c["w"][2]), cut(use.imag, c["w"][3])]
    w = [min(w[:2]), max(w[:2]), min(w[2:]), max(w[2:])]
    if c.get("exact"):  # the lower limit itself belongs to the window
        w[0] = float(np.sort(use.real)[int(c["w"][0] * (use.size - 1))])
        w[1] = max(w[1], w[0] + (abs(w[0]) or 1.0))
    for k, v, g in zip(("realmin", "realmax", "imagmin", "imagmax"), w, c["given"]):
        if g:
            kw[k] = v
    lim = dict(realmin=0.0, realmax=1e99, imagmin=-1e10, imagmax=1e10)
    lim.update(kw)
    if c["sort"]:
        kw["sort"] = c["sort"]
    if c["twice"]:
        op.select_and_sort()
    sv, sx, order = op.select_and_sort(**kw)
    sv, sx, order = np.asarray(sv), np.asarray(sx), np.asarray(order)
    what = f"selection {kw} of {c['op']['kind']}"
    with np.errstate(all="ignore"):
        inside = (vals.real < lim["realmax"]) & (vals.real >= lim["realmin"]) & (vals.imag > lim["imagmin"]) & (vals.imag < lim["imagmax"])
        # values on the limit of the default window may be on either side
        edge = fin & ("realmin" not in kw) & (np.abs(vals.real) < 1e-12 * (c["op"].get("scale", 1.0) + np.abs(vals.imag)))
    want = vals[inside & ~edge]
    require(sv.ndim == 1 and sx.shape == (vals.size, sv.size) and order.shape == sv.shape, f"{what}: shapes {sv.shape} {sx.shape} {order.shape}")
    for z in want:
        require(np.any(sv == z), f"{what}: eigenvalue {z} not kept")
    for z in sv:
        require(np.any(vals[inside | edge] == z), f"{what}: eigenvalue {z} kept")
    require(len(sv) >= len(want) and len(sv) <= (inside | edge).sum(), f"{what}: {len(sv)} values kept of {inside.sum()}")
    for k, z in enumerate(sv):
        js = np.nonzero(vals == z)[0]
        require(any(np.array_equal(vects[:, j], sx[:, k]) for j in js), f"{what}: vector kept for {z} is not its eigenvector")
    require(np.array_equal(np.sort(order), np.arange(sv.size)), f"{what}: order {order}")
    o = sv[order]
    if c["sort"] == "imag":
        require(np.diff(o.imag) <= 0, f"{what}: not by decreasing imaginary part {o}")
    else:
        require(np.diff(o.real) >= 0, f"{what}: not by increasing real part {o}")
    x.label("undefined or infinite eigenvalues", not np.all(fin))
    x.label("some kept", 0 < sv.size < vals.size)
    if sv.size == 0:
        x.trivial()


@sub("C26", "refine", st.fixed_dictionaries(dict(op=opcase, k=real(0.0, 1.0), eps=real(1e-6, 1e-2, log=True), seed=st.integers(0, 10 ** 6), niter=st.none() | st.integers(3, 12), aslist=st.booleans())), quick=400)
def c26_refine(c, x):
    op = make_op(c["op"])
    B, A = (m.copy() for m in matrices(op, "operator"))
    vals, vects = (np.array(m) for m in op.solve_eig())
    good = np.nonzero(np.isfinite(vals) & (np.abs(vals) < 1e8 * (1 + np.median(np.abs(vals[np.isfinite(vals)])))))[0]
    if good.size == 0:
        raise OutOfDomain()
    # away from very close neighbours
    k = good[int(round(c["k"] * (good.size - 1)))]
    w, v = vals[k], vects[:, k]
    if np.sort(np.abs(vals[np.isfinite(vals)] - w))[1] < 1e-6 * np.median(np.abs(vals[np.isfinite(vals)])):
        raise OutOfDomain()  # multiple eigenvalue
    r = np.random.default_rng(c["seed"])
    v1 = v + c["eps"] * np.linalg.norm(v) * (r.normal(size=v.size) + 1j * r.normal(size=v.size)) / np.sqrt(2 * v.size)
    w1 = w * (1 + c["eps"] * r.normal()) + (c["eps"] * 1e-3 * c["op"].get("scale", 1.0))
    keep = v1.copy()
    e0 = residual(B, A, w1, v1)
    arg = list(v1) if c["aslist"] else v1
    res = op.converge_eigenpair(w1, arg) if c["niter"] is None else op.converge_eigenpair(w1, arg, niter=c["niter"])
    w2, v2 = res
    w2, v2 = complex(w2), np.asarray(v2)
    require(np.array_equal(v1, keep), "start vector modified")
    require(np.isfinite(w2) and np.all(np.isfinite(v2)) and v2.shape == v.shape, f"refined pair {w2}, shape {v2.shape}")
    e1 = residual(B, A, w2, v2)
    n = B.shape[0]
    what = f"refined eigenpair {w1}->{w2} of {c['op']['kind']}: residual {e0:.3g}->{e1:.3g}"
    x.label(c["op"]["kind"])
    require(e1 <= max(e0 * 0.5, 1e-12 * n), what)
    if c["niter"] is None or c["niter"] >= 8:
        require(e1 <= 1e-9, what + " after enough iterations")
    if c["op"]["kind"] == "dense" and c["eps"] < 1e-4:
        gap = np.sort(np.abs(vals - w))[1]
        if gap > 0.1 * np.abs(w) and (c["niter"] or 10) >= 5:
            require(np.abs(w2 - w) < 1e-6 * (c["op"].get("scale", 1.0) + abs(w)), what + f": not the eigenvalue {w} it started from")
    B2, A2 = matrices(op, "operator")
    require(np.array_equal(B2, B) and np.array_equal(A2, A), "matrices changed by converge_eigenpair")


# ---------------------------------------------------------------------------------------------- two computations at the same time
AT = st.lists(real(0.0, 1.0), min_size=1, max_size=3)


@sub("C27", "interleaved", st.fixed_dictionaries(dict(o=st.lists(st.tuples(iv1, flow1, st.sampled_from(BCS + ["RH"])), min_size=2, max_size=2), n=st.lists(st.integers(6, 14), min_size=2, max_size=2), same=st.booleans(), eig=st.booleans(), at=AT)), quick=150)
def c27_interleaved(c, x):
    """an operator is computed the same way when another one is while it runs"""
    def job(n, ab, f, bc):
        f = dict(f, M=0.7) if bc == "RH" else f

        def run():
            op = make_euler(n, ab, f)
            set_bc(op, bc, 0, 0.1)
            return list(op.get_RHS_time_matrices()) + ([np.sort(np.abs(op.solve_eig()[0]))] if c["eig"] and bc != "RH" else [])
        return run

    n, m = c["n"]
    undisturbed(job(n, *c["o"][0]), job(n if c["same"] else m, *c["o"][1]), c["at"], f"Euler operator {c['o'][0]} while {c['o'][1]} is computed", rtol=1e-7)


@sub("C28", "interleaved", st.fixed_dictionaries(dict(o=st.lists(st.tuples(iv1, prof1), min_size=2, max_size=2), n=st.lists(st.integers(8, 20), min_size=2, max_size=2), same=st.booleans(), at=AT)), quick=150)
def c28_interleaved(c, x):
    def job(n, ab, p):
        return lambda: list(make_os(n, ab, p)[0].get_RHS_time_matrices())

    n, m = c["n"]
    undisturbed(job(n, *c["o"][0]), job(n if c["same"] else m, *c["o"][1]), c["at"], f"Orr-Sommerfeld operator {c['o'][0]} while {c['o'][1]} is computed", rtol=1e-9)
