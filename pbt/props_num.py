"""C23, C24, C25: Chebyshev collocation, ODE integrators, secant solver."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import chebyshev as C

from pbt.core import OutOfDomain, Violation, close, expect_raises, flt, num, out_text, real, require, rule, sub, undisturbed

from aerokit.common.numspectral import ChebCollocation
from aerokit.common import _ode
from aerokit.aero import IterativeSolve as its

EPS = 2.3e-16
forward = st.one_of(st.none(), st.tuples(real(-50.0, 50.0, special=[0.0, -1.0, 1.0]), real(1e-2, 100.0, log=True, special=[1.0, 2.0, 10.0])).map(lambda t: [t[0], t[0] + t[1]]))
# some intervals are given from right to left
interval = st.tuples(forward, st.integers(0, 4)).map(lambda t: t[0][::-1] if t[0] and t[1] == 0 else t[0])


def build(n, iv, style=0):
    if iv is None:
        return ChebCollocation(n), -1.0, 1.0
    a, b = iv
    if style == 1:
        return ChebCollocation(n, xmin=a, xmax=b), a, b
    if style == 2:
        return ChebCollocation(npts=n, xmax=b, xmin=a), a, b
    return ChebCollocation(n, a, b), a, b


def nodes(n, a, b):
    """Chebyshev extrema from a to b (sine form, exact symmetry)"""
    k = np.arange(n)
    return 0.5 * (a + b) + 0.5 * (b - a) * np.sin(np.pi * (2 * k - (n - 1)) / (2 * (n - 1)))


def poly(seed, deg, a, b):
    """random polynomial of exact degree, bounded by 1 on the interval"""
    c = np.random.default_rng(seed).uniform(-1, 1, deg + 1)
    c[-1] = 0.5 + 0.5 * abs(c[-1])
    c /= np.sum(np.abs(c))
    return C.Chebyshev(c, domain=[a, b])


# ---------------------------------------------------------------------------------------------- C23
rule("C23", "2..64 points, default or random intervals (length 1e-2..100, offset +-50), orders 1..6, random polynomials of any degree below the "
     "number of points; sequences of requested orders, several operators used in turn.")
npts = st.integers(2, 24) | st.integers(2, 64)


def dtol(n, k, a, b):
    """round-off bound of the k-th differentiation matrix applied to data bounded by 1"""
    return 40 * EPS * float(n) ** (2 * k) * (2 / abs(b - a)) ** k * (1 + max(abs(a), abs(b)) / abs(b - a) * 0.02) + 1e-300


def check_matrix(op, n, a, b, k, seed, what):
    D = num(op.matder(k), f"matrix of order {k} {what}")
    require(D.shape == (n, n), f"matrix shape {D.shape} for {n} points {what}")
    s = nodes(n, -1.0, 1.0)  # polynomials of the reduced coordinate: no round-off from the offset of the interval
    for deg in sorted({n - 1, seed % n, min(k, n - 1), 0}):
        p = poly(seed + deg, deg, -1.0, 1.0)
        ref = p.deriv(k)(s) * (2 / (b - a)) ** k if deg >= k else np.zeros(n)
        close(D @ p(s), ref, 0, f"derivative {k} of a polynomial of degree {deg}, {n} points on [{a},{b}] {what}", atol=dtol(n, k, a, b))
    return D


@sub("C23", "exact", st.fixed_dictionaries(dict(n=npts, iv=interval, k=st.integers(1, 4) | st.integers(1, 6), seed=st.integers(0, 10 ** 6), style=st.integers(0, 2))), quick=1200)
def c23_exact(c, x):
    n, k = c["n"], c["k"]
    op, a, b = build(n, c["iv"], c["style"])
    require(op.npts == n, "npts")
    check_matrix(op, n, a, b, k, c["seed"], "")
    X = num(op.x, "nodes")
    require(X.shape == (n,), f"nodes shape {X.shape}")
    close(X, nodes(n, a, b), 0, f"nodes of {n} points on [{a},{b}]", atol=4e-16 * (abs(a) + abs(b) + abs(b - a)))
    close(X[0], a, 1e-15, "first node")
    close(X[-1], b, 1e-15, "last node", atol=1e-15 * abs(b - a))
    require(np.diff(X) * (b - a) > 0, "nodes are not sorted from xmin to xmax")
    x.label("right to left", b < a)
    x.label("default interval", c["iv"] is None)
    x.label(f"order {k}")


@sub("C23", "history", st.fixed_dictionaries(dict(ops=st.lists(st.fixed_dictionaries(dict(n=st.integers(2, 20), iv=interval)), min_size=1, max_size=3),
                                                  seq=st.lists(st.tuples(st.integers(0, 2), st.integers(1, 5) | st.integers(1, 5) | st.integers(-4, -1)).map(list), min_size=2, max_size=8), seed=st.integers(0, 1000))), quick=500)
def c23_history(c, x):
    built = [build(o["n"], o["iv"]) for o in c["ops"]]
    held = []
    for i, k in c["seq"]:
        i = i % len(built)
        op, a, b = built[i]
        n = c["ops"][i]["n"]
        if k < 0:  # all orders up to this one computed (again)
            op.compute_matder(-k)
            x.label("explicit computation")
            continue
        D = check_matrix(op, n, a, b, k, c["seed"], f"(operator {i} after requests {c['seq']})")
        F, _, _ = build(n, c["ops"][i]["iv"])
        close(D, num(F.matder(k)), 1e-9, f"matrix of order {k} of operator {i} in requests {c['seq']}, compared to a new operator", atol=dtol(n, k, a, b))
        held.append((i, k, op.matder(k), np.array(D)))
        X = op.x
        close(X, nodes(n, a, b), 0, "nodes", atol=4e-16 * (abs(a) + abs(b) + abs(b - a)))
    for i, k, M, D in held:
        require(np.array_equal(M, D), f"matrix {k} of operator {i} was changed by later requests {c['seq']}")
        require(np.array_equal(num(built[i][0].matder(k)), D) or np.allclose(built[i][0].matder(k), D, rtol=1e-9, atol=dtol(c["ops"][i]["n"], k, *built[i][1:])), f"matrix {k} of operator {i} differs when requested again")


# ---------------------------------------------------------------------------------------------- C24
rule("C24", "2..40 points, random intervals, polynomials of any degree below the number of points or random nodal values, positions inside and "
     "slightly outside, scalar or array; scattered samples (uniform, clustered, exact count, noisy) with condition number below 1e7.")


def bary(n, a, b, fk, xs):
    """barycentric interpolation at Chebyshev extrema"""
    X = nodes(n, a, b)
    w = (-1.0) ** np.arange(n)
    w[0] *= 0.5
    w[-1] *= 0.5
    xs = np.atleast_1d(np.asarray(xs, float))
    d = xs[:, None] - X[None, :]
    hit = np.abs(d) < 1e-14 * abs(b - a)
    d[hit] = 1.0
    q = w / d
    r = (q @ fk) / q.sum(axis=1)
    for i, j in zip(*np.nonzero(hit)):
        r[i] = fk[j]
    return r


@sub("C24", "interpolate", st.fixed_dictionaries(dict(n=st.integers(2, 40), iv=interval, deg=real(0.0, 1.0, special=[1.0, 0.0]), seed=st.integers(0, 10 ** 6),
                                                      t=st.lists(real(-0.02, 1.02, special=[0.0, 1.0, 0.5]), min_size=1, max_size=6), scalar=st.booleans(), kind=st.sampled_from(["poly", "poly", "data", "nodes"]), amp=real(1e-3, 1e6, log=True), many=st.sampled_from([0, 0, 0, 100, 700]), cplx=st.booleans())), quick=1200)
def c24_interp(c, x):
    n = c["n"]
    op, a, b = build(n, c["iv"])
    t = np.array(c["t"])
    if c["many"] and not c["scalar"]:
        t = np.concatenate([t, np.random.default_rng(c["seed"]).uniform(0, 1, c["many"])])
    X = nodes(n, a, b)
    off = 1 + max(abs(a), abs(b)) / abs(b - a)
    x.label(c["kind"])
    if c["kind"] == "nodes":
        rng = np.random.default_rng(c["seed"])
        fk = rng.uniform(-1, 1, n) * c["amp"]
        if c.get("cplx"):
            fk = fk + 1j * rng.uniform(-1, 1, n) * c["amp"]
            r = np.asarray(op.extrapol(fk, op.x))
            close(r.real, fk.real, 0, f"interpolation of complex values at nodes, {n} points [{a},{b}]", atol=1e-14 * n * n * off * c["amp"])
            close(r.imag, fk.imag, 0, f"interpolation of complex values at nodes, {n} points [{a},{b}], imaginary part", atol=1e-14 * n * n * off * c["amp"])
            return
        keep = fk.copy()
        close(op.extrapol(fk, op.x), fk, 0, f"interpolation at nodes, {n} points [{a},{b}]", atol=1e-14 * n * n * off * c["amp"])
        require(np.array_equal(fk, keep), "nodal values modified")
        return
    xs = a + t * (b - a)
    if c["kind"] == "poly":
        p = poly(c["seed"], int(round(c["deg"] * (n - 1))), a, b)
        fk, ref = p(X) * c["amp"], p(xs) * c["amp"]
    else:
        fk = np.random.default_rng(c["seed"]).uniform(-1, 1, n) * c["amp"]
        xs = np.clip(xs, min(a, b), max(a, b))
        ref = bary(n, a, b, fk, xs)
    grow = np.cosh((n - 1) * np.arccosh(1 + 0.04 * np.any((t < 0) | (t > 1))))
    tol = 1e-14 * n * n * off * c["amp"] * grow
    what = f"interpolation of {c['kind']}, {n} points [{a},{b}]"
    if c["scalar"]:
        one = [op.extrapol(fk, float(v)) for v in xs]
        require(all(np.ndim(v) == 0 for v in one), what + f" at one position gives {one}")
        r = np.array([flt(v, what) for v in one])
    else:
        grid = num(op.extrapol(fk, np.stack([xs, xs[::-1]])), what)
        require(grid.shape == (2, len(xs)), what + f" at positions {(2, len(xs))} gives shape {grid.shape}")
        close(grid, np.stack([ref, ref[::-1]]), 0, what + " at a two-dimensional array of positions", atol=tol)
        if c.get("cplx"):  # e.g. an eigenmode
            z = np.asarray(op.extrapol(fk * (0.6 - 0.8j), xs))
            close(z.real, 0.6 * ref, 0, what + " (complex values, real part)", atol=tol)
            close(z.imag, -0.8 * ref, 0, what + " (complex values, imaginary part)", atol=tol)
        if c["kind"] == "data" and c["seed"] % 3 == 0:  # integer nodal values
            fi = np.round(fk * max(1.0, 3.0 / c["amp"])).astype(int)
            close(op.extrapol(fi, xs), bary(n, a, b, fi.astype(float), xs), 0, what + ": integer values", atol=tol * max(1.0, 3.0 / c["amp"]))
        r = num(op.extrapol(fk, xs), what)
        require(r.shape == xs.shape, f"shape {r.shape}")
    close(r, ref, 0, what, atol=tol)


@sub("C24", "fit", st.fixed_dictionaries(dict(n=st.integers(2, 24), iv=interval, deg=real(0.0, 1.0, special=[1.0, 0.0]), seed=st.integers(0, 10 ** 6), extra=real(1.0, 6.0, special=[1.0]),
                                              how=st.sampled_from(["uniform", "random", "edges", "half"]), kind=st.sampled_from(["poly", "noise"]), shuffle=st.booleans(), repeat=st.sampled_from([False, False, True]), amp=real(1e-3, 1e6, log=True),
                                              ints=st.sampled_from([None, None, "int64", "int32"]))), quick=1200)
def c24_fit(c, x):
    n = c["n"]
    op, a, b = build(n, c["iv"])
    rng = np.random.default_rng(c["seed"])
    m = int(np.ceil(n * c["extra"]))
    if c["how"] == "uniform":
        t = np.linspace(0, 1, m)
    elif c["how"] == "random":
        t = np.sort(rng.random(m))
    elif c["how"] == "edges":
        t = 0.5 - 0.5 * np.cos(np.pi * (np.arange(m) + 0.5) / m)
    else:
        t = np.linspace(0, 0.9, m)
    if c.get("repeat"):  # several samples at the same position
        t = np.sort(np.r_[t, rng.choice(t, rng.integers(1, m + 1))])
        m = len(t)
    if c["shuffle"]:
        t = rng.permutation(t)
    xs = a + t * (b - a)
    V = C.chebvander(2 * t - 1, n - 1)
    cond = np.linalg.cond(V)
    if not cond < 1e7:
        raise OutOfDomain()
    off = 1 + max(abs(a), abs(b)) / abs(b - a)
    tol = 1e-14 * n * n * cond * off * c["amp"]
    what = f"fit of {m} samples ({c['how']}) on {n} points [{a},{b}]"
    x.label(c["kind"])
    if c.get("ints"):  # rounded measurements, stored as integers
        f = np.round(rng.uniform(-1, 1, m) * max(c["amp"], 3.0)).astype(c["ints"])
        ref = num(op.fit_to_gauss(xs, f.astype(float)), what)
        close(op.fit_to_gauss(xs, f), ref, 0, what + ": integer samples", atol=tol * max(1.0, 3.0 / c["amp"]))
    if c["kind"] == "poly":
        p = poly(c["seed"], int(round(c["deg"] * (n - 1))), a, b)
        f = p(xs) * c["amp"]
        k1, k2 = xs.copy(), f.copy()
        close(op.fit_to_gauss(xs, f), p(nodes(n, a, b)) * c["amp"], 0, what, atol=tol)
        require(np.array_equal(xs, k1) and np.array_equal(f, k2), "samples modified")
    else:
        f = rng.uniform(-1, 1, m) * c["amp"]
        fk = num(op.fit_to_gauss(xs, f), what)
        require(fk.shape == (n,), f"shape {fk.shape} {what}")
        s = 2 * t - 1
        coef = np.linalg.solve(C.chebvander(2 * (nodes(n, a, b) - a) / (b - a) - 1, n - 1), fk)
        res = V @ coef - f
        # residual of the best polynomial is orthogonal to all polynomials
        close(V.T @ res, np.zeros(n), 0, what + ": not the least-squares polynomial", atol=tol * m * 10)


@sub("C24", "history", st.fixed_dictionaries(dict(ops=st.lists(st.tuples(st.integers(2, 12), interval), min_size=1, max_size=2), seed=st.integers(0, 10 ** 6),
                                                  calls=st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["new", "inplace", "same", "fit", "fit_inplace", "der", "nodes"]), real(0.0, 1.0, special=[0.0, 1.0])), min_size=2, max_size=8))), quick=400)
def c24_history(c, x):
    """results follow the data given now, whatever the operator was asked before"""
    rng = np.random.default_rng(c["seed"])
    O = []
    for n, iv in c["ops"]:
        op, a, b = build(n, iv)
        t = np.linspace(0, 1, 2 * n + 1)
        O.append(dict(op=op, n=n, a=a, b=b, fk=rng.uniform(-1, 1, n), xs=a + t * (b - a), fs=rng.uniform(-1, 1, t.size), V=C.chebvander(2 * t - 1, n - 1)))
    for k, (i, call, t) in enumerate(c["calls"]):
        o = O[i % len(O)]
        n, a, b, op = o["n"], o["a"], o["b"], o["op"]
        off = 1 + max(abs(a), abs(b)) / abs(b - a)
        what = f"call {k} of {[q[1] for q in c['calls']]} on {n} points [{a},{b}]"
        if call == "der":
            op.matder(1 + k % 3)
            continue
        if call.startswith("fit"):
            if call == "fit_inplace":
                o["fs"] += rng.uniform(-1, 1, o["fs"].size)
            coef = np.linalg.lstsq(o["V"], o["fs"], rcond=None)[0]
            ref = C.chebval(2 * (nodes(n, a, b) - a) / (b - a) - 1, coef)
            close(op.fit_to_gauss(o["xs"], o["fs"]), ref, 0, "fit, " + what, atol=1e-12 * n * n * off * np.linalg.cond(o["V"]))
            continue
        if call == "new":
            o["fk"] = rng.uniform(-1, 1, n)
        elif call == "inplace":
            o["fk"] += rng.uniform(-1, 1, n)
            x.label("values changed in place")
        pos = op.x if call == "nodes" else np.array([a + t * (b - a), b + t * t * (a - b)])
        ref = o["fk"] if call == "nodes" else bary(n, a, b, o["fk"], pos)
        close(op.extrapol(o["fk"], pos), ref, 0, "interpolation, " + what, atol=1e-13 * n * n * off * max(1.0, np.abs(o["fk"]).max()))
    x.label("two operators", len(O) == 2)


# ---------------------------------------------------------------------------------------------- C25
rule("C25", "fixed step: linear systems and cubic quadratures (exact per-step amplification known), nonlinear problems for order; adaptive: problems "
     "with closed-form solutions, both directions, initial step 1e-6..30 times the range, of either sign, tol 1e-10..1e-3; secant: monotone "
     "families with broadcast targets and starts, null and small starts included.")


@sub("C25", "rk4_exact", st.fixed_dictionaries(dict(x0=real(-3.0, 3.0, special=[0.0]), L=real(0.05, 5.0, special=[1.0]), n=real(0.3, 40.0, log=True, special=[1.0, 10.0]),
                                                    c=st.lists(real(-2.0, 2.0), min_size=4, max_size=4), kind=st.sampled_from(["cubic", "linear", "system", "large"]), m=st.integers(1, 12), lam=real(-2.0, 1.0),
                                                    near=st.none() | st.tuples(st.integers(2, 14), st.sampled_from([1, -1])))), quick=700)
def c25_rk4(c, x):
    x0, xs = c["x0"], c["x0"] + c["L"]
    n = c["n"]
    if c.get("near"):  # close to a whole number of steps
        n = max(1.0, round(n)) * (1 + c["near"][1] * 10.0 ** -c["near"][0])
    h = c["L"] / n
    k = c["kind"]
    x.label(k)
    P = np.polynomial.Polynomial(c["c"])
    lam, w = c["lam"], c["c"][0]
    A = np.array([[lam, w], [-w, lam]])
    if k == "large":
        rng = np.random.default_rng(c["m"])
        A = rng.uniform(-1, 1, (c["m"], c["m"])) * (0.2 + abs(w)) / np.sqrt(c["m"])
    if k == "cubic":
        y0, F = np.array([0.7]), lambda t, y: np.array([P(t)])
    elif k == "linear":
        y0, F = 1.3, lambda t, y: lam * y
    else:
        y0, F = np.array([1.0, -0.5]) if k == "system" else np.linspace(1.0, -0.5, c["m"]), lambda t, y: A @ y
    keep = np.copy(y0)
    X, Y = _ode.RK4(F, x0, y0, xs, h)
    X, Y = num(X), num(Y)
    require(np.array_equal(keep, y0), "RK4 modified its initial value")
    what = f"RK4 {k} from {x0} to {xs} step {h}"
    require(len(X) == len(Y), what + " lengths")
    require(X[0] == x0, what + f": starts at {X[0]}")
    Z = _ode.RK4(F, x0, y0, x0, h)
    require(len(Z[0]) == 1 and len(Z[1]) == 1 and Z[0][0] == x0, f"RK4 from {x0} to the same abscissa: {Z[0]}")
    close(X[-1], xs, 1e-14, what + ": end", atol=1e-14)
    d = np.diff(X)
    require((d > 0) & (d <= h * (1 + 1e-9) + 1e-14), what + f": steps {d.tolist()[:5]}..{d.tolist()[-2:]}")
    require(np.array_equal(num(Y[0]).reshape(-1), np.reshape(keep, -1)), what + ": initial value")
    if k == "cubic":
        close(Y[:, 0], 0.7 + P.integ()(X) - P.integ()(x0), 0, what + ": fourth-order quadrature is exact for cubics", atol=1e-11)
    else:
        z = A if k in ("system", "large") else np.array([[lam]])
        y = np.reshape(keep, -1).astype(float)
        for i, s in enumerate(d):
            sz = s * z
            I = np.eye(len(y))
            ex = _expm(sz)
            # one step differs from the exact exponential by a fifth-order term
            new = np.reshape(Y[i + 1], -1)
            e = np.linalg.norm(new - ex @ np.reshape(Y[i], -1))
            b = np.linalg.norm(sz, 2) ** 5 / 60 * np.exp(np.linalg.norm(sz, 2)) * np.linalg.norm(Y[i]) + 1e-13 * (1 + np.linalg.norm(Y[i]))
            require(e <= b, what + f": step {i} error {e} more than fifth-order term {b}")


def _expm(a):
    r, t = np.eye(len(a)), np.eye(len(a))
    s = max(0, int(np.ceil(np.log2(max(np.linalg.norm(a, 2), 1e-9)))) + 2)
    a = a / 2.0 ** s
    for k in range(1, 20):
        t = t @ a / k
        r = r + t
    for _ in range(s):
        r = r @ r
    return r


# problems y' = F with closed form y(x) from y(x0)=y0; amp bounds the amplification of errors
def problem(kind, p):
    if kind == "zero":
        return (lambda t, y: 0.0 * y), (lambda t, t0, y0: y0 + 0 * t), np.array([p]), 0.0
    if kind == "const":
        return (lambda t, y: np.array([p])), (lambda t, t0, y0: y0 + p * (t - t0)), np.array([0.3]), 0.0
    if kind == "exp":
        return (lambda t, y: p * y), (lambda t, t0, y0: y0 * np.exp(p * (t - t0))), np.array([0.8]), abs(p)
    if kind == "cos":
        return (lambda t, y: np.array([np.cos(p * t)])), (lambda t, t0, y0: y0 + (np.sin(p * t) - np.sin(p * t0)) / p), np.array([0.1]), 0.0
    if kind == "rot":
        def F(t, y):
            return p * np.array([y[1], -y[0]])

        def S(t, t0, y0):
            a = p * (t - t0)
            return np.array([y0[0] * np.cos(a) + y0[1] * np.sin(a), y0[1] * np.cos(a) - y0[0] * np.sin(a)])

        return F, S, np.array([1.0, 0.4]), 0.0
    if kind == "logistic":
        return (lambda t, y: p * y * (1 - y)), (lambda t, t0, y0: 1 / (1 + (1 / y0 - 1) * np.exp(-p * (t - t0)))), np.array([0.4]), abs(p)
    if kind == "tv":  # y' = -2 p t y^2 -> y = 1/(p t^2 + c)
        q = abs(p)
        return (lambda t, y: -2 * q * t * y * y), (lambda t, t0, y0: 1 / (q * t * t + (1 / y0 - q * t0 * t0))), np.array([0.5 / (1 + 30 * q)]), 2.0
    if kind == "sincos":  # y' = cos(t) y
        return (lambda t, y: np.cos(p * t) * y), (lambda t, t0, y0: y0 * np.exp((np.sin(p * t) - np.sin(p * t0)) / p)), np.array([0.6, 1.7]), 1.0
    raise KeyError(kind)


def replicate(F, S, y0, n):
    """n uncoupled copies of a problem, each with its own initial values"""
    if n == 1:
        return F, S, y0
    m = len(y0)
    sc = np.linspace(1.0, 0.7, n)

    def G(t, y):
        return np.concatenate([F(t, y[i * m:(i + 1) * m]) for i in range(n)])

    def T(t, t0, z0):
        return np.concatenate([np.reshape(S(t, t0, z0[i * m:(i + 1) * m]), -1) for i in range(n)])

    return G, T, np.concatenate([s * y0 for s in sc])


KINDS = ["exp", "cos", "rot", "logistic", "tv", "sincos"]

# Cash & Karp, ACM TOMS 16 (1990): nodes, stage weights, order 5 and order 4 weights
CK = ([0, 1 / 5, 3 / 10, 3 / 5, 1, 7 / 8],
      [[], [1 / 5], [3 / 40, 9 / 40], [3 / 10, -9 / 10, 6 / 5], [-11 / 54, 5 / 2, -70 / 27, 35 / 27], [1631 / 55296, 175 / 512, 575 / 13824, 44275 / 110592, 253 / 4096]],
      [37 / 378, 0, 250 / 621, 125 / 594, 0, 512 / 1771], [2825 / 27648, 0, 18575 / 48384, 13525 / 55296, 277 / 14336, 1 / 4])


def ck_step(F, x, y, h):
    K = []
    for cn, an in zip(CK[0], CK[1]):
        K.append(h * F(x + cn * h, y + sum((a * k for a, k in zip(an, K)), 0 * y)))
    d5, d4 = (sum(w * k for w, k in zip(b, K)) for b in CK[2:])
    return d5, np.sqrt(np.mean((d5 - d4) ** 2))


def ck_steps(F, x, y, xs, h, tol):
    """number of steps of a reference integration"""
    n = 0
    while n < 5000 and (xs - x) * h > 0:
        if abs(h) > abs(xs - x):
            h = xs - x
        d, e = ck_step(F, x, y, h)
        if e <= tol:
            x, y, n = (xs, y + d, n + 1) if h == xs - x else (x + h, y + d, n + 1)
        h *= min(10.0, 0.9 * (tol / e) ** 0.2) if e > 0 else 10.0
    return n


def by_chance(F, X, Y, tol):
    """every step is the published embedded step with an estimate within tolerance: when the error is larger all the same,
    the estimate was small by chance (it vanishes for some step lengths), which no change of the code is responsible for"""
    for i in range(len(X) - 1):
        d, e = ck_step(F, X[i], Y[i], X[i + 1] - X[i])
        if e > tol * (1 + 1e-6) + 1e-15 * np.abs(Y[i]).max() or np.any(np.abs(Y[i] + d - Y[i + 1]) > 1e-10 * (1 + np.abs(Y[i + 1]))):
            return False
    return True


@sub("C25", "integers", st.fixed_dictionaries(dict(x0=st.integers(-5, 5), xs=st.integers(-6, 6), y0=st.lists(st.integers(-4, 4), min_size=1, max_size=4), n=real(0.5, 30.0), lam=real(-1.5, 1.0), w=real(-2.0, 2.0),
                                                   as_=st.sampled_from(["int64", "int32"]), which=st.integers(1, 3), whole=st.booleans())), quick=250)
def c25_int(c, x):
    """integer abscissas and initial values are those of equal real ones"""
    if c["xs"] == c["x0"]:
        raise OutOfDomain()
    F = lambda t, y: c["lam"] * y + c["w"] * np.cos(t)
    L = c["xs"] - c["x0"]
    yi = np.array(c["y0"], dtype=c["as_"]) if c["which"] & 1 else np.array(c["y0"], dtype=float)
    xi = (c["x0"], c["xs"]) if c["which"] & 2 else (float(c["x0"]), float(c["xs"]))
    yr, xr = np.array(c["y0"], dtype=float), (float(c["x0"]), float(c["xs"]))
    h = L / c["n"]
    hi = int(np.sign(L)) if c["whole"] else h
    for name, f, back in (("RK4", _ode.RK4, False), ("RKF45", lambda *a: _ode.RKF45(*a, 1e-5), True)):
        if L < 0 and not back:
            continue
        X, Y = f(F, xi[0], yi, xi[1], hi)
        U, V = f(F, xr[0], yr, xr[1], float(hi))
        what = f"{name} from {xi[0]!r} to {xi[1]!r} step {hi!r} with initial values {yi!r}"
        close(num(X, what), U, 1e-12, what + ": abscissas", atol=1e-12)
        close(num(Y, what), V, 1e-12, what + ": values", atol=1e-11)
    require(yi.dtype == (c["as_"] if c["which"] & 1 else float) and np.array_equal(yi, c["y0"]), "initial values modified")
    x.label("backward", L < 0)


@sub("C25", "rk4_order", st.fixed_dictionaries(dict(kind=st.sampled_from(["exp", "cos", "rot", "logistic", "tv", "sincos"]), p=real(0.4, 2.0), copies=st.sampled_from([1, 1, 1, 2, 3, 6]), x0=real(-1.0, 1.0), L=real(1.0, 3.0))), quick=250)
def c25_order(c, x):
    F, S, y0, _ = problem(c["kind"], c["p"])
    F, S, y0 = replicate(F, S, y0, c.get("copies", 1))
    x0, L = c["x0"], c["L"]
    err = []
    for n in (8, 16, 32, 64):
        X, Y = _ode.RK4(F, x0, y0, x0 + L, L / (n - 0.5))
        ref = np.array([S(t, x0, y0) for t in num(X)])
        err.append(float(np.max(np.abs(num(Y) - ref)) / np.max(np.abs(ref))))
    what = f"RK4 {c['kind']} p={c['p']} from {x0} length {L}: errors {err} for 8,16,32,64 steps"
    require(err[0] < 0.05, what)
    for i, j in ((0, 2), (1, 3), (0, 3)):
        require(err[j] <= err[i] * 2.0 ** (-3.3 * (j - i)) + 1e-13, what + ": not fourth order")


@sub("C25", "rkf45", st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS + ["zero", "const"]), p=real(0.4, 2.0), copies=st.sampled_from([1, 1, 1, 2, 3, 6]), x0=real(-1.0, 1.0, special=[0.0]), L=real(0.05, 4.0), back=st.booleans(), A=real(1e-3, 1e6, log=True) | st.just(1.0),
                                                h=real(1e-6, 30.0, log=True, special=[1.0]), flip=st.sampled_from([False, False, False, True]), tol=real(1e-10, 1e-3, log=True) | st.none())), quick=700)
def c25_rkf(c, x):
    F, S, y0, lam = problem(c["kind"], c["p"])
    F, S, y0 = replicate(F, S, y0, c.get("copies", 1))
    x0, L = c["x0"], c["L"]
    if c["kind"] == "tv":
        L = min(L, 2.0)
    sg = -1.0 if c["back"] else 1.0
    xs = x0 + sg * L
    h = sg * min(c["h"] * L, 30.0) * (-1 if c["flip"] else 1)
    reach = max(L, abs(h)) + (abs(h) if c["flip"] else 0)
    if c["kind"] in ("exp", "logistic", "tv", "sincos"):
        h = np.sign(h) * min(abs(h), 3.0)
        reach = max(L, abs(h)) + (abs(h) if c["flip"] else 0)
    tol = c["tol"] or 1e-6
    A = 1.0
    if c["tol"] and c["kind"] in ("exp", "rot", "sincos"):  # linear problems: any size of the solution, tolerance is absolute
        A = c.get("A", 1.0)
        y0, tol = y0 * A, tol * A
    keep = y0.copy()
    n = [0]

    def G(t, y):
        n[0] += 1
        return F(t, y)

    X, Y = _ode.RKF45(G, x0, y0, xs, h, tol) if c["tol"] else _ode.RKF45(G, x0, y0, xs, h)
    what = f"RKF45 {c['kind']} p={c['p']} from {x0} to {xs} initial step {h} tol {tol} y0={y0}"
    X, Y = num(X, what), num(Y, what)
    require(np.array_equal(keep, y0), "RKF45 modified its initial value")
    require(len(X) == len(Y) and X[0] == x0, what + " start")
    close(X[-1], xs, 1e-13, what + ": end", atol=1e-13)
    steps = len(X)
    err = float(np.max(np.abs(Y[-1] - S(xs, x0, y0))))
    amp = np.exp(min(lam * 2 * reach, 30.0))
    ok = err <= 3 * tol * steps * amp + 1e-11 * amp * A
    require(ok or by_chance(F, X, Y, tol), what + f": error {err} with {steps} steps")
    x.label("estimate vanishes by chance", not ok)
    require(n[0] <= 6 * 10000, what)
    x.label("backward", c["back"])
    x.label("step over range", abs(h) > L)
    x.label("large values", A > 100)
    x.label("wrong direction", c["flip"])


@sub("C25", "rkf45_long", st.fixed_dictionaries(dict(w=real(0.2, 20.0, log=True), steps=real(60.0, 6000.0, log=True), tol=real(1e-10, 1e-3, log=True), back=st.booleans(), x0=real(-100.0, 100.0, special=[0.0]), copies=st.integers(1, 3), damp=st.sampled_from([0.0, 0.0, 0.02]))), quick=60)
def c25_long(c, x):
    """many steps (the length is chosen from the number of steps of a short integration), fixed and adaptive"""
    w, sg = c["w"], -1.0 if c["back"] else 1.0
    A = np.kron(np.eye(c["copies"]), np.array([[0.0, w], [-w, 0.0]]))
    F = lambda t, y: A @ y + 0.0 * np.cos(t)
    y0 = np.resize([1.0, 0.0], 2 * c["copies"])
    x0 = c["x0"]
    S = lambda t: np.resize([np.cos(w * (t - x0)), -np.sin(w * (t - x0))], 2 * c["copies"])
    X, Y = _ode.RKF45(F, x0, y0, x0 + sg * 20.0 / w, sg * 0.5 / w, c["tol"])
    L = 20.0 / w * c["steps"] / len(X)
    xs = x0 + sg * L
    X, Y = _ode.RKF45(F, x0, y0, xs, sg * 0.5 / w, c["tol"])
    X, Y = num(X), num(Y)
    what = f"RKF45 rotation w={w} from {x0} to {xs} tol {c['tol']}: {len(X)} steps"
    close(X[-1], xs, 1e-12, what + ", end", atol=1e-12)
    ref = np.array([S(t) for t in X])
    err = np.max(np.abs(Y - ref), axis=1)
    require(err <= 4 * c["tol"] * (1 + np.arange(len(X))) + 1e-11 * (1 + np.abs(w * (X - x0))) + 1e-13 * w * np.abs(x0), what + f", error {err.max()}")
    # fixed step, forwards: same number of steps
    n = int(c["steps"])
    h = 0.2 / w
    X, Y = _ode.RK4(F, x0, y0, x0 + (n - 0.5) * h, h)
    X, Y = num(X), num(Y)
    what = f"RK4 rotation w={w} from {x0}, {n} steps of {h}"
    require(abs(len(X) - n - 1) <= 1, what + f": {len(X) - 1} steps")
    close(X[-1], x0 + (n - 0.5) * h, 1e-12, what + ", end", atol=1e-12)
    z = np.cumprod(np.r_[1.0, np.polyval([1 / 24, 1 / 6, 1 / 2, 1, 1], -1j * w * np.diff(X))])  # amplification of the method
    ref = np.resize(np.array([z.real, z.imag]), (2 * c["copies"], len(z))).T
    require(np.abs(Y - ref) <= 1e-6 * np.arange(1, len(X) + 1)[:, None], what + f": {np.abs(Y - ref).max()} from a fourth-order method")
    x.label("over 200 steps", c["steps"] > 200)
    x.label("over 1000 steps", c["steps"] > 1000)


@sub("C25", "rkf45_mono", st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), p=real(0.4, 2.0), copies=st.sampled_from([1, 1, 1, 2, 3, 6]), x0=real(-1.0, 1.0, special=[0.0]), L=real(0.5, 3.0), back=st.booleans(), h=real(1e-4, 0.9, log=True))), quick=250)
def c25_mono(c, x):
    """tolerance controls the error, all stored points are on the solution and go one way"""
    F, S, y0, lam = problem(c["kind"], c["p"])
    F, S, y0 = replicate(F, S, y0, c.get("copies", 1))
    sg = -1.0 if c["back"] else 1.0
    L = min(c["L"], 2.0) if c["kind"] == "tv" else c["L"]
    x0, xs = c["x0"], c["x0"] + sg * L
    for tol in (1e-4, 1e-7, 1e-10):
        X, Y = _ode.RKF45(F, x0, y0, xs, sg * c["h"] * L, tol)
        X, Y = num(X), num(Y)
        d = np.diff(X) * sg
        what = f"RKF45 {c['kind']} p={c['p']} from {x0} to {xs} tol {tol}"
        require(d > 0, what + ": goes back")
        ref = np.array([S(t, x0, y0) for t in X])
        e = float(np.max(np.abs(Y - ref)))
        ok = e <= 3 * tol * len(X) * np.exp(min(lam * 2 * L, 30)) + 1e-12 * np.exp(lam * L)
        require(ok or by_chance(F, X, Y, tol), what + f": error {e}")
        x.label("estimate vanishes by chance", not ok)
        if tol < 1e-9:
            nref = ck_steps(F, x0, y0, xs, sg * c["h"] * L, tol)
            require(len(X) <= 2 * nref + 20, what + f": {len(X) - 1} steps where a fifth-order controlled integration takes {nref}")


# --- secant
FAM = {
    "lin": (lambda x, k: k * x - 1.0, lambda x, k: k + 0 * x),
    "cubic": (lambda x, k: x + 0.1 * k * x ** 3, lambda x, k: 1 + 0.3 * k * x ** 2),
    "exp": (lambda x, k: np.exp(0.3 * k * x), lambda x, k: 0.3 * k * np.exp(0.3 * k * x)),
    "asinh": (lambda x, k: -np.arcsinh(0.3 * k * x), lambda x, k: 0.3 * k / np.sqrt(1 + (0.3 * k * x) ** 2)),
    "wave": (lambda x, k: k * (x + 0.3 * np.sin(x)), lambda x, k: k * (1 + 0.3 * np.cos(x))),
}


@sub("C25", "secant", st.fixed_dictionaries(dict(f=st.sampled_from(sorted(FAM)), k=real(0.5, 2.0), root=st.lists(real(-2.0, 2.0, special=[0.0, 1.0]), min_size=1, max_size=4),
                                                 d=st.lists(real(-0.7, 0.7, special=[0.0, 0.5]), min_size=4, max_size=4), zero=st.sampled_from([0, 0, 1, 2]), form=st.sampled_from(["scalar", "array", "ystart", "2d"]),
                                                 tol=st.sampled_from([None, None, 1e-7, 1e-4]), tile=st.sampled_from([1, 1, 1, 50]), unit=st.just(1.0) | real(1e-15, 1e15, log=True))), quick=900)
def c25_secant(c, x):
    f, df = FAM[c["f"]]
    k = c["k"]
    unit = c["unit"]  # unit of the values of the function
    F = lambda v: unit * f(v, k)
    root = np.tile(np.array(c["root"]), c["tile"] if c["form"] != "scalar" else 1)
    start = root + np.resize(np.array(c["d"]), root.size)
    if c["zero"] == 1:
        start = np.zeros_like(root)
    elif c["zero"] == 2:
        start = 1e-3 * np.resize(np.array(c["d"]), root.size)
    if c["form"] == "ystart":
        start = np.full_like(root, start[0])
    if np.any(np.abs(start - root) > 2.2):
        raise OutOfDomain()
    y = F(root)
    kw = {} if c["tol"] is None else dict(tol=c["tol"])
    tol = c["tol"] or 1e-5
    form = c["form"]
    if form == "scalar":
        r = np.array([flt(its.secant_solve(F, float(a), float(b), **kw), "secant_solve") for a, b in zip(y, start)])
    elif form == "ystart":
        r = num(its.secant_solve(F, y, float(start[0]), **kw), "secant_solve")
    elif form == "array":
        r = num(its.secant_solve(F, y, start, **kw), "secant_solve")
    else:
        r = num(its.secant_solve(F, np.stack([y, y]), np.stack([start, start]), **kw), "secant_solve")
        require(r.shape == (2, root.size) and np.array_equal(r[0], r[1]), f"secant_solve result {r} for two equal rows")
        r = r[0]
    what = f"secant_solve {c['f']} k={k} y={y} from {start}"
    require(r.shape == root.shape, what + f" shape {r.shape}")
    require("max number" not in out_text(), what + ": iterations exhausted")
    close(r, root, tol, what, atol=tol)
    # element by element
    one = np.array([flt(its.secant_solve(F, float(a), float(b), **kw)) for a, b in zip(y, start)])
    require(np.abs(one - r) <= 1e-12 * (1 + np.abs(r)), what + f": array {r} and scalar {one} results differ")
    x.label("null or small start", c["zero"] > 0)


# ---------------------------------------------------------------------------------------------- two computations at the same time
AT = st.lists(real(0.0, 1.0), min_size=1, max_size=3)
PAIR = st.lists(st.tuples(st.integers(2, 14), interval, st.integers(1, 4), st.integers(0, 10 ** 6)), min_size=2, max_size=2)


@sub("C23", "interleaved", st.fixed_dictionaries(dict(o=PAIR, same=st.booleans(), at=AT)), quick=200)
def c23_interleaved(c, x):
    """matrices of one operator while those of another are computed"""
    def job(n, iv, k, seed):
        return lambda: (lambda op: [op.x, op.matder(k), op.matder(1)])(build(n, iv)[0])

    b = (c["o"][0][0],) + tuple(c["o"][1][1:]) if c["same"] else c["o"][1]
    undisturbed(job(*c["o"][0]), job(*b), c["at"], f"derivatives on {c['o'][0][:3]} while others on {b[:3]} are computed", rtol=1e-9)


@sub("C24", "interleaved", st.fixed_dictionaries(dict(o=PAIR, same=st.booleans(), at=AT, fit=st.booleans())), quick=200)
def c24_interleaved(c, x):
    """interpolations of one operator while another one is used"""
    def job(n, iv, k, seed):
        r = np.random.default_rng(seed)
        a, b = (-1.0, 1.0) if iv is None else iv
        xs, fk, fs = a + (b - a) * np.linspace(0, 1, 2 * n + 1), r.uniform(-1, 1, n), r.uniform(-1, 1, 2 * n + 1)
        return lambda: (lambda op: [op.fit_to_gauss(xs, fs) if c["fit"] else 0.0, op.extrapol(fk, xs)])(build(n, iv)[0])

    b = (c["o"][0][0],) + tuple(c["o"][1][1:]) if c["same"] else c["o"][1]
    undisturbed(job(*c["o"][0]), job(*b), c["at"], f"interpolation on {c['o'][0][:3]} while another on {b[:3]} is computed", rtol=1e-9)


@sub("C25", "nested", st.fixed_dictionaries(dict(j=st.lists(st.tuples(st.sampled_from(["RK4", "RKF45", "secant"]), real(-2.0, 2.0), st.integers(1, 4), real(0.3, 2.0)), min_size=2, max_size=2), same=st.booleans(), at=AT)), quick=250)
def c25_nested(c, x):
    """a solver called by the function given to another one, or while another one runs"""
    def job(kind, lam, m, L, inner=None):
        F = (lambda t, y: lam * y + np.cos(t)) if inner is None else (lambda t, y: (inner(), lam * y + np.cos(t))[1])
        y0 = np.linspace(1.0, 0.5, m)
        if kind == "RK4":
            return lambda: _ode.RK4(F, 0.0, y0, L, L / (m + 1.5))
        if kind == "RKF45":
            return lambda: _ode.RKF45(F, 0.0, y0, L, L / 2, 1e-6)
        k = 1.5 + abs(lam)
        G = (lambda v: k * v + np.sin(v)) if inner is None else (lambda v: (inner(), k * v + np.sin(v))[1])
        return lambda: its.secant_solve(G, k * y0 * L + np.sin(y0 * L), y0)

    a, b = c["j"]
    if c["same"]:
        b = [a[0]] + list(b[1:])
    undisturbed(job(*a), job(*b), c["at"], f"{a} while {b} runs")
    for p, q in zip(job(*a, job(*b))(), job(*a)()):
        require(np.array_equal(p, q), f"{a} calling {b}: {p} instead of {q}")
    x.label(a[0] + " and " + b[0])
