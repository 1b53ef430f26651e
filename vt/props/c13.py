import numpy as np

import tensap
from vt.core import Prop, Skip
from vt.props.c11 import random_measure, normal_moments

P = Prop("C13", "Orthonormal polynomials are orthonormal, with true values and derivatives",
         "uniform, normal, Lebesgue, discrete (2-7 atoms, positive weights, any mass) and "
         "empirical (4-9 points) measures, standard or shifted; degrees up to 12 (below the number "
         "of atoms for discrete measures, 5 for empirical ones), derivative orders 0-4, points in "
         "and out of the support, degree sets in any order with repetitions. Inner products "
         "are computed by an independent quadrature (numpy's Gauss rules, sums over atoms, mixtures "
         "of normal moments); values by monomial coefficients fitted independently. Non-trivial: "
         "degree >= 1 involved; distinct by measure and degrees.")


class Fam:
    """A measure of mass m with an independent exact quadrature (x, w) on it."""

    def __init__(self, ctx, kinds=None):
        kind = ctx.choice(kinds or ["uniform", "normal", "lebesgue", "discrete",
                                    "discrete-measure", "empirical"])
        self.kind = kind
        if kind == "discrete-measure":
            n = ctx.randint(2, 7)
            v = ctx.rng.permutation(np.round(ctx.rng.permutation(np.linspace(-1.5, 1.5, 13))[:n], 3))
            w = ctx.rng.uniform(0.2, 2, n)
            self.measure, self.x, self.w, self.max = tensap.DiscreteMeasure(v, w), v, w, n - 1
            self.desc = [kind, v, w]
        else:
            kind, mu, mom, nmax = random_measure(ctx, (kind,))
            if kind == "empirical" and ctx.coin(0.4):
                mu = tensap.EmpiricalRandomVariable(
                    np.round(ctx.rng.standard_normal(ctx.randint(9, 20)) * ctx.choice([1, 0.5]) + ctx.choice([0, 1]), 3))
            self.measure = mu
            if kind in ("uniform", "lebesgue"):
                a, b = np.ravel(mu.support())
                x, w = np.polynomial.legendre.leggauss(24)
                self.x, self.w = a + (b - a) * (x + 1) / 2, w / 2 * (1 if kind == "uniform" else b - a)
                self.max, self.desc = 12, [kind, a, b]
            elif kind == "normal":
                x, w = np.polynomial.hermite_e.hermegauss(30)
                m, s = mu.get_parameters()
                self.x, self.w = m + s * x, w / np.sum(w)
                self.max, self.desc = 12, [kind, m, s]
            elif kind == "discrete":
                self.x, self.w = np.ravel(mu.values), np.ravel(mu.probabilities)
                self.max, self.desc = self.x.size - 1, [kind, self.x, self.w]
            else:
                x, w = np.polynomial.hermite_e.hermegauss(20)
                h, t = float(mu.bandwidth), np.asarray(mu.sample)
                self.x = (t[:, None] + h * x[None, :]).ravel()
                self.w = np.tile(w / np.sum(w) / t.size, t.size)
                self.max, self.desc = min(t.size - 2, 8), [kind, t]
        self.mass = float(np.sum(self.w))
        self.poly = self.measure.orthonormal_polynomials()
        self.tol = 1e-6 if self.kind == "empirical" else 1e-8

    def points(self, ctx, n=5, p=0.12):
        m = np.sum(self.w * self.x) / self.mass
        s = np.sqrt(np.sum(self.w * (self.x - m) ** 2) / self.mass)
        return ctx.integral(m + s * ctx.rng.uniform(-2.2, 2.2, n), p)

    def degrees(self, ctx, lo=0):
        n = ctx.randint(1, 5)
        return np.array([ctx.randint(lo, self.max) for _ in range(n)])

    def oracle(self, d):
        """Orthonormal polynomials of degrees 0..d by modified Gram-Schmidt
        on scaled Chebyshev-like columns: returns f(x) -> (n, d+1)."""
        m = np.sum(self.w * self.x) / self.mass
        s = max(np.max(np.abs(self.x - m)) / (1 if self.kind != "normal" else 3), 1e-12)
        V = np.polynomial.chebyshev.chebvander((self.x - m) / s, d)
        _, R = np.linalg.qr(np.sqrt(self.w)[:, None] * V)
        R = np.sign(np.diag(R))[:, None] * R
        return m, s, R


@P.scenario(160)
def orthonormality(ctx):
    F = Fam(ctx)
    d = F.max
    ctx.case(measure=F.desc, d=d)
    V = F.poly.polyval(np.arange(d + 1), F.x)
    ctx.equal("polyval:shape", V.shape, (F.x.size, d + 1))
    G = V.T @ (F.w[:, None] * V)
    ctx.close("orthonormal", G, np.eye(d + 1), rtol=F.tol)
    ctx.check("is_orthonormal", F.poly.is_orthonormal())
    # graded: the leading coefficient of p_k is positive and p_k is of degree k
    m, s, R = F.oracle(d)
    x = F.points(ctx, 6)
    ref = np.linalg.solve(R.T, np.polynomial.chebyshev.chebvander((x - m) / s, d).T).T
    sgn = 1.0
    got = F.poly.polyval(np.arange(d + 1), x)
    for k in range(d + 1):
        ctx.close("polyval:values", got[:, k], ref[:, k] * sgn, rtol=1e-6,
                  scale=max(1.0, np.max(np.abs(ref[:, :k + 1]))))
    ctx.check("measure:type", type(F.poly.measure) is type(F.measure))
    ctx.close("measure:mass", F.poly.measure.mass(), F.mass, rtol=1e-9)
    if F.kind not in ("empirical", "normal"):
        ref = np.ravel(F.measure.support())
        ctx.close("measure:support", np.ravel(F.poly.measure.support()), ref, rtol=1e-9, scale=1)
        ctx.close("domain", np.ravel(F.poly.domain()), ref, rtol=1e-9, scale=1)
        ctx.close("truncated_domain", np.ravel(F.poly.truncated_domain()), ref, rtol=1e-9, scale=1)
    else:
        ctx.check("domain", np.all(np.isinf(np.ravel(F.poly.domain()))))


@P.scenario(160)
def degree_sets(ctx):
    """Any selection of degrees gives the columns of the full evaluation."""
    F = Fam(ctx)
    ind = F.degrees(ctx)
    ctx.case(measure=F.desc, ind=ind)
    x = F.points(ctx)
    full = F.poly.polyval(np.arange(F.max + 1), x)
    sc = np.max(np.abs(full))
    arg = list(int(v) for v in ind) if ctx.coin() else ind
    ctx.close("polyval:columns", F.poly.polyval(arg, x), full[:, ind], rtol=1e-11, scale=sc)
    k = int(ind[0])
    ctx.close("polyval:one-degree", F.poly.polyval(k, x), full[:, k], rtol=1e-11, scale=sc)
    ctx.close("polyval:one-point", np.ravel(F.poly.polyval(ind, x[0])), full[0, ind], rtol=1e-11, scale=sc)
    ctx.close("polyval:column-points", F.poly.polyval(ind, x[:, None]), full[:, ind], rtol=1e-11, scale=sc)
    n = ctx.randint(0, 4)
    fd = F.poly.dn_polyval(n, np.arange(F.max + 1), x)
    ctx.close("dn_polyval:columns", F.poly.dn_polyval(n, arg, x), fd[:, ind], rtol=1e-11,
              scale=np.max(np.abs(fd)))


@P.scenario(160)
def derivatives(ctx):
    F = Fam(ctx)
    d, n = F.max, ctx.randint(0, 4)
    ctx.case(measure=F.desc, n=n)
    x = F.points(ctx)
    m, s, R = F.oracle(d)
    # exact derivatives of the independent representation
    C = np.linalg.inv(R)                       # columns: chebyshev coefficients of p_k
    got = F.poly.dn_polyval(n, np.arange(d + 1), x)
    for k in range(d + 1):
        c = C[:, k]
        dc = np.polynomial.chebyshev.chebder(c, n) if n else c
        ref = np.polynomial.chebyshev.chebval((x - m) / s, dc) / s ** n
        ctx.close("dn_polyval", got[:, k], ref, rtol=1e-5,
                  scale=max(np.max(np.abs(got[:, :k + 1])), 1e-3))
        if n > k:
            ctx.check("dn_polyval:zero", np.max(np.abs(got[:, k])) == 0)
    if n == 1:
        ctx.close("d_polyval", F.poly.d_polyval(np.arange(d + 1), x), got, rtol=1e-12)
    if n == 0:
        ctx.close("dn_polyval:0", got, F.poly.polyval(np.arange(d + 1), x), rtol=1e-12)


@P.scenario(120)
def coefficients(ctx):
    if ctx.coin(0.3):
        mu = ctx.choice([None, tensap.UniformRandomVariable(-1, 2), tensap.NormalRandomVariable()])
        poly = tensap.CanonicalPolynomials() if mu is None else tensap.CanonicalPolynomials(mu)
        d, kind = 6, "canonical"
        x = ctx.rng.uniform(-1.5, 1.5, 5)
    else:
        for _ in range(20):
            F = Fam(ctx)
            if not isinstance(F.poly, tensap.ShiftedOrthonormalPolynomials):
                break
        else:
            raise Skip()
        poly, d, kind, x = F.poly, min(F.max, 8), F.kind, F.points(ctx)
    ind = np.array([ctx.randint(0, d) for _ in range(ctx.randint(1, 4))])
    ctx.case(kind=kind, ind=ind)
    c = np.asarray(poly.poly_coeff(ind))
    ctx.equal("poly_coeff:shape", c.shape, (ind.size, int(np.max(ind)) + 1))
    ref = poly.polyval(ind, x)
    V = np.vander(x, c.shape[1], increasing=True)
    sc = np.max(np.abs(V) @ np.abs(c.T))
    ctx.close("poly_coeff:values", V @ c.T, ref, rtol=1e-9, scale=sc)
    for j, k in enumerate(ind):
        ctx.check("poly_coeff:degree", c[j, k] != 0 and np.all(c[j, k + 1:] == 0))
    W = np.asarray(poly.d_poly_coef(ind if ctx.coin() else list(ind)))
    V = np.vander(x, max(W.shape[1], 1), increasing=True)[:, :W.shape[1]]
    ctx.equal("d_poly_coef:rows", W.shape[0], ind.size)
    ctx.close("d_poly_coef:values", V @ W.T, poly.dn_polyval(1, ind, x), rtol=1e-8,
              scale=max(np.max(np.abs(V) @ np.abs(W.T), initial=0), 1e-3))
    n = ctx.randint(1, 3)
    dc = np.asarray(poly.dn_poly_coeff(n, ind))
    ctx.equal("dn_poly_coeff:rows", dc.shape[0], ind.size)
    W = np.vander(x, dc.shape[1], increasing=True)
    der = poly.dn_polyval(n, ind, x)
    ctx.close("dn_poly_coeff:values", W @ dc.T, der, rtol=1e-8,
              scale=max(np.max(np.abs(W) @ np.abs(dc.T)), 1e-3))
    ctx.close("d_polyval=dn_polyval", poly.d_polyval(ind, x), poly.dn_polyval(1, ind, x),
              rtol=1e-9, scale=np.max(np.abs(poly.dn_polyval(1, ind, x))) + 1e-3)
    if kind == "canonical":
        for j, k in enumerate(ind):
            ctx.close("canonical", ref[:, j], x ** k, rtol=1e-12)
            falling = np.prod([k - i for i in range(n)]) if k >= n else 0
            ctx.close("canonical:derivative", der[:, j], falling * x ** max(k - n, 0), rtol=1e-9, atol=1e-12)
        ctx.check("canonical:not-orthonormal", not poly.is_orthonormal())
        z = np.array([0.0, x[0]])
        for arg in (ind, int(ind[0]), 0):
            k = np.atleast_1d(arg)
            ctx.close("canonical:at-zero", poly.d_polyval(arg, z),
                      [[0 if j == 0 else j * t ** (j - 1) for j in k] for t in z], rtol=1e-12, atol=1e-14)


@P.scenario(160)
def moments_means(ctx):
    F = Fam(ctx)
    x, w = F.x, F.w
    other = ctx.coin(0.35)
    D = min(F.max, 6)
    if other:
        H = Fam(ctx, ["uniform", "normal", "lebesgue", "discrete"])
        mu, x, w = H.measure, H.x, H.w
        D = min(D, 4)
    else:
        mu = ctx.choice([None, F.measure])
    mass = float(np.sum(w))
    ctx.case(measure=F.desc, other=H.desc if other else None, given=mu is not None)
    V = F.poly.polyval(np.arange(D + 1), x)
    ncol = ctx.choice([1, 1, 2, 2, 3, 4, 5])
    D = D if ncol <= 3 else min(D, 3)
    # (many products of large degrees have a zero mean)
    ind = ctx.rng.integers(0, min(D, ctx.choice([1, 2, D])) + 1, (ctx.randint(1, 8), ncol))
    prods = np.array([np.prod(V[:, r], axis=1) for r in ind])
    ref = prods @ w
    sc = np.max(np.abs(prods) @ w) + 1e-3
    args = () if mu is None else (mu,)
    ctx.close("moment", F.poly.moment(ind, *args), ref, rtol=F.tol * 10, scale=sc)
    ctx.close("moment:1d", np.ravel(F.poly.moment(ind[0], *args)), [ref[0]], rtol=F.tol * 10, scale=sc)
    deg = ctx.rng.integers(0, D + 1, ctx.randint(1, 4))
    ctx.close("mean", F.poly.mean(deg, *args), (w @ V[:, deg]) / mass, rtol=F.tol * 10,
              scale=np.max(np.abs(V)) + 1e-3)
    # the constant one
    c, k = F.poly.one()
    y = F.points(ctx)
    ctx.close("one", np.ravel(c) @ np.atleast_2d(F.poly.polyval(np.atleast_1d(k), y).T), np.ones(y.size),
              rtol=1e-9)


@P.scenario(100)
def roots_recurrence(ctx):
    F = Fam(ctx)
    if F.kind in ("discrete", "discrete-measure") and F.max < 1:
        raise Skip()
    k = ctx.randint(1, F.max)
    ctx.case(measure=F.desc, k=k)
    r = np.asarray(F.poly.roots(k))
    ctx.equal("roots:number", r.shape, (k,))
    ctx.check("roots:real-sorted", np.all(np.isreal(r)) and np.all(np.diff(r) > 0))
    V = F.poly.polyval([k], r)
    sc = np.max(np.abs(F.poly.polyval([k], np.concatenate((F.x, r)))))
    ctx.close("roots:zero", V, np.zeros((k, 1)), atol=1e-7 * max(sc, 1))
    lo, hi = np.min(F.x), np.max(F.x)
    ctx.check("roots:in-hull", np.all(r > lo - 1e-9) and np.all(r < hi + 1e-9))
    base = F.poly.polynomials if isinstance(F.poly, tensap.ShiftedOrthonormalPolynomials) else F.poly
    rec, norms = base.recurrence_monic(k)
    ctx.equal("recurrence:shape", [rec.shape[0] >= 2, rec.shape[1], norms.size], [True, k + 1, k + 1])
    # monic three-term recurrence and norms describe the same polynomials
    y = ctx.rng.uniform(-1.5, 1.5, 4)
    p = [np.ones(4), y - rec[0, 0]]
    for j in range(1, k):
        p.append((y - rec[0, j]) * p[j] - rec[1, j] * p[j - 1])
    val = base.polyval(np.arange(k + 1), y)
    for j in range(k + 1):
        ctx.close("recurrence:norms", val[:, j] * norms[j], p[j], rtol=1e-7,
                  scale=max(np.max(np.abs(q)) for q in p))


@P.scenario(80)
def sampling_equality(ctx):
    F = Fam(ctx)
    ind = list(int(v) for v in F.degrees(ctx))
    ctx.case(measure=F.desc, ind=ind)
    if isinstance(F.measure, tensap.ProbabilityMeasure):
        n = ctx.randint(1, 6)
        other = ctx.coin(0.4)
        mu = tensap.UniformRandomVariable(0.25, 0.5) if other else None
        fx, x = F.poly.random(ind, n, mu) if other else F.poly.random(ind, n)
        ctx.equal("random:shape", np.shape(fx), (n, len(ind)))
        ctx.close("random:values", fx, F.poly.polyval(ind, x), rtol=1e-9,
                  scale=np.max(np.abs(F.poly.polyval(np.arange(F.max + 1), x))))
        if other:
            ctx.check("random:measure", np.all((np.ravel(x) >= 0.25) & (np.ravel(x) <= 0.5)))
        elif F.kind == "discrete":
            ctx.check("random:atoms", all(np.min(np.abs(F.x - t)) < 1e-12 for t in np.ravel(x)))
    ctx.equal("ndim", int(F.poly.ndim()), 1)
    ctx.check("eq", bool(F.poly == F.measure.orthonormal_polynomials()) is True)
    H = Fam(ctx)
    same = F.kind == H.kind and all(np.shape(a) == np.shape(b) and np.allclose(a, b)
                                    for a, b in zip(F.desc[1:], H.desc[1:]))
    ctx.check("eq:different", bool(F.poly == H.poly) == same, "%s %s" % (F.desc, H.desc))


@P.scenario(60)
def shifted_equality(ctx):
    """Shifted polynomials are equal when the polynomials, the shift and the scaling are."""
    H = [tensap.HermitePolynomials, tensap.LegendrePolynomials, tensap.LegendrePolynomialsLebesgue]
    a = [ctx.choice(range(3)), ctx.choice([-1.0, 0.5, 2.0]), ctx.choice([0.5, 1.5, 3.0])]
    b = list(a)
    what = ctx.choice(["same", "family", "shift", "scaling"])
    if what == "family":
        b[0] = (a[0] + ctx.randint(1, 2)) % 3
    elif what == "shift":
        b[1] = a[1] + ctx.choice([0.25, -1])
    elif what == "scaling":
        b[2] = a[2] * ctx.choice([2, 0.5])
    ctx.case(a=a, b=b)
    p, q = (tensap.ShiftedOrthonormalPolynomials(H[c](), s, t) for c, s, t in (a, b))
    ctx.check("eq:shifted", bool(p == q) == (what == "same") and bool(q == p) == (what == "same"), what)
    ctx.check("eq:other-type", not bool(p == H[a[0]]()) and not bool(H[a[0]]() == p) and not bool(p == 1))


@P.scenario(40)
def empirical_from_sample(ctx):
    n = ctx.randint(4, 9)
    t = np.round(ctx.rng.standard_normal(n) * 2 + 1, 3)
    ctx.case(t=t)
    p = tensap.EmpiricalPolynomials(t if ctx.coin() else tensap.EmpiricalRandomVariable(t))
    # orthonormal for the standardised sample
    z = (t - np.mean(t)) / np.std(t)
    h = 3.5 * n ** (-1 / 3)
    x, w = np.polynomial.hermite_e.hermegauss(20)
    X = (z[:, None] + h * x[None, :]).ravel()
    W = np.tile(w / np.sum(w) / n, n)
    d = min(n - 2, 5)
    V = p.polyval(np.arange(d + 1), X)
    ctx.close("empirical:orthonormal", V.T @ (W[:, None] * V), np.eye(d + 1), rtol=1e-6)


@P.scenario(1, 1)
def known_findings(ctx):
    X = tensap.DiscreteRandomVariable(np.arange(20))
    try:
        X.orthonormal_polynomials().polyval([10], np.arange(3))
        present = False
    except IndexError:
        present = True
    ctx.finding("discrete-polynomials-many-atoms", present,
                "DiscreteRandomVariable(range(20)).orthonormal_polynomials() stops at degree 6")
