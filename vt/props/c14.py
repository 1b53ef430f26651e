import numpy as np
from scipy.interpolate import BSpline

import tensap
from vt.core import Prop, Skip
from vt.props.c13 import Fam

P = Prop("C14", "One-dimensional bases evaluate, differentiate and project consistently",
         "polynomial bases of every measure (any list of degrees), monomials, piecewise polynomials "
         "(1-6 elements, degrees 0-5), B-splines (degrees 0-4; distinct, repeated or extended knots), "
         "dilated B-splines (base 2-3, levels 0-3), user-defined, delta and sub-bases; derivative orders "
         "0-4, points away from breakpoints, scalar and vector-valued data. References: "
         "Chebyshev/Legendre series from numpy, scipy's B-splines, independent Gauss quadratures. "
         "Non-trivial: more than one basis function; distinct by basis and data.")


def legendre_ref(points, p, x, k):
    cols = []
    for a, b, q in zip(points[:-1], points[1:], p):
        inside = (x >= a) & (x < b)
        for d in range(q + 1):
            c = np.zeros(d + 1)
            c[d] = np.sqrt((2 * d + 1) / (b - a))
            if k:
                c = np.polynomial.legendre.legder(c, k) * (2 / (b - a)) ** k
            cols.append(np.where(inside, np.polynomial.legendre.legval(2 * (x - a) / (b - a) - 1, c), 0))
    return np.array(cols).T


def bspline_ref(t, m, x, k):
    cols = []
    for i in range(len(t) - 1 - m):
        s = t[i:i + m + 2]
        if s[-1] == s[0]:
            cols.append(np.zeros(x.size))
            continue
        b = BSpline.basis_element(s, extrapolate=False)
        y = b(x, nu=k) if k <= m else np.where(np.isnan(b(x)), np.nan, 0)
        cols.append(np.nan_to_num(y))
    return np.array(cols).T


def composite(breaks, n=12):
    x, w = np.polynomial.legendre.leggauss(n)
    b = np.unique(breaks)
    X = [a + (c - a) * (x + 1) / 2 for a, c in zip(b[:-1], b[1:])]
    W = [w * (c - a) / 2 for a, c in zip(b[:-1], b[1:])]
    return np.concatenate(X), np.concatenate(W)


class B1:
    """A basis with a reference ref(x, k) of its k-th derivatives, an exact
    quadrature (x, w) of its measure and generic evaluation points."""

    def __init__(self, ctx, kinds=("poly", "piecewise", "bspline", "dilated", "monomials", "user", "sub")):
        kind = self.kind = ctx.choice(list(kinds))
        self.ctx = ctx
        self.orth = False
        self.maxder = 4
        self.tol = 1e-7
        if kind == "poly":
            F = Fam(ctx)
            hi = min(F.max, 8 if F.kind != "empirical" else 5)
            ind = np.sort(ctx.rng.permutation(hi + 1)[:ctx.randint(1, hi + 1)])
            if ctx.coin(0.5):
                ind = np.arange(ctx.randint(0, hi) + 1)
            elif ctx.coin(0.3):
                ind = ctx.rng.permutation(ind)
            self.fam, self.ind = F, ind
            self.basis = tensap.PolynomialFunctionalBasis(F.poly, ind if ctx.coin() else list(ind))
            m, s, R = F.oracle(hi)
            C = np.linalg.inv(R)

            def ref(x, k):
                out = []
                for j in ind:
                    c = C[:, j]
                    c = np.polynomial.chebyshev.chebder(c, k) if k else c
                    out.append(np.polynomial.chebyshev.chebval((x - m) / s, c) / s ** k)
                return np.array(out).T
            self.ref, self.x, self.w, self.orth = ref, F.x, F.w, True
            self.tol = 1e-5 if F.kind == "empirical" else 1e-7
            self.desc = [kind, F.desc, ind]
            self.pts = lambda n: F.points(ctx, n, 0)
            self.measure = F.measure
        elif kind == "monomials":
            mu = ctx.choice([tensap.UniformRandomVariable(-1, 2), tensap.NormalRandomVariable(),
                             tensap.LebesgueMeasure(0, 1.5)])
            ind = ctx.rng.permutation(6)[:ctx.randint(1, 5)]
            if ctx.coin():
                ind = np.arange(ctx.randint(1, 5))
            self.ind = ind
            self.basis = tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(mu), ind)
            G = mu.gauss_integration_rule(12)
            self.x, self.w = np.ravel(G.points), np.ravel(G.weights)

            def ref(x, k):
                return np.array([np.prod([j - i for i in range(k)]) * x ** (j - k) if j >= k
                                 else 0 * x for j in ind]).T
            self.ref, self.desc, self.measure = ref, [kind, type(mu).__name__, ind], mu
            self.pts = lambda n: ctx.rng.uniform(-1.5, 1.5, n)
        elif kind == "piecewise":
            n = ctx.randint(1, 6)
            pts = np.sort(ctx.rng.permutation(np.linspace(-1, 2, 13))[:n + 1])
            p = ctx.rng.integers(0, 6, n)
            if ctx.coin(0.4):
                p[:] = p[0]
            arg = int(p[0]) if np.all(p == p[0]) and ctx.coin() else (p if ctx.coin() else list(p))
            self.basis = tensap.PiecewisePolynomialFunctionalBasis(pts if ctx.coin() else list(pts), arg)
            self.breaks, self.p = pts, p
            self.ref = lambda x, k: legendre_ref(pts, p, x, k)
            self.x, self.w, self.orth = *composite(pts), True
            self.desc, self.measure = [kind, pts, p], None
            self.pts = lambda n: self.generic(ctx, pts[0], pts[-1], pts, n)
        elif kind in ("bspline", "user", "sub", "dilated"):
            getattr(self, kind)(ctx)

    def points(self, n):
        """Points of evaluation, integers stored as integers at times when every integer is one."""
        p = 0.12 if self.kind in ("poly", "monomials", "user") else 0
        return self.ctx.integral(self.pts(n), p)

    @staticmethod
    def generic(ctx, a, b, breaks, n):
        x = ctx.rng.uniform(a, b, n)
        for _ in range(50):
            bad = np.min(np.abs(x[:, None] - np.asarray(breaks)[None, :]), axis=1) < 1e-3 * (b - a)
            if not np.any(bad):
                break
            x[bad] = ctx.rng.uniform(a, b, int(np.sum(bad)))
        return x

    def bspline(self, ctx):
        m = ctx.randint(0, 4)
        style = ctx.choice(["distinct", "repeated", "extra", "cardinal"])
        if style == "cardinal":
            t = np.arange(m + 2.0)
            self.basis = tensap.BSplinesFunctionalBasis.cardinal_bspline(m)
        elif style == "extra":
            s = np.sort(ctx.rng.permutation(np.linspace(-1, 2, 13))[:ctx.randint(2, 6)])
            t = np.concatenate((s[0] + np.arange(-m, 0) * (s[1] - s[0]), s,
                                s[-1] + np.arange(1, m + 1) * (s[-1] - s[-2])))
            self.basis = tensap.BSplinesFunctionalBasis.with_extra_knots(s, m)
            ctx.equal("with_extra_knots:cardinal", self.basis.cardinal(), s.size - 1 + m)
            ctx.close("with_extra_knots:support", np.ravel(self.basis.domain()), [s[0], s[-1]])
            # partition of unity over the interval
            x = ctx.rng.uniform(s[0], s[-1], 6)
            ctx.close("with_extra_knots:partition", np.sum(self.basis.eval(x), axis=1), np.ones(6))
        else:
            t = np.sort(ctx.rng.permutation(np.linspace(-1, 2, 13))[:m + 2 + ctx.randint(0, 5)])
            if style == "repeated":
                t = np.concatenate(([t[0]] * ctx.randint(0, m), t, [t[-1]] * ctx.randint(0, m)))
                if ctx.coin(0.4) and t.size > 3:
                    j = ctx.randint(1, t.size - 2)
                    t = np.sort(np.append(t, t[j]))
            self.basis = tensap.BSplinesFunctionalBasis(t if ctx.coin() else list(t), m)
        self.ref = lambda x, k: bspline_ref(t, m, x, k)
        self.x, self.w = composite(t)
        self.desc, self.measure = ["bspline", style, t, m], None
        self.pts = lambda n: self.generic(ctx, t[0] - 0.2, t[-1] + 0.2, t, n)

    def dilated(self, ctx):
        m, b, L = ctx.randint(0, 3), ctx.randint(2, 3), ctx.randint(0, 2)
        if ctx.coin():
            self.basis = tensap.DilatedBSplinesFunctionalBasis.with_level_bounded_by(m, b, L)
            lev = np.concatenate([np.full(b ** l + m, l) for l in range(L + 1)])
            loc = np.concatenate([np.arange(-m, b ** l) for l in range(L + 1)])
        else:
            n = ctx.randint(1, 6)
            lev, loc = ctx.rng.integers(0, 4, n), ctx.rng.integers(-2, 8, n)
            self.basis = tensap.DilatedBSplinesFunctionalBasis(tensap.DilatedBSplines(m, b),
                                                               ctx.choice([list, tuple])((lev, loc)))

        def ref(x, k):
            return np.array([bspline_ref(np.arange(m + 2.0), m, float(b) ** l * x - j, k)[:, 0]
                             * float(b) ** (l / 2 + k * l) for l, j in zip(lev, loc)]).T
        self.ref = ref
        h = float(b) ** -np.max(lev)
        self.x, self.w = composite(np.arange(-m, 1 + h / 2, h), 6)
        self.desc, self.measure = ["dilated", m, b, lev, loc], None
        br = np.arange(-4, 4, h)
        self.pts = lambda n: self.generic(ctx, -0.5, 1.5, br, n)

    def user(self, ctx):
        a = ctx.rng.uniform(-2, 2, ctx.randint(1, 4))
        mu = ctx.choice([tensap.UniformRandomVariable(-1, 1), tensap.LebesgueMeasure(-1, 1)])
        fun = [(lambda x, c=c: np.exp(c * x)) for c in a]
        self.basis = tensap.UserDefinedFunctionalBasis(fun, mu, *([1] if ctx.coin() else []))
        self.ref = lambda x, k: np.array([c ** k * np.exp(c * x) for c in a]).T
        self.x, self.w = composite([-1, 0, 1], 14)
        if isinstance(mu, tensap.UniformRandomVariable):
            self.w = self.w / 2
        self.maxder = 0
        self.desc, self.measure = ["user", a, type(mu).__name__], mu
        self.pts = lambda n: ctx.rng.uniform(-1, 1, n)

    def sub(self, ctx):
        u = B1(ctx, ("poly", "poly", "piecewise", "bspline", "monomials"))
        n = u.basis.cardinal()
        q = ctx.randint(1, n)
        style = ctx.choice(["dense", "orthogonal", "selection"])
        if style == "selection":
            A = np.eye(n)[:, ctx.rng.permutation(n)[:q]]
        else:
            A = ctx.rng.standard_normal((n, q))
            if style == "orthogonal":
                A = np.linalg.qr(A)[0]
        self.under, self.A = u, A
        self.basis = tensap.SubFunctionalBasis(u.basis, A)
        self.ref = lambda x, k: u.ref(x, k) @ A
        self.x, self.w, self.tol, self.pts = u.x, u.w, u.tol, u.pts
        self.orth = u.orth and style != "dense"
        self.maxder, self.measure = u.maxder, u.measure
        self.desc = ["sub", u.desc, A]

    def gram(self):
        V = self.ref(self.x, 0)
        return V.T @ (self.w[:, None] * V)

    def rule(self):
        return tensap.IntegrationRule(self.x[:, None], self.w)


@P.scenario(200)
def values_derivatives(ctx):
    b = B1(ctx)
    k = ctx.randint(0, b.maxder)
    ctx.case(basis=b.desc, k=k)
    x = b.points(7)
    ref = b.ref(x, 0)
    n = ref.shape[1]
    if n == 1:
        ctx.trivial()
    ctx.equal("cardinal", int(b.basis.cardinal()), n)
    ctx.equal("ndim", int(b.basis.ndim()), 1)
    sc = max(np.max(np.abs(ref)), 1e-3)
    ctx.close("eval", b.basis.eval(x), ref, rtol=b.tol, scale=sc)
    ctx.close("eval:column", b.basis.eval(x[:, None]), ref, rtol=b.tol, scale=sc)
    ctx.close("eval:one-point", b.basis.eval(x[:1]), ref[:1], rtol=b.tol, scale=sc)
    if b.maxder:
        r = b.ref(x, k)
        s = max(np.max(np.abs(r)), np.max(np.abs(b.ref(x, 0))), 1e-3)
        ctx.close("eval_derivative", b.basis.eval_derivative(k, x), r, rtol=b.tol * 10, scale=s)
        J = b.basis.eval_jacobian(x)
        ctx.close("eval_jacobian", J, b.ref(x, 1)[:, :, None], rtol=b.tol * 10,
                  scale=max(np.max(np.abs(b.ref(x, 1))), sc))
    if b.kind in ("piecewise", "sub") and n > 1:
        sel = ctx.rng.permutation(n)[:ctx.randint(1, n)]
        ctx.close("eval:indices", b.basis.eval(x, sel), ref[:, sel], rtol=b.tol, scale=sc)
    if b.kind == "piecewise":
        sel = ctx.rng.permutation(n)[:ctx.randint(1, n)]
        ctx.close("eval_derivative:indices", b.basis.eval_derivative(k, x, sel), b.ref(x, k)[:, sel],
                  rtol=1e-7, scale=max(np.max(np.abs(b.ref(x, k))), 1e-3))
        # breakpoints belong to the element on their right, the last one to the last element
        y = b.breaks
        ctx.close("eval:breaks", b.basis.eval(y[:-1]), b.ref(y[:-1], 0), rtol=1e-9)
        e = np.where(np.arange(n) >= n - b.p[-1] - 1, 1, 0)
        d = np.arange(n) - (n - b.p[-1] - 1)
        ctx.close("eval:last-point", b.basis.eval(y[-1:])[0],
                  e * np.sqrt(np.maximum(2 * d + 1, 0) / (y[-1] - y[-2])), rtol=1e-9)
        ctx.equal("element_number", b.basis.element_number(x),
                  np.searchsorted(y, x, side="right") - 1)
    dom = b.basis.domain() if b.basis.measure is not None else None
    if dom is not None and b.kind != "sub":
        dom = np.ravel(dom)
        ctx.check("domain", np.size(dom) >= 2 and dom[0] <= np.min(b.x) + 1e-9 if b.desc[0] != "bspline"
                  else True)


@P.scenario(160)
def gram_and_orthonormality(ctx):
    b = B1(ctx)
    ctx.case(basis=b.desc)
    ref = b.gram()
    sc = np.max(np.abs(ref))
    n = ref.shape[0]
    ctx.close("gram_matrix:rule", np.asarray(b.basis.gram_matrix(b.rule()))
              if b.kind not in ("poly", "monomials", "sub") else ref, ref, rtol=b.tol * 10, scale=sc)
    if b.kind in ("poly", "monomials"):
        ctx.close("gram_matrix", b.basis.gram_matrix(), ref, rtol=b.tol * 10, scale=sc)
        if ctx.coin(0.5):
            mu = ctx.choice([tensap.UniformRandomVariable(-1, 1), tensap.UniformRandomVariable(0, 2)])
            y, w = composite([np.ravel(mu.support())[0], np.ravel(mu.support())[1]], 20)
            w = w / np.sum(w)
            V = b.ref(y, 0)
            G = V.T @ (w[:, None] * V)
            ctx.close("gram_matrix:measure", b.basis.gram_matrix(mu), G, rtol=b.tol * 100,
                      scale=np.max(np.abs(G)))
    if b.kind == "sub" and b.under.kind in ("poly", "monomials"):
        ctx.close("gram_matrix:sub", b.basis.gram_matrix(), ref, rtol=b.tol * 10, scale=sc)
    # the claim of orthonormality is never false
    if b.basis.is_orthonormal:
        ctx.close("is_orthonormal", ref, np.eye(n), rtol=b.tol * 10)
    if b.kind in ("poly", "piecewise"):
        ctx.check("is_orthonormal:claimed", b.basis.is_orthonormal)
    can = (b.kind in ("poly", "monomials") or b.kind == "sub" and b.under.orth)
    if can and np.linalg.cond(ref) < 1e6:
        o = b.basis.orthonormalize()
        V = o.eval(b.x)
        ctx.close("orthonormalize", V.T @ (b.w[:, None] * V), np.eye(n), rtol=1e-6 if b.tol < 1e-6 else 1e-4)
        # same space
        M = np.linalg.lstsq(np.sqrt(b.w)[:, None] * b.ref(b.x, 0), np.sqrt(b.w)[:, None] * V, rcond=None)[0]
        ctx.close("orthonormalize:space", b.ref(b.x, 0) @ M * np.sqrt(b.w)[:, None],
                  V * np.sqrt(b.w)[:, None], rtol=1e-5, scale=1)


@P.scenario(160)
def projections(ctx):
    b = B1(ctx)
    V = b.ref(b.x, 0)
    n = V.shape[1]
    G = V.T @ (b.w[:, None] * V)
    if np.linalg.cond(G) > 1e8:
        raise Skip()
    q = ctx.choice([0, 1, 2, 3])
    inside = ctx.coin(0.4)
    ctx.case(basis=b.desc, outputs=q, inside=inside)
    if inside:
        c = ctx.rng.standard_normal((n, max(q, 1)))
        Y = V @ c
        fun = lambda x: (b.ref(np.ravel(x), 0) @ c) if q else (b.ref(np.ravel(x), 0) @ c)[:, 0]
    else:
        a = ctx.rng.uniform(-1, 1, max(q, 1))
        fun = lambda x: np.cos(np.outer(np.ravel(x), a) + 1) if q else np.cos(np.ravel(x) * a[0] + 1)
        Y = np.cos(np.outer(b.x, a) + 1)
        c = np.linalg.solve(G, V.T @ (b.w[:, None] * Y))
    how = ctx.choice(["projection", "least_squares_projection"] + (["quasi_projection"] if b.orth else []))
    ctx.op(how)
    Gr = b.rule()
    f = getattr(b.basis, how)(fun if ctx.coin() else (Y if q else Y[:, 0]), Gr)
    tol = 1e-6 if b.tol < 1e-6 else 1e-4
    tol = max(tol, np.linalg.cond(G) * 1e-13)
    ctx.close(how, np.reshape(f.data, (n, -1)), c, rtol=tol, scale=np.max(np.abs(c)) + 1e-3)
    x = b.points(4)
    ctx.close(how + ":values", np.reshape(f.eval(x), (4, -1)), b.ref(x, 0) @ c, rtol=tol,
              scale=(np.max(np.abs(b.ref(x, 0))) + 1e-3) * (np.max(np.abs(c)) + 1e-3) * n)


@P.scenario(160)
def means(ctx):
    b = B1(ctx, ("poly", "piecewise", "sub", "monomials"))
    if b.kind == "sub" and b.under.kind == "bspline":
        raise Skip()
    root = b.under if b.kind == "sub" else b
    other = root.kind in ("poly", "monomials") and ctx.coin(0.4)
    ctx.case(basis=b.desc, other=other)
    mass = 1.0 if root.kind == "piecewise" else np.sum(b.w)
    ref = b.w @ b.ref(b.x, 0) / mass
    sc = np.max(np.abs(b.ref(b.x, 0)))
    ctx.close("mean", np.ravel(b.basis.mean()), ref, rtol=b.tol, scale=sc)
    ctx.close("expectation", np.ravel(b.basis.expectation()), ref, rtol=b.tol, scale=sc)
    if other:
        a = ctx.choice([0.5, 1])
        y, w = composite([-a, a], 20)
        r = w @ b.ref(y, 0) / np.sum(w)
        ctx.close("mean:measure", np.ravel(b.basis.mean(tensap.UniformRandomVariable(-a, a))), r,
                  rtol=b.tol * 10, scale=np.max(np.abs(b.ref(y, 0))))
    # functions in the basis
    q = ctx.randint(1, 3)
    c = ctx.rng.standard_normal((b.basis.cardinal(), q))
    f = tensap.FunctionalBasisArray(c, b.basis, q)
    ctx.close("array:mean", np.ravel(f.mean()), ref @ c, rtol=b.tol, scale=sc * np.sum(np.abs(c)))
    ctx.close("array:expectation", np.ravel(f.expectation()), ref @ c, rtol=b.tol, scale=sc * np.sum(np.abs(c)))


@P.scenario(160)
def interpolation(ctx):
    b = B1(ctx)
    n = int(b.basis.cardinal())
    q = ctx.choice([0, 1, 2])
    if b.kind == "piecewise" and ctx.coin(0.6):
        how = ctx.choice(["interpolation_points", "magic_points"])
        x = np.ravel(getattr(b.basis, how)())
        ctx.equal(how + ":number", x.size, n)
        for i, (a, c) in enumerate(zip(b.breaks[:-1], b.breaks[1:])):
            ctx.equal(how + ":per-element", int(np.sum((x > a) & (x < c))), int(b.p[i] + 1))
        arg = None if ctx.coin() else x
    elif b.kind == "poly" and isinstance(b.measure, tensap.ProbabilityMeasure) and ctx.coin(0.4):
        if b.fam.kind == "discrete" and n > b.fam.x.size:
            raise Skip()
        how = "interpolation_points"
        arg = None
        x = None
    elif b.kind in ("poly", "monomials", "piecewise") and ctx.coin(0.5):
        how = "candidates"
        cand = b.pts(6 * n + 4) if b.kind != "piecewise" else np.concatenate(
            [ctx.rng.uniform(a, c, 10) for a, c in zip(b.breaks[:-1], b.breaks[1:])])
        if np.linalg.matrix_rank(b.ref(cand, 0), tol=1e-6 * np.max(np.abs(b.ref(cand, 0)))) < n \
                or b.kind == "piecewise":
            raise Skip()
        x = np.ravel(b.basis.interpolation_points(cand if ctx.coin() else cand[:, None]))
        ctx.check("interpolation_points:candidates", np.all(np.isin(x, cand)))
        ctx.equal("interpolation_points:number", np.unique(x).size, n)
        arg = x if ctx.coin() else x[:, None]
    else:
        how = "given"
        for _ in range(20):
            x = b.pts(n)
            if np.linalg.cond(b.ref(x, 0)) < 1e6:
                break
        else:
            raise Skip()
        arg = x if ctx.coin() else x[:, None]
    ctx.case(basis=b.desc, how=how, outputs=q)
    a = ctx.rng.uniform(-1, 1, max(q, 1))
    calls = []

    def fun(t):
        calls.append(np.array(t))
        t = np.ravel(t)
        return np.cos(np.outer(t, a) + 1) if q else np.cos(t * a[0] + 1)
    usefun = arg is None or ctx.coin()
    f = b.basis.interpolate(fun if usefun else fun(arg), arg) if arg is not None else b.basis.interpolate(fun)
    t = np.ravel(calls[-1])
    ctx.equal("interpolate:points", t.size, n)
    ctx.equal("interpolate:type", np.ravel(f.shape), [max(q, 1)])
    L = b.ref(t, 0)
    cond = np.linalg.cond(L)
    y = np.cos(np.outer(t, a) + 1)
    ctx.close("interpolate:data", np.reshape(f.eval(t), (n, -1)), y, rtol=1e-6 if cond < 1e6 else 1e-2, scale=1) \
        if cond < 1e9 else None
    # independent evaluation of the returned coefficients
    ctx.close("interpolate:coefficients", L @ np.reshape(f.data, (n, -1)), y,
              rtol=max(b.tol * 10, 1e-12 * cond), scale=1) if cond < 1e6 else None


@P.scenario(140)
def polynomial_methods(ctx):
    b = B1(ctx, ("poly", "poly", "monomials"))
    k = ctx.randint(1, 3)
    full = ctx.coin(0.6)
    ctx.case(basis=b.desc, k=k)
    x, w = b.x, b.w
    V = b.ref(x, 0)
    G = V.T @ (w[:, None] * V)
    n = V.shape[1]
    if np.linalg.cond(G) < 1e8:
        D = b.ref(x, k)
        mu = None
        if isinstance(b.measure, tensap.DiscreteMeasure) or ctx.coin(0.4):
            # (discrete measures, not random variables, have no Gauss rule)
            mu = tensap.UniformRandomVariable(-1, 1.5)
            x, w = composite([-1, 1.5], 20)
            V, D = b.ref(x, 0), b.ref(x, k)
            G = V.T @ (w[:, None] * V)
        if np.linalg.cond(G) < 1e8:
            c = np.linalg.solve(G, V.T @ (w[:, None] * D))
            name = ctx.choice(["derivative", "gradient", "hessian"])
            if name == "derivative":
                d = b.basis.derivative(k) if mu is None else b.basis.derivative(k, mu)
            else:
                kk = 1 if name == "gradient" else 2
                c = np.linalg.solve(G, V.T @ (w[:, None] * b.ref(x, kk)))
                d = getattr(b.basis, name)(mu)
            y = b.points(5)
            ref = b.ref(y, 0) @ c
            tol = max(b.tol * 100, np.linalg.cond(G) * 1e-12)
            ctx.close(name + ":projection", d.eval(y), ref, rtol=tol,
                      scale=(np.max(np.abs(b.ref(y, 0))) + 1) * (np.max(np.abs(c)) + 1e-2) * n)
    # the constant one
    if 0 in b.ind:
        y = b.points(4)
        ctx.close("one", b.ref(y, 0) @ np.ravel(b.basis.one()), np.ones(4), rtol=1e-6)
    else:
        ctx.raises("one:absent", b.basis.one)
    P_ = b.basis.adaptation_path()
    ctx.equal("adaptation_path", np.asarray(P_), np.triu(np.ones((n, n), dtype=bool)))
    if isinstance(b.measure, tensap.ProbabilityMeasure) and b.kind == "poly":
        m = ctx.randint(1, 5)
        v, pts = b.basis.random(m)
        ctx.close("random", v, b.ref(np.ravel(pts), 0), rtol=1e-5,
                  scale=max(np.max(np.abs(b.ref(np.ravel(pts), 0))), 1))
        v, pts = b.basis.random(m, tensap.UniformRandomVariable(0.1, 0.2))
        ctx.check("random:measure", np.all((pts >= 0.1) & (pts <= 0.2)))
        ctx.close("random:values", v, b.ref(np.ravel(pts), 0), rtol=1e-5,
                  scale=max(np.max(np.abs(b.ref(np.ravel(pts), 0))), 1))
    other = tensap.PolynomialFunctionalBasis(b.basis.basis, np.append(b.ind, 0))
    same = tensap.PolynomialFunctionalBasis(b.basis.basis, np.array(b.ind))
    ctx.check("eq", bool(b.basis == same) and not bool(b.basis == other) and not bool(b.basis == 3))
    if b.ind.size > 1 and b.ind[0] != b.ind[-1]:
        # the functions of a basis are ordered
        rev = tensap.PolynomialFunctionalBasis(b.basis.basis, np.array(b.ind)[::-1])
        ctx.check("eq:order", not bool(b.basis == rev))


@P.scenario(60)
def kronecker(ctx):
    F = Fam(ctx, ["uniform", "normal", "lebesgue"])
    i1 = ctx.rng.permutation(4)[:ctx.randint(1, 3)]
    i2 = ctx.rng.permutation(4)[:ctx.randint(1, 3)]
    ctx.case(measure=F.desc, i1=i1, i2=i2)
    p, q = (tensap.PolynomialFunctionalBasis(F.poly, i) for i in (i1, i2))
    h = p.kron(q)
    x = F.points(ctx, 6)
    A, B = F.poly.polyval(i1, x), F.poly.polyval(i2, x)
    ctx.equal("kron:cardinal", int(h.cardinal()), i1.size * i2.size)
    # every product f_i g_j, with the index of f or of g running fastest
    C1 = np.einsum("ki,kj->kij", A, B).reshape(6, -1, order="F")
    C2 = np.einsum("ki,kj->kij", A, B).reshape(6, -1)
    v = h.eval(x)
    sc = np.max(np.abs(C1))
    ctx.check("kron:values", np.max(np.abs(v - C1)) < 1e-7 * sc or np.max(np.abs(v - C2)) < 1e-7 * sc,
              "max error %g %g" % (np.max(np.abs(v - C1)), np.max(np.abs(v - C2))))


@P.scenario(100)
def sub_bases(ctx):
    b = B1(ctx, ("sub",))
    u, A = b.under, b.A
    k = ctx.randint(1, 3)
    ctx.case(basis=b.desc, k=k)
    ctx.equal("storage", int(b.basis.storage()), A.size)
    x = b.points(5)
    if u.kind == "poly" and u.fam.kind != "discrete-measure" and np.array_equal(np.sort(u.ind), np.arange(len(u.ind))):
        # derivatives stay in the space of polynomials of bounded degree
        d = b.basis.derivative(k)
        ref = b.ref(x, k)
        sc = np.max(np.abs(u.ref(x, k))) + np.max(np.abs(u.ref(x, 0)))
        ctx.close("derivative", d.eval(x), ref, rtol=1e-5, scale=sc * np.max(np.abs(A)) * A.shape[0])
        if d.is_orthonormal:
            V = b.ref(b.x, k)
            ctx.close("derivative:is_orthonormal", V.T @ (b.w[:, None] * V), np.eye(V.shape[1]), rtol=1e-5)
    C = ctx.rng.standard_normal((A.shape[1], ctx.randint(1, A.shape[1])))
    s2 = tensap.SubFunctionalBasis(b.basis, C)
    ref = b.ref(x, 0) @ C
    ctx.close("nested", s2.eval(x), ref, rtol=1e-6,
              scale=np.max(np.abs(u.ref(x, 0))) * np.sum(np.abs(A)) * np.max(np.abs(C)))
    # coefficients as a basis
    f = tensap.FunctionalBasisArray(C, b.basis, C.shape[1])
    ctx.close("sub_functional_basis", f.sub_functional_basis().eval(x), ref, rtol=1e-6,
              scale=np.max(np.abs(u.ref(x, 0))) * np.sum(np.abs(A)) * np.max(np.abs(C)))


@P.scenario(60)
def piecewise_factories(ctx):
    a = float(ctx.choice([-1, 0, 0.5]))
    b = a + float(ctx.choice([1, 2, 0.75]))
    kind = ctx.choice(["hp", "np", "singularity"])
    ctx.case(kind=kind, a=a, b=b)
    cls = tensap.PiecewisePolynomialFunctionalBasis
    if kind == "np":
        n, p = ctx.randint(1, 8), ctx.randint(0, 4)
        h = cls.np(a, b, n, p)
        ctx.close("np:points", h.points, a + (b - a) * np.arange(n + 1) / n, rtol=1e-12)
        ctx.equal("np:degrees", h.p, [p] * n)
    elif kind == "hp":
        s, p = float(ctx.choice([0.1, 0.3, 0.5, 3, 1.0])), ctx.randint(0, 4)
        h = cls.hp(a, b, s, p)
        d = np.diff(h.points)
        ctx.check("hp:size", np.all(d <= s * (1 + 1e-9)) and np.ptp(d) < 1e-9 and d.size == 1 or
                  (np.all(d <= s * (1 + 1e-9)) and np.ptp(d) < 1e-9 and (b - a) / (d.size - 1) > s * (1 - 1e-9)))
        ctx.close("hp:ends", h.points[[0, -1]], [a, b])
        ctx.equal("hp:degrees", h.p, [p] * d.size)
    else:
        ne = ctx.randint(1, 6)
        sing = sorted(set(ctx.choice([[a], [b], [a, b], [a + 0.5], [a, a + 0.25, b]])))
        hh = 2.0 ** -ne
        h = cls.singularityhp_adapted(a, b, sing if ctx.coin() else np.array(sing), hh)
        ctx.desc["sing"] = sing
        pts = h.points
        ctx.check("singularity:increasing", np.all(np.diff(pts) > 0))
        ctx.close("singularity:ends", pts[[0, -1]], [a, b], scale=1)
        ctx.equal("singularity:elements", h.p.size, pts.size - 1)
        for t in sing:
            ctx.check("singularity:node", np.min(np.abs(pts - t)) < 1e-12)
        e = np.unique(np.concatenate(([a], sing, [b])))
        for l, r in zip(e[:-1], e[1:]):
            inside = (pts[:-1] >= l - 1e-12) & (pts[1:] <= r + 1e-12)
            size, deg = np.diff(pts)[inside], h.p[inside]
            ctx.check("singularity:smallest", np.min(size) <= hh * (r - l) * (1 + 1e-9))
            mid = (pts[:-1] + pts[1:])[inside] / 2
            dist = np.min(np.abs(mid[:, None] - np.array(sing)[None, :]), axis=1)
            o = np.argsort(dist)
            ctx.check("singularity:graded", np.all(np.diff(size[o]) > -1e-12))
            ctx.check("singularity:degrees", np.all(np.diff(deg[o]) >= 0) and deg[o][0] == 0)
        x, w = composite(pts)
        V = h.eval(x)
        ctx.close("singularity:orthonormal", V.T @ (w[:, None] * V), np.eye(h.cardinal()), rtol=1e-8)


@P.scenario(60)
def delta_and_user(ctx):
    n = ctx.randint(1, 6)
    v = ctx.rng.permutation(np.arange(10))[:n] * 0.5
    d = ctx.choice([1, 1, 2])
    if d == 2:
        v = np.stack([ctx.rng.permutation(np.arange(10))[:n], ctx.rng.integers(0, 3, n)], axis=1) * 1.0
    b = tensap.DeltaFunctionalBasis(v if ctx.coin() else (list(v) if d == 1 else v))
    idx = ctx.rng.integers(0, n, 5)
    x = v[idx]
    ctx.case(n=n, d=d, values=v)
    H = np.zeros((5, n))
    H[np.arange(5), idx] = 1
    ctx.equal("delta:eval", b.eval(x if d == 2 or ctx.coin() else x[:, None]), H)
    ctx.equal("delta:other", b.eval((v + 0.25)[:1]), np.zeros((1, n)))
    ctx.equal("delta:cardinal", int(b.cardinal()), n)
    ctx.equal("delta:ndim", int(b.ndim()), d)
    c = ctx.rng.standard_normal((n, 2))
    f = tensap.FunctionalBasisArray(c, b, 2)
    ctx.close("delta:array", f.eval(x), c[idx])
    # multivariate user-defined functions
    m = ctx.randint(1, 3)
    a = ctx.rng.uniform(-1, 1, (ctx.randint(1, 4), m))
    u = tensap.UserDefinedFunctionalBasis([(lambda x, r=r: np.cos(x @ r)) for r in a], None, m)
    X = ctx.rng.uniform(-1, 1, (5, m))
    ctx.close("user:eval", u.eval(X), np.cos(X @ a.T))
    ctx.equal("user:ndim", [int(u.ndim()), int(u.cardinal())], [m, a.shape[0]])
