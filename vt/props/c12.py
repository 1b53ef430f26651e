import numpy as np
from scipy import stats

import tensap
from vt.core import Prop, Skip
from vt.props.c11 import normal_moments, uniform_moments

P = Prop("C12", "Random variables and vectors describe one probability law",
         "uniform, normal, discrete (sorted or not, repeated values excluded) and empirical laws "
         "with random parameters, vectors of 1-4 mixed components, samples of 1500 points (a sup "
         "distance of the empirical distribution above 3/sqrt(n), probability below 1e-7, is a "
         "violation). References: scipy.stats closed forms and mixtures of normals. Non-trivial: "
         "every case; distinct by law and operation.")

KINDS = ["uniform", "normal", "discrete", "empirical"]


class Law:
    """Independent description of a one-dimensional law."""

    def __init__(self, kind, X, desc, cdf, pdf, mom, support, atoms=None):
        self.kind, self.X, self.desc, self.cdf, self.pdf = kind, X, desc, cdf, pdf
        self.mom, self.support, self.atoms = mom, support, atoms

    def points(self, ctx, n=7):
        m = self.mom(2)
        s = np.sqrt(max(m[2] - m[1] ** 2, 1e-12))
        return ctx.integral(m[1] + s * ctx.rng.uniform(-2.5, 2.5, n))


def law(ctx, kind=None):
    kind = kind or ctx.choice(KINDS)
    if kind == "uniform":
        a, b = (-1.0, 1.0) if ctx.coin(0.2) else tuple(
            np.sort(np.round(ctx.rng.uniform(-3, 3, 2), 2)) + [0, 0.25])
        a, b = float(a), float(b)
        s = stats.uniform(a, b - a)
        X = tensap.UniformRandomVariable(a, b)
        return Law(kind, X, [kind, a, b], s.cdf, s.pdf, lambda n: uniform_moments(a, b, n), [a, b])
    if kind == "normal":
        mu, sg = (0.0, 1.0) if ctx.coin(0.2) else (
            float(np.round(ctx.rng.uniform(-2, 2), 2)), float(np.round(ctx.rng.uniform(0.2, 2), 2)))
        s = stats.norm(mu, sg)
        X = tensap.NormalRandomVariable(mu, sg)
        return Law(kind, X, [kind, mu, sg], s.cdf, s.pdf, lambda n: normal_moments(mu, sg, n),
                   [-np.inf, np.inf])
    if kind == "discrete":
        n = ctx.randint(1, 6)
        v = np.round(ctx.rng.permutation(np.linspace(-2, 2.5, 10))[:n], 3)
        if ctx.coin():
            p = np.full(n, 1 / n)
            X = tensap.DiscreteRandomVariable(v)
        else:
            p = np.array([ctx.randint(0 if n > 1 else 1, 8) for _ in range(n)], dtype=float)
            if np.sum(p) == 0:
                p[0] = 1.0
            # unnormalised weights are accepted and normalised
            X = tensap.DiscreteRandomVariable(v, p if ctx.coin() else p / np.sum(p))
            p = p / np.sum(p)
        return Law(kind, X, [kind, v, p],
                   lambda x: np.array([np.sum(p[v <= t]) for t in np.ravel(x)]).reshape(np.shape(x)),
                   None, lambda k: np.array([np.sum(p * v ** j) for j in range(k + 1)]),
                   [np.min(v), np.max(v)], (v, p))
    n = ctx.randint(3, 12)
    x = np.round(ctx.rng.standard_normal(n) * ctx.choice([0.3, 1, 3]) + ctx.choice([0, 2]), 3)
    X = tensap.EmpiricalRandomVariable(x)
    h = 3.5 * np.std(x) * n ** (-1 / 3)
    return Law(kind, X, [kind, x],
               lambda t: np.mean([stats.norm(u, h).cdf(t) for u in x], axis=0),
               lambda t: np.mean([stats.norm(u, h).pdf(t) for u in x], axis=0),
               lambda k: np.mean([normal_moments(u, h, k) for u in x], axis=0),
               [-np.inf, np.inf])


def quantile_ok(ctx, name, L, q, u):
    """q is the quantile of order u of the law (generalised inverse)."""
    if L.atoms is None:
        ctx.close(name, L.cdf(q), u, rtol=1e-7, atol=1e-9)
    else:
        v, p = L.atoms
        for a, b in zip(np.ravel(q), np.ravel(u)):
            ctx.check(name, np.sum(p[v <= a]) >= b - 1e-12 and np.sum(p[v < a]) <= b + 1e-12
                      and a in v, "icdf(%s) = %s" % (b, a))


def shape_of(ctx, n=None):
    s = ctx.choice(["vector", "vector", "scalar"])
    return s


@P.scenario(240)
def density_distribution_quantile(ctx):
    L = law(ctx)
    ctx.case(law=L.desc)
    x = L.points(ctx)
    if L.atoms is not None:
        x = np.concatenate((x, L.atoms[0], L.atoms[0] + 1e-6, L.atoms[0] - 1e-6))
    if ctx.coin(0.2):
        x = x[0]
    ctx.close("cdf", L.X.cdf(x), L.cdf(x), rtol=1e-9, atol=1e-12)
    if L.pdf is not None:
        ctx.close("pdf", L.X.pdf(x), L.pdf(x), rtol=1e-9, atol=1e-14, shape=False)
        h = 1e-5 * (1 + np.max(np.abs(x)))
        y = np.ravel(x)
        if L.kind == "uniform":
            a, b = L.support
            y = y[(y > a + 2 * h) & (y < b - 2 * h) | (y < a - 2 * h) | (y > b + 2 * h)]
        if y.size:
            d = (np.ravel(L.X.cdf(y + h)) - np.ravel(L.X.cdf(y - h))) / 2 / h
            ctx.close("pdf-is-derivative-of-cdf", np.ravel(L.X.pdf(y)), d, rtol=1e-4, atol=1e-5)
        like = float(L.X.likelihood(np.atleast_1d(x)))
        ctx.close("likelihood", like, np.sum(np.log(np.atleast_1d(L.pdf(x)) + np.finfo(float).eps)),
                  rtol=1e-7, atol=1e-9)
    u = np.round(ctx.rng.uniform(0.01, 0.99, 6), 4)
    if ctx.coin(0.3) and L.atoms is not None:
        u = np.append(u, 1.0)
    if ctx.coin(0.2):
        u = u[0]
    q = np.asarray(L.X.icdf(u), dtype=float)
    ctx.equal("icdf:shape", q.shape, np.shape(u))
    quantile_ok(ctx, "icdf", L, q, u)


@P.scenario(240)
def moments(ctx):
    L = law(ctx)
    m = L.mom(6)
    ctx.case(law=L.desc)
    if L.kind != "empirical":
        ctx.close("mean", np.ravel(L.X.mean()), [m[1]], rtol=1e-9, atol=1e-12)
        ctx.close("variance", np.ravel(L.X.variance()), [m[2] - m[1] ** 2], rtol=1e-9, atol=1e-11,
                  scale=m[2])
        ctx.close("std", np.ravel(L.X.std()) ** 2, [m[2] - m[1] ** 2], rtol=1e-9, atol=1e-11,
                  scale=m[2])
        st = L.X.random_variable_statistics()
        ctx.close("statistics", [np.ravel(st[0])[0], np.ravel(st[1])[0]], [m[1], m[2] - m[1] ** 2],
                  rtol=1e-9, atol=1e-11, scale=m[2])
    else:
        ctx.close("mean", L.X.mean(), m[1], rtol=1e-9, atol=1e-12)
    kmax = 6
    if L.atoms is not None:
        kmax = 2 * int(np.sum(L.atoms[1] > 0)) - 1 - (2 if np.sum(L.atoms[1] > 0) > 1 else 0)
        if kmax < 1:
            return
    if L.kind == "empirical":
        kmax = min(6, 2 * (L.X.sample.size - 2) - 1)
    k = ctx.randint(0, min(kmax, 6))
    ind = np.array([ctx.randint(0, k) for _ in range(ctx.randint(1, 4))])
    arg = int(ind[0]) if ctx.coin(0.2) else (list(int(v) for v in ind) if ctx.coin(0.3) else ind)
    ref = m[np.atleast_1d(arg)]
    sc = float(np.max(np.abs(m)))
    ctx.case(law=L.desc, ind=ind)
    ctx.close("moment", L.X.moment(arg), ref, rtol=1e-8, scale=sc)
    out, Y = L.X.moment(arg, nargout=2)
    ctx.close("moment:2", out, ref, rtol=1e-8, scale=sc)
    ctx.equal("moment:self-unchanged", np.size(L.X.moments), 0)
    for _ in range(2):
        ind2 = np.array([ctx.randint(0, k) for _ in range(ctx.randint(1, 4))])
        ctx.close("moment:stored", Y.moment(ind2), m[ind2], rtol=1e-8, scale=sc)
        _, Y = Y.moment(ind2, nargout=2)


@P.scenario(100)
def sampling(ctx):
    L = law(ctx)
    kind = ctx.choice(["random", "random", "lhs", "vector"])
    if L.kind == "empirical" and kind != "random":
        kind = "lhs"
    n = 1500 if L.kind != "empirical" else 150
    ctx.case(law=L.desc, kind=kind)
    ctx.op(kind)
    if kind == "lhs":
        n = ctx.randint(1, 40)
        x = np.asarray(L.X.lhs_random(n))
        ctx.equal("lhs:shape", x.shape, (n,))
        if L.atoms is None:
            ctx.equal("lhs:stratified", np.sort(np.floor(L.cdf(x) * n + 1e-7)), np.arange(n))
        else:
            ctx.check("lhs:atoms", set(x) <= set(L.atoms[0]))
        return
    if kind == "vector":
        x = np.asarray(tensap.RandomVector([L.X, L.X]).random(n))
        ctx.equal("sample:shape", x.shape, (n, 2))
        if n > 1 and (L.atoms is None):
            ctx.check("sample:independent", not np.any(x[:, 0] == x[:, 1]))
            r = np.corrcoef(L.cdf(x[:, 0]), L.cdf(x[:, 1]))[0, 1]
            ctx.check("sample:uncorrelated", abs(r) < 6 / np.sqrt(n), "correlation %s" % r)
        x = x[:, 1]
    else:
        x = np.asarray(L.X.random(n))
        ctx.equal("sample:shape", x.shape, (n,))
    if L.atoms is None:
        ctx.check("sample:support", np.all((x >= L.support[0]) & (x <= L.support[1])))
        s = np.sort(x)
        F = L.cdf(s)
        D = max(np.max(np.abs(F - np.arange(1, n + 1) / n)), np.max(np.abs(F - np.arange(n) / n)))
        ctx.check("sample:law", D <= 3 / np.sqrt(n), "Kolmogorov distance %s" % D)
    else:
        v, p = L.atoms
        ctx.check("sample:atoms", set(x) <= set(v[p > 0]))
        D = max(abs(np.mean(x <= t) - np.sum(p[v <= t])) for t in v)
        ctx.check("sample:law", D <= 3 / np.sqrt(n), "Kolmogorov distance %s" % D)


@P.scenario(120)
def supports_and_discretisation(ctx):
    L = law(ctx)
    ctx.case(law=L.desc)
    s = np.ravel(L.X.support())
    ctx.close("support", np.nan_to_num(s, posinf=1e9, neginf=-1e9),
              np.nan_to_num(np.array(L.support, dtype=float), posinf=1e9, neginf=-1e9), rtol=1e-12)
    if np.all(np.isfinite(s)):
        ctx.close("min-max", [L.X.min(), L.X.max()], L.support, rtol=1e-12)
    t = np.ravel(L.X.truncated_support())
    ctx.check("truncated_support:finite", np.all(np.isfinite(t)) and t.size == 2)
    ctx.check("truncated_support:probability", L.cdf(t[1]) - (L.cdf(t[0]) if L.atoms is None else 0)
              >= 1 - 1e-12)
    ctx.check("truncated_support:inside", t[0] >= s[0] and t[1] <= s[1])
    if L.kind in ("uniform", "normal"):
        p = ctx.choice([0.5, 0.9, 0.99])
        t = np.ravel(L.X.truncated_support(p))
        ctx.check("truncated_support:p", L.cdf(t[1]) - L.cdf(t[0]) >= p - 1e-9)
        if L.kind == "normal":
            ctx.close("truncated_support:tight", L.cdf(t), [(1 - p) / 2, (1 + p) / 2], rtol=1e-9)
    n = ctx.randint(1, 6)
    if L.atoms is None:
        g = np.asarray(L.X.iso_probabilistic_grid(n if ctx.coin(0.7) else 1 / n))
        ctx.equal("iso:number", g.shape, (n + 1,))
        ctx.close("iso:probabilities", L.cdf(g), np.arange(n + 1) / n, rtol=1e-7, atol=1e-9)
        D = L.X.discretize(n)
        x, pr = np.ravel(D.values), np.ravel(D.probabilities)
        ctx.equal("discretize:number", x.size, n)
        ctx.close("discretize:quantiles", L.cdf(x), (np.arange(n) + 0.5) / n, rtol=1e-7, atol=1e-9)
        ctx.close("discretize:probabilities", pr, np.full(n, 1 / n), rtol=1e-9)
    a, b = L.points(ctx, 2)
    a, b = min(a, b), max(a, b) + 0.3
    x0 = np.sort(L.points(ctx, n)) if ctx.coin() else None
    if x0 is not None and np.min(np.diff(x0), initial=1) < 1e-6:
        raise Skip()
    D = L.X.discretize_support(x0) if x0 is not None else L.X.discretize_support(n, [a, b])
    x = np.ravel(D.values)
    want = x0 if x0 is not None else a + (b - a) * (np.arange(n) + 0.5) / n
    ctx.close("discretize_support:values", x, want, rtol=1e-9)
    mid = (want[1:] + want[:-1]) / 2
    F = np.concatenate(([0], L.cdf(mid), [1]))
    ctx.close("discretize_support:probabilities", np.ravel(D.probabilities), np.diff(F),
              rtol=1e-7, atol=1e-9)


@P.scenario(120)
def transfers(ctx):
    A, B = law(ctx), law(ctx)
    if A.atoms is not None:
        raise Skip()
    kind = ctx.choice(["general", "standard", "shift"])
    ctx.case(a=A.desc, b=B.desc, kind=kind)
    ctx.op(kind)
    u = np.round(ctx.rng.uniform(0.03, 0.97, 5), 4)
    x = np.array([float(A.X.icdf(v)) for v in u])
    if kind == "general":
        y = np.asarray(A.X.transfer(B.X, x))
        quantile_ok(ctx, "transfer:quantiles", B, y, np.round(A.cdf(x), 10))
        if {A.kind, B.kind} <= {"normal", "uniform"}:
            u = 10.0 ** -ctx.rng.uniform(3, 12, 3)
            y = A.X.transfer(B.X, A.X.icdf(u))
            ctx.check("transfer:tail", np.all(np.abs(B.X.cdf(y) / u - 1) < 1e-2), "%s" % u)
    elif kind == "standard":
        S = A.X.get_standard_random_variable()
        y = np.asarray(A.X.transfer(S, x))
        # the standard variable is an affine image of the variable
        c = np.polyfit(x, y, 1)
        ctx.close("standard:affine", y, np.polyval(c, x), rtol=1e-6, atol=1e-6)
        ctx.check("standard:increasing", c[0] > 0)
        ctx.close("standard:quantiles", S.cdf(y), A.X.cdf(x), rtol=1e-6, atol=1e-9)
        if A.kind == "normal":
            ctx.close("standard:normal", [S.mean(), S.variance()], [0, 1], atol=1e-12)
        if A.kind == "uniform":
            ctx.close("standard:uniform", S.support(), [-1, 1])
        back = np.asarray(S.transfer(A.X, y))
        ctx.close("standard:back", back, x, rtol=1e-5, atol=1e-6)
    else:
        if A.kind == "normal":
            b, s = 0.7, 1.5
            T = A.X.shift(b, s)
            ctx.close("shift:normal", [T.mean(), T.std()], [A.desc[1] + b, A.desc[2] * s], rtol=1e-12)
        else:
            b, s = float(ctx.rng.uniform(-1, 1)), float(ctx.rng.uniform(0.2, 3))
            T = A.X.shift(b, s)
            ctx.close("shift:cdf", T.cdf(s * x + b), A.cdf(x), rtol=1e-8, atol=1e-9)
            ctx.close("shift:pdf", np.ravel(T.pdf(s * x + b)), A.pdf(x) / s, rtol=1e-8)
        ctx.close("shift:self", A.X.cdf(x), A.cdf(x), rtol=1e-9, atol=1e-12)


@P.scenario(120)
def equality(ctx):
    A = law(ctx)
    import copy
    ctx.case(a=A.desc)
    ctx.check("eq:copy", bool(A.X == copy.deepcopy(A.X)) is True)
    B = law(ctx)
    same = A.kind == B.kind and all(
        np.shape(p) == np.shape(q) and np.allclose(p, q, atol=1e-12)
        for p, q in zip(A.desc[1:], B.desc[1:]))
    ctx.check("eq:different", bool(A.X == B.X) == same, "%s %s" % (A.desc, B.desc))
    ctx.check("ne", bool(A.X != B.X) == (not same))
    RA, RB = tensap.RandomVector([A.X, B.X]), tensap.RandomVector([B.X, A.X])
    ctx.check("vector:eq", bool(RA == tensap.RandomVector([A.X, B.X])) is True)
    ctx.check("vector:different", bool(RA == RB) == same)
    ctx.check("vector:length", not (RA == tensap.RandomVector([A.X])))
    PA = tensap.ProductMeasure([A.X, B.X])
    ctx.check("product:eq", bool(PA == tensap.ProductMeasure(RA)) is True)
    ctx.check("product:different", bool(PA == tensap.ProductMeasure([B.X, A.X])) == same)
    ctx.check("product:length", not (PA == tensap.ProductMeasure([A.X])))
    ctx.check("product:length2", not (tensap.ProductMeasure([A.X]) == PA))


@P.scenario(160)
def vectors(ctx):
    d = ctx.randint(1, 4)
    if ctx.coin(0.2):
        L = [law(ctx, ctx.choice(["uniform", "normal"]))] * d
        R = tensap.RandomVector(L[0].X, d)
    else:
        L = [law(ctx) for _ in range(d)]
        R = tensap.RandomVector([x.X for x in L])
    ctx.case(laws=[x.desc for x in L])
    ctx.equal("vector:size", [int(R.size), int(R.ndim())], [d, d])
    m = [x.mom(2) for x in L]
    ctx.close("vector:mean", R.mean(), [v[1] for v in m], rtol=1e-9, atol=1e-12)
    if all(x.kind != "empirical" for x in L):
        ctx.close("vector:variance", R.variance(), [v[2] - v[1] ** 2 for v in m], rtol=1e-8, atol=1e-10)
        ctx.close("vector:std", R.std() ** 2, [v[2] - v[1] ** 2 for v in m], rtol=1e-8, atol=1e-10)
    n = ctx.randint(1, 4)
    x = np.column_stack([v.points(ctx, n) for v in L])
    arg = [x[:, k] for k in range(d)] if ctx.coin(0.3) else x
    ctx.close("vector:cdf", R.cdf(arg), np.prod([v.cdf(x[:, k]) for k, v in enumerate(L)], axis=0),
              rtol=1e-8, atol=1e-12)
    if all(v.pdf is not None for v in L):
        ctx.close("vector:pdf", R.pdf(arg), np.prod([v.pdf(x[:, k]) for k, v in enumerate(L)], axis=0),
                  rtol=1e-8, atol=1e-13)
        ctx.op("pdf")
    s = R.support()
    for k in range(d):
        ctx.equal("vector:support", np.ravel(s[k]), np.array(L[k].support))
        ctx.equal("vector:truncated", np.ravel(R.truncated_support()[k]),
                  np.ravel(L[k].X.truncated_support()))
    # marginals and permutations
    ind = [int(v) for v in ctx.rng.permutation(d)[:ctx.randint(1, d)]]
    M = R.marginal(ind)
    ctx.check("vector:marginal", M == tensap.RandomVector([L[k].X for k in ind]))
    perm = [int(v) for v in ctx.rng.permutation(d)]
    ctx.check("vector:transpose", R.transpose(perm) == tensap.RandomVector([L[k].X for k in perm]))
    PM = tensap.ProductMeasure([v.X for v in L])
    ctx.check("product:marginal", PM.marginal(ind) == tensap.ProductMeasure([L[k].X for k in ind]))
    ctx.check("product:vector", PM.random_vector() == R)
    ctx.close("product:mass", PM.mass(), 1, rtol=1e-12)
    ctx.equal("product:ndim", int(PM.ndim()), d)
    y = np.asarray(PM.random(5))
    ctx.equal("product:sample", y.shape, (5, d))
    for k in range(d):
        if L[k].atoms is not None:
            ctx.check("product:sample-atoms", set(y[:, k]) <= set(L[k].atoms[0]))
        else:
            ctx.check("product:sample-support", np.all(
                (y[:, k] >= L[k].support[0]) & (y[:, k] <= L[k].support[1])))
    z = np.asarray(R.random(6))
    ctx.equal("vector:sample", z.shape, (6, d))
    for k in range(d):
        ctx.check("vector:sample-support", np.all(
            (z[:, k] >= L[k].support[0]) & (z[:, k] <= L[k].support[1])))
    # transfers
    if all(v.atoms is None for v in L):
        T = [law(ctx, ctx.choice(["uniform", "normal"])) for _ in range(d)]
        x = np.column_stack([[float(v.X.icdf(u)) for u in ctx.rng.uniform(0.05, 0.95, 3)] for v in L])
        y = np.asarray(R.transfer(tensap.RandomVector([t.X for t in T]), x))
        ctx.equal("vector:transfer", y.shape, x.shape)
        for k in range(d):
            ctx.close("vector:transfer-quantiles", T[k].cdf(y[:, k]), L[k].cdf(x[:, k]), rtol=1e-7, atol=1e-9)
        # points given as a list of columns, one target law for all the components
        y = np.asarray(R.transfer(T[0].X, [x[:, k] for k in range(d)]))
        for k in range(d):
            ctx.close("vector:transfer-one-law", T[0].cdf(y[:, k]), L[k].cdf(x[:, k]), rtol=1e-7, atol=1e-9)
        S = R.get_standard_random_vector()
        ctx.check("vector:standard", all(
            bool(S.random_variables[k] == L[k].X.get_standard_random_variable()) for k in range(d)))
        m = ctx.randint(1, 12)
        y = np.asarray(R.lhs_random(m))
        ctx.equal("vector:lhs", y.shape, (m, d))
        for k in range(d):
            ctx.equal("vector:lhs-stratified", np.sort(np.floor(L[k].cdf(y[:, k]) * m + 1e-6)), np.arange(m))
        ns = [ctx.randint(1, 3) for _ in range(d)]
        G = R.iso_probabilistic_grid(ns if ctx.coin() else ns[0])
        sizes = np.asarray(G.shape)
        ctx.check("vector:iso", all(sizes == np.array(ns) + 1) or all(sizes == ns[0] + 1))
        for k in range(d):
            g = np.ravel(G.grids[k])
            ctx.close("vector:iso-probabilities", L[k].cdf(g), np.arange(g.size) / (g.size - 1),
                      rtol=1e-7, atol=1e-9)


class FGM(tensap.Copula if hasattr(tensap, "Copula") else object):
    """Farlie-Gumbel-Morgenstern copula in two variables."""

    def __init__(self, theta, column):
        self.theta, self.column = theta, column

    def pdf(self, u):
        c = 1 + self.theta * (1 - 2 * u[:, 0]) * (1 - 2 * u[:, 1])
        return c[:, None] if self.column else c

    def cdf(self, u):
        return u[:, 0] * u[:, 1] * (1 + self.theta * (1 - u[:, 0]) * (1 - u[:, 1]))


@P.scenario(60)
def vectors_polynomials_copulas(ctx):
    d = ctx.randint(1, 4)
    L = [law(ctx, ctx.choice(["uniform", "normal", "discrete", "empirical"])) for _ in range(d)]
    for v in L:
        if v.kind == "discrete" and v.atoms[0].size < 3 or v.kind == "discrete" and np.any(v.atoms[1] == 0):
            raise Skip("degrees beyond the number of atoms")
    R = tensap.RandomVector([v.X for v in L])
    ctx.case(laws=[v.desc for v in L])
    # orthonormal polynomials of each component, up to the maximal degrees asked
    deg = ctx.choice([None, 1, [ctx.randint(1, 2) for _ in range(d)]])
    if any(v.kind == "empirical" and v.desc[1].size < 4 for v in L):
        deg = 1
    p = R.orthonormal_polynomials() if deg is None else R.orthonormal_polynomials(deg)
    ctx.equal("vector:polynomials", len(p), d)
    for k in range(d):
        n = 1 if deg is None else int(np.broadcast_to(deg, d)[k])
        m = L[k].mom(2 * n)
        s = max(np.sqrt(m[2] - m[1] ** 2), 1e-6)
        z = m[1] + s * np.linspace(-1.5, 1.5, n + 1)
        c = np.linalg.solve(np.vander(z, n + 1, increasing=True), p[k].polyval(np.arange(n + 1), z))
        H = np.array([[m[i + j] for j in range(n + 1)] for i in range(n + 1)])
        ctx.close("vector:polynomials-orthonormal", c.T @ H @ c, np.eye(n + 1), rtol=1e-6,
                  scale=max(1, np.max(np.abs(c.T) @ np.abs(H) @ np.abs(c)) * 1e-3))
    # a law with a copula: density and distribution function
    A, B = law(ctx, ctx.choice(["uniform", "normal"])), law(ctx, ctx.choice(["uniform", "normal"]))
    C = FGM(float(ctx.rng.uniform(-1, 1)), ctx.coin())
    V = tensap.RandomVector([A.X, B.X], copula=C)
    n = ctx.randint(1, 5)
    x = np.column_stack((A.points(ctx, n), B.points(ctx, n)))
    u = np.column_stack((A.cdf(x[:, 0]), B.cdf(x[:, 1])))
    ctx.close("copula:pdf", V.pdf(x), A.pdf(x[:, 0]) * B.pdf(x[:, 1]) * np.ravel(C.pdf(u)),
              rtol=1e-8, atol=1e-13)
    ctx.close("copula:cdf", V.cdf(x), C.cdf(u), rtol=1e-8, atol=1e-12)
    for call in (lambda: V.marginal([0]), lambda: V.random(3), lambda: V.support(),
                 lambda: V.iso_probabilistic_grid(2), lambda: V.lhs_random(3)):
        ctx.raises("copula:rejected", call)
    # the dependence structure is kept, or the operation refused: never dropped
    ctx.close("copula:copy", tensap.RandomVector(V).pdf(x), V.pdf(x), rtol=1e-10)
    S = V.get_standard_random_vector()
    z = np.column_stack([S.random_variables[k].icdf(u[:, k]) for k in range(2)])
    ctx.close("copula:standard", S.cdf(z), V.cdf(x), rtol=1e-6, atol=1e-9)
    try:
        T = V.transpose([1, 0])
    except (NotImplementedError, ValueError, AssertionError):
        pass
    else:
        ctx.close("copula:transpose", T.pdf(x[:, ::-1]), V.pdf(x), rtol=1e-8, atol=1e-13)
    # number of points given by the probability of a cell
    c = tensap.RandomVector([A.X, B.X])
    q = float(ctx.rng.uniform(0.05, 0.9))
    g = c.iso_probabilistic_grid(q)
    m = int(np.ceil(q ** -0.5))
    ctx.equal("vector:iso-cell", np.asarray(g.shape), [m + 1, m + 1])
    ctx.check("vector:eq-other-type", not (c == 3) and not (c == A.X) and c != tensap.RandomVector([A.X]))


@P.scenario(60)
def multivariate_discrete(ctx):
    n, d = ctx.randint(1, 6), ctx.randint(2, 3)
    v = np.round(ctx.rng.standard_normal((n, d)), 3)
    w = ctx.rng.uniform(0.1, 2, n)
    kind = ctx.choice(["variable", "measure"])
    ctx.case(n=n, d=d, kind=kind)
    p = w / np.sum(w)
    if kind == "variable":
        X = tensap.DiscreteRandomVariable(v, w)
        ctx.close("discrete-d:mean", X.mean(), p @ v, rtol=1e-12, atol=1e-13)
        ctx.close("discrete-d:variance", X.variance(), p @ v ** 2 - (p @ v) ** 2, rtol=1e-9, atol=1e-12)
    else:
        X = tensap.DiscreteMeasure(v, w)
        ctx.close("discrete-d:mass", X.mass(), np.sum(w), rtol=1e-12)
        ctx.equal("discrete-d:ndim", int(X.ndim()), d)
        ctx.check("discrete-d:eq", X == tensap.DiscreteMeasure(v, w))
        ctx.check("discrete-d:neq", not (X == tensap.DiscreteMeasure(v, w + 1)))
    ctx.equal("discrete-d:support", X.support(), np.vstack((np.min(v, 0), np.max(v, 0))))
    N = 800
    s = np.asarray(X.random(N))
    ctx.equal("discrete-d:sample", s.shape, (N, d))
    cnt = np.array([np.sum(np.all(s == r, axis=1)) for r in v])
    ctx.equal("discrete-d:atoms", int(np.sum(cnt)), N)
    ctx.check("discrete-d:law", np.max(np.abs(np.cumsum(cnt / N) - np.cumsum(p))) < 3 / np.sqrt(N))


@P.scenario(60)
def multi_indices(ctx):
    d = ctx.randint(1, 4)
    sets = ctx.coin(0.4)
    shape = [ctx.randint(1, 5) for _ in range(d)]
    arg = shape
    vals = [np.arange(s) for s in shape]
    if sets:
        vals = [np.sort(ctx.rng.permutation(10)[:s]) for s in shape]
        arg = [list(map(int, v)) if ctx.coin() else v for v in vals]
    ctx.case(shape=shape, sets=sets)
    X = tensap.random_multi_indices(list(arg))
    N = 400
    s = np.asarray(X.random(N))
    ctx.equal("random_multi_indices:shape", s.shape, (N, d))
    for k in range(d):
        ctx.check("random_multi_indices:values", set(s[:, k]) <= set(vals[k]))
        F = np.array([np.mean(s[:, k] <= v) for v in vals[k]])
        ctx.check("random_multi_indices:uniform", np.max(np.abs(F - np.arange(1, shape[k] + 1) / shape[k]))
                  < 3 / np.sqrt(N))


@P.scenario(60)
def lebesgue(ctx):
    a = float(np.round(ctx.rng.uniform(-2, 1), 2))
    b = a + float(np.round(ctx.rng.uniform(0.2, 2), 2))
    ctx.case(a=a, b=b)
    L = tensap.LebesgueMeasure(a, b)
    ctx.close("lebesgue:mass", L.mass(), b - a, rtol=1e-12)
    ctx.close("lebesgue:support", L.support(), [a, b], rtol=1e-12)
    ctx.close("lebesgue:truncated", L.truncated_support(), [a, b], rtol=1e-12)
    m, s = float(ctx.rng.uniform(-1, 1)), float(ctx.rng.uniform(0.2, 2))
    ctx.close("lebesgue:shift", L.shift(m, s).support(), [m + s * a, m + s * b], rtol=1e-12, atol=1e-12)
    ctx.check("lebesgue:eq", L == tensap.LebesgueMeasure(a, b) and not L == tensap.LebesgueMeasure(a, b + 1)
              and not L == tensap.UniformRandomVariable(a, b))
    x = np.sort(np.asarray(L.random(900)))
    ctx.check("lebesgue:sample", np.all((x >= a) & (x <= b)))
    F = (x - a) / (b - a)
    ctx.check("lebesgue:law", np.max(np.abs(F - np.arange(900) / 900)) < 3 / 30)


@P.scenario(1, 1)
def known_findings(ctx):
    X = tensap.EmpiricalRandomVariable(np.array([-1.0, 0.0, 0.5, 2.0]))
    m = X.moment([1, 2])
    ctx.finding("empirical-variance", abs(float(X.variance()) - (m[1] - m[0] ** 2)) > 1e-6,
                "EmpiricalRandomVariable([-1, 0, .5, 2]).variance() is the variance of the sample, "
                "without the squared bandwidth of the kernels of its pdf, cdf and moments")


@P.scenario(80)
def products_of_measures(ctx):
    """Products of Lebesgue, discrete and probability measures."""
    kinds = [ctx.choice(["lebesgue", "discrete", "normal", "uniform", "atoms"])
             for _ in range(ctx.randint(1, 4))]
    if ctx.coin(0.3):
        kinds = [ctx.choice(["discrete", "atoms"]) for _ in kinds]
    ms, mass, sup = [], [], []
    for k in kinds:
        a = float(ctx.rng.uniform(-2, 2))
        b = a + float(ctx.rng.uniform(0.3, 3))
        v, w = ctx.rng.standard_normal(3), ctx.rng.random(3) + 0.1
        ms.append({"lebesgue": lambda: tensap.LebesgueMeasure(a, b),
                   "discrete": lambda: tensap.DiscreteMeasure(v, w),
                   "normal": lambda: tensap.NormalRandomVariable(a, 1 + abs(a)),
                   "uniform": lambda: tensap.UniformRandomVariable(a, b),
                   "atoms": lambda: tensap.DiscreteRandomVariable(v, w / w.sum())}[k]())
        mass.append({"lebesgue": b - a, "discrete": w.sum()}.get(k, 1.0))
        sup.append([-np.inf, np.inf] if k == "normal" else
                   [a, b] if k in ("lebesgue", "uniform") else [v.min(), v.max()])
    ctx.case(kinds=kinds)
    ctx.op("product-of-measures")
    PM = tensap.ProductMeasure(list(ms))
    ctx.close("mass", float(PM.mass()), float(np.prod(mass)), rtol=1e-12)
    ctx.equal("ndim", int(PM.ndim()), len(kinds))
    ctx.equal("is_discrete", bool(PM.is_discrete()), all(k in ("discrete", "atoms") for k in kinds))
    for k, (m, t) in enumerate(zip(PM.support(), sup)):
        ctx.check("support", np.array_equal(np.ravel(m), t), "%s %s" % (m, t))
    for m, t, k in zip(PM.truncated_support(), sup, kinds):
        m = np.ravel(m)
        ctx.check("truncated", np.all(np.isfinite(m)) and (k == "normal" or np.array_equal(m, t)))
    x = np.asarray(PM.random(4))
    ctx.equal("sample", list(x.shape), [4, len(kinds)])
    for k, t in enumerate(sup):
        ctx.check("sample:support", np.all((x[:, k] >= t[0]) & (x[:, k] <= t[1])))
    ctx.check("equal", bool(PM == tensap.ProductMeasure(list(ms))))
    D = tensap.ProductMeasure.duplicate(ms[0], 3)
    ctx.close("duplicate:mass", float(D.mass()), mass[0] ** 3, rtol=1e-12)
    ctx.equal("duplicate:ndim", int(D.ndim()), 3)
    i = [int(k) for k in ctx.rng.permutation(len(kinds))[: ctx.randint(1, len(kinds))]]
    ctx.close("marginal:mass", float(PM.marginal(i).mass()), float(np.prod([mass[k] for k in i])),
              rtol=1e-12)


@P.scenario(60)
def discretized_atoms(ctx):
    """The quantiles of a discrete variable, repeated or not, keep the law's probabilities."""
    n = ctx.randint(1, 4)
    v = np.sort(ctx.rng.choice(20, n, replace=False)).astype(float)
    p = ctx.rng.random(n) + 0.2
    p = p / p.sum()
    m = ctx.randint(1, 8)
    ctx.case(v=v.tolist(), p=p.tolist(), m=m)
    X = tensap.DiscreteRandomVariable(v, p)
    D = X.discretize(m)
    u = (np.arange(m) + 0.5) / m
    c = np.cumsum(p)
    if np.min(np.abs(u[:, None] - c[None, :-1]), initial=1) < 1e-9:
        raise Skip("tie")
    q = v[np.minimum(np.searchsorted(c, u), n - 1)]
    ctx.op("discretize-atoms")
    for t in sorted(set(v)):
        ctx.close("discretize:law", float(np.sum(np.ravel(D.probabilities)[np.ravel(D.values) == t])),
                  float(np.mean(q == t)), atol=1e-12)


@P.scenario(60)
def boxes(ctx):
    """Points of a box, its boundary included."""
    d, n = ctx.randint(1, 4), ctx.randint(1, 12)
    a = ctx.rng.uniform(-2, 1, d)
    b = a + ctx.rng.uniform(0.1, 2, d) * (ctx.rng.uniform(size=d) < 0.9)
    x = a + (b - a) * ctx.rng.uniform(-0.2, 1.2, (n, d))
    x = np.where(ctx.rng.uniform(size=(n, d)) < 0.6, np.clip(x, a, b), x)
    ctx.case(a=a, b=b, n=n)
    B = np.vstack((a, b))
    given = B if d > 1 or ctx.coin() else np.ravel(B)
    got = np.asarray(tensap.is_in(given, x))
    ctx.equal("is_in", got, np.array([all(a[k] <= p[k] <= b[k] for k in range(d)) for p in x]))
