import itertools

import numpy as np
from scipy import integrate as sint

import tensap
from vt.core import Prop, Skip
from vt import gen

P = Prop("C11", "Grids and integration rules contain the stated points and integrate exactly",
         "grids of dimension 1-4 from 1-D arrays or columns of 1-5 points (including repeated "
         "sizes and one-point grids), vector-valued components, index sets in any order; Gauss "
         "rules with 1-12 points for uniform, normal, Lebesgue, discrete and empirical measures "
         "with random parameters, composite rules on random knots, tensorised rules. Points are "
         "compared with brute-force enumeration, integrals with closed forms. Non-trivial: more "
         "than one point; distinct by sizes and data.")


def rows(a):
    return [tuple(np.round(np.atleast_1d(r), 12)) for r in np.asarray(a)]


def grid_1d(ctx, wide=False):
    n = ctx.choice([1, 2, 3, 3, 4, 5])
    x = np.round(ctx.rng.standard_normal(n), 3)
    if ctx.coin(0.15):
        x = ctx.rng.permutation(np.arange(-4, 5))[:n]
    if wide and ctx.coin(0.4):
        return np.round(ctx.rng.standard_normal((n, ctx.randint(2, 3))), 3)
    return np.reshape(x, (-1, 1)) if ctx.coin() else x


def columns(g):
    return [np.reshape(x, (-1, 1)) if np.ndim(x) == 1 else np.asarray(x) for x in g]


def enumerate_grid(cols, f=True):
    """First index fastest, the order MultiIndices.bounded_by and F-ordered arrays share."""
    shape = [c.shape[0] for c in cols]
    ind = np.array(list(itertools.product(*[range(s) for s in reversed(shape)])), dtype=int)[:, ::-1]
    return ind, np.hstack([c[ind[:, k], :] for k, c in enumerate(cols)])


@P.scenario(120)
def full_grids(ctx):
    d = ctx.randint(1, 4)
    if ctx.coin(0.25):
        x = np.round(ctx.rng.standard_normal(ctx.randint(1, 4)), 3)
        ctx.case(kind="repeated", d=d, x=x)
        G = tensap.FullTensorGrid(x, d)
        cols = columns([x] * d)
    else:
        g = [grid_1d(ctx, wide=True) for _ in range(d)]
        ctx.case(kind="list", d=d, shapes=[list(np.shape(x)) for x in g])
        cols = columns(g)
        G = tensap.FullTensorGrid(list(g))
    ind, ref = enumerate_grid(cols)
    ctx.equal("dimension", int(G.ndim()), d)
    ctx.equal("shape", np.asarray(G.shape), [c.shape[0] for c in cols])
    ctx.equal("size", int(G.size), ref.shape[0])
    arr = np.asarray(G.array())
    ctx.close("array:points", arr, ref, rtol=1e-14)
    mi = G.multi_indices()
    ctx.equal("multi_indices", mi.array, ind)
    ctx.close("array=array(multi_indices)", G.array(mi.array), arr, rtol=0)
    pick = ind[ctx.rng.integers(0, ind.shape[0], ctx.randint(1, 5))]
    want = np.hstack([c[pick[:, k], :] for k, c in enumerate(cols)])
    ctx.close("array:indices", G.array(pick), want, rtol=1e-14)
    ctx.close("eval_at_indices", G.eval_at_indices(pick), want, rtol=1e-14)
    # the order of the grid is the one of column-major arrays
    F = np.reshape(np.arange(ref.shape[0]), [c.shape[0] for c in cols], order="F")
    ctx.close("column-major", [arr[F[tuple(i)]] for i in pick], want, rtol=1e-14)


@P.scenario(80)
def sparse_grids(ctx):
    d = ctx.randint(1, 4)
    same = ctx.coin(0.25)
    if same:
        x = np.round(ctx.rng.standard_normal(ctx.randint(1, 5)), 3)
        g, cols = x, columns([x] * d)
    else:
        g = [grid_1d(ctx) for _ in range(d)]
        cols = columns(g)
    shape = [c.shape[0] for c in cols]
    full, _ = enumerate_grid(cols)
    n = ctx.randint(1, min(len(full), 8))
    ind = full[ctx.rng.permutation(len(full))[:n]]
    ctx.case(d=d, shape=shape, ind=ind)
    mi = tensap.MultiIndices(ind)
    G = tensap.SparseTensorGrid(g, mi, d) if same else tensap.SparseTensorGrid(list(g), mi)
    ctx.equal("sparse:size", int(G.size), n)
    ctx.equal("sparse:ndim", int(G.ndim()), d)
    want = np.hstack([c[ind[:, k], :] for k, c in enumerate(cols)])
    ctx.close("sparse:array", G.array(), want, rtol=1e-14)


@P.scenario(40)
def random_grids(ctx):
    d = ctx.randint(1, 5)
    X = tensap.RandomVector([tensap.UniformRandomVariable(k, k + 0.5) for k in range(d)])
    n = ctx.randint(1, 4) if ctx.coin() else [ctx.randint(1, 4) for _ in range(d)]
    ctx.case(d=d, n=n)
    G = tensap.FullTensorGrid.random(X, n)
    sizes = [n] * d if np.isscalar(n) else n
    ctx.equal("random:shape", np.asarray(G.shape), sizes)
    a = np.asarray(G.array())
    ctx.equal("random:array", a.shape, (int(np.prod(sizes)), d))
    for k in range(d):
        ctx.check("random:component", np.all((a[:, k] >= k) & (a[:, k] <= k + 0.5)))
        ctx.equal("random:distinct", len(set(a[:, k])), sizes[k])


# -- moments (references)
def normal_moments(mu, s, n):
    m = [1.0, mu]
    for k in range(2, n + 1):
        m.append(mu * m[k - 1] + (k - 1) * s ** 2 * m[k - 2])
    return np.array(m[:n + 1])


def uniform_moments(a, b, n):
    k = np.arange(n + 1)
    return (b ** (k + 1.0) - a ** (k + 1.0)) / ((k + 1) * (b - a))


def random_measure(ctx, kinds=("uniform", "normal", "lebesgue", "discrete", "empirical")):
    """(name, measure, function n -> moments 0..n, number of Gauss points allowed)"""
    kind = ctx.choice(kinds)
    if kind in ("uniform", "lebesgue"):
        if ctx.coin(0.25):
            a, b = -1.0, 1.0
        else:
            a = float(np.round(ctx.rng.uniform(-2, 1), 2))
            b = a + float(np.round(ctx.rng.uniform(0.2, 2.5), 2))
        if kind == "uniform":
            return kind, tensap.UniformRandomVariable(a, b), lambda n: uniform_moments(a, b, n), 12
        return kind, tensap.LebesgueMeasure(a, b), lambda n: (b - a) * uniform_moments(a, b, n), 12
    if kind == "normal":
        mu, s = (0.0, 1.0) if ctx.coin(0.25) else (
            float(np.round(ctx.rng.uniform(-1, 1), 2)), float(np.round(ctx.rng.uniform(0.3, 2), 2)))
        return kind, tensap.NormalRandomVariable(mu, s), lambda n: normal_moments(mu, s, n), 12
    if kind == "discrete":
        n = ctx.randint(2, 7)
        v = np.sort(np.round(ctx.rng.permutation(np.linspace(-1.5, 1.5, 13))[:n], 3))
        if ctx.coin(0.4):
            v = ctx.rng.permutation(v)
        p = ctx.rng.uniform(0.3, 1, n)
        p = p / np.sum(p)
        X = tensap.DiscreteRandomVariable(v, p)
        return kind, X, lambda k: np.array([np.sum(p * v ** j) for j in range(k + 1)]), n - 1
    n = ctx.randint(4, 9)
    x = np.round(ctx.rng.standard_normal(n) * ctx.choice([0.5, 1, 2]) + ctx.choice([0, 1]), 3)
    X = tensap.EmpiricalRandomVariable(x)
    h = float(X.bandwidth)
    return kind, X, lambda k: np.mean([normal_moments(t, h, k) for t in x], axis=0), min(n - 2, 5)


def abs_scale(points, weights, k):
    return float(np.sum(np.abs(weights) * np.abs(points) ** k)) + 1e-300


@P.scenario(200)
def gauss_rules(ctx):
    kind, mu, mom, nmax = random_measure(ctx)
    n = ctx.randint(1, max(1, nmax))
    ctx.case(kind=kind, mu=str(mu)[:80], n=n)
    G = tensap.IntegrationRule.gauss(mu, n) if ctx.coin(0.3) else mu.gauss_integration_rule(n)
    x, w = np.ravel(G.points), np.ravel(G.weights)
    ctx.equal("gauss:sizes", [x.size, w.size], [n, n])
    ctx.check("gauss:positive", np.all(w > 0), "weights %s" % w)
    ctx.check("gauss:real", np.all(np.isreal(x)) and np.all(np.isfinite(x)))
    ctx.equal("gauss:distinct", len(set(np.round(x, 10))), n)
    ref = mom(2 * n - 1)
    tol = 1e-9 if kind != "empirical" else 1e-7
    for k in range(2 * n):
        got = G.integrate(lambda t: np.ravel(t) ** k)
        ctx.close("gauss:exact", got, ref[k], rtol=tol, scale=abs_scale(x, w, k))
    s = mu.support() if kind != "normal" and kind != "empirical" else [-np.inf, np.inf]
    s = np.ravel(s)
    ctx.check("gauss:in-support", np.all(x >= s[0] - 1e-9) and np.all(x <= s[1] + 1e-9))
    c = ctx.rng.standard_normal(2 * n)
    ctx.close("gauss:polynomial", G.integrate(lambda t: np.polyval(c[::-1], t)),
              np.sum(c * ref), rtol=tol * 10,
              scale=np.sum([abs(c[k]) * abs_scale(x, w, k) for k in range(2 * n)]))


@P.scenario(60)
def own_rules(ctx):
    """Rules attached to discrete and empirical measures."""
    kind = ctx.choice(["discrete", "discrete-measure", "empirical", "discrete-d"])
    ctx.op(kind)
    if kind == "empirical":
        x = np.round(ctx.rng.standard_normal(ctx.randint(2, 8)), 3)
        X = tensap.EmpiricalRandomVariable(x)
        n = ctx.randint(1, 6)
        R = X.integration_rule(n)
        h = float(X.bandwidth)
        ref = np.mean([normal_moments(t, h, 2 * n - 1) for t in x], axis=0)
        ctx.case(kind=kind, x=x, n=n)
        for k in range(2 * n):
            ctx.close("empirical-rule", R.integrate(lambda t: np.ravel(t) ** k), ref[k], rtol=1e-9,
                      scale=abs_scale(np.ravel(R.points), np.ravel(R.weights), k))
        return
    n, d = ctx.randint(1, 6), 1 if kind != "discrete-d" else ctx.randint(2, 3)
    v = np.round(ctx.rng.standard_normal((n, d)), 3)
    w = ctx.rng.uniform(0.1, 2, n)
    if kind == "discrete":
        w = w / np.sum(w)
        mu = tensap.DiscreteRandomVariable(np.ravel(v), w)
    else:
        mu = tensap.DiscreteMeasure(v, w)
        ctx.close("discrete:mass", mu.mass(), np.sum(w), rtol=1e-12)
    R = mu.integration_rule()
    ctx.case(kind=kind, v=v, w=w)
    c = ctx.rng.standard_normal(d)
    f = lambda t: np.cos(np.reshape(t, (-1, d)) @ c)
    ctx.close("discrete-rule", R.integrate(f), np.sum(w * f(v)), rtol=1e-11, scale=np.sum(w))
    ctx.equal("discrete:ndim", int(mu.ndim()) if kind != "discrete" else 1, d)


@P.scenario(60)
def composite_rules(ctx):
    m, n = ctx.randint(1, 4), ctx.randint(1, 5)
    t = np.cumsum(ctx.rng.uniform(0.1, 1, m + 1)) - 1
    knots = ctx.rng.permutation(t) if ctx.coin(0.3) else t
    nn = n if ctx.coin(0.6) else [ctx.randint(1, 5) for _ in range(m)]
    ctx.case(knots=knots, n=nn)
    R = tensap.IntegrationRule.gauss_legendre_composite(knots, nn)
    ns = [n] * m if np.isscalar(nn) else nn
    ctx.equal("composite:number", np.size(R.points), sum(ns))
    ctx.equal("composite:number-weights", np.size(R.weights), sum(ns))
    x = np.ravel(R.points)
    # a different polynomial of degree 2 n_k - 1 on every cell
    cs = [ctx.rng.standard_normal(2 * k) for k in ns]

    def f(s):
        s = np.ravel(s)
        out = np.zeros(s.size)
        for k in range(m):
            sel = (s > t[k]) & (s < t[k + 1])
            out[sel] = np.polyval(cs[k], s[sel])
        return out
    ref = sum(np.polyval(np.polyint(cs[k]), t[k + 1]) - np.polyval(np.polyint(cs[k]), t[k])
              for k in range(m))
    ctx.close("composite:exact", R.integrate(f), ref, rtol=1e-10,
              scale=float(np.sum(np.ravel(R.weights) * np.abs(f(x)))))
    for k in range(m):
        ctx.equal("composite:cell", int(np.sum((x > t[k]) & (x < t[k + 1]))), ns[k])


def monomial(e):
    return lambda z: np.prod(np.asarray(z) ** np.array(e), axis=1)


@P.scenario(100)
def tensor_rules(ctx):
    kind = ctx.choice(["tensorize", "product", "product", "explicit", "composite", "list"])
    ctx.op(kind)
    d = ctx.randint(1, 3)
    if kind == "tensorize":
        kd, mu, mom, nm = random_measure(ctx, ("uniform", "normal", "lebesgue"))
        n = ctx.randint(1, 4)
        R = mu.gauss_integration_rule(n).tensorize(d)
        ns, moms = [n] * d, [mom] * d
    elif kind == "product":
        ms = [random_measure(ctx, ("uniform", "normal", "lebesgue")) for _ in range(d)]
        n = ctx.randint(1, 4) if ctx.coin() else [ctx.randint(1, 4) for _ in range(d)]
        pm = tensap.ProductMeasure([x[1] for x in ms])
        ctx.close("product:mass", pm.mass(), np.prod([x[2](0)[0] for x in ms]), rtol=1e-12)
        ctx.equal("product:ndim", int(pm.ndim()), d)
        R = pm.gauss_integration_rule(n)
        ns = [n] * d if np.isscalar(n) else n
        moms = [x[2] for x in ms]
    elif kind == "composite":
        n = ctx.randint(1, 3)
        kn = [np.cumsum(ctx.rng.uniform(0.2, 0.8, ctx.randint(2, 3))) for _ in range(d)]
        R = tensap.FullTensorProductIntegrationRule.gauss_legendre_composite(kn, n)
        ns = [n] * d
        moms = [lambda k, a=t[0], b=t[-1]: (b - a) * uniform_moments(a, b, k) for t in kn]
    else:
        pts = [np.round(ctx.rng.standard_normal(ctx.randint(1, 4)), 3) for _ in range(d)]
        ws = [np.round(ctx.rng.standard_normal(p.size), 3) for p in pts]
        R = tensap.FullTensorProductIntegrationRule(
            list(pts) if kind == "list" else tensap.FullTensorGrid(list(pts)), list(ws))
        ns = [4] * d
        moms = [lambda k, p=p, w=w: np.array([np.sum(w * p ** j) for j in range(k + 1)])
                for p, w in zip(pts, ws)]
    ctx.equal("tensor:ndim", int(R.ndim()), d)
    ctx.case(kind=kind, d=d, n=[int(v) for v in ns])
    Q = R.integration_rule()
    X, W = np.asarray(Q.points), np.asarray(Q.weights)
    ctx.equal("tensor:points-shape", X.shape, (W.size, d))
    ctx.close("tensor:weights_on_grid", R.weights_on_grid(), W, rtol=1e-13)
    ctx.equal("rule:ndim", int(Q.ndim()), d)
    for _ in range(4):
        e = [ctx.randint(0, 2 * n - 1) for n in ns]
        ref = np.prod([moms[k](e[k])[e[k]] for k in range(d)])
        sc = float(np.sum(np.abs(W) * np.abs(monomial(e)(np.abs(X) + np.std(X) + 1e-3))))
        ctx.close("tensor:integrate", R.integrate(monomial(e)), ref, rtol=1e-9, scale=sc)
        ctx.close("tensor:integration_rule", Q.integrate(monomial(e)), ref, rtol=1e-9, scale=sc)
    # each weight belongs to its point: restriction of the integral to a half space
    g = lambda z: (np.asarray(z)[:, 0] > np.median(X[:, 0])) * np.exp(np.asarray(z)[:, -1])
    ref = np.sum(W * g(X))
    ctx.close("tensor:callable", R.integrate(g), ref, rtol=1e-10, scale=float(np.sum(np.abs(W * g(X)))))
    # the weights factorise with the points
    gp = [np.ravel(p) for p in R.points.grids]
    gw = [np.ravel(w) for w in R.weights]
    for i in ctx.rng.integers(0, W.size, 4):
        j = [int(np.where(gp[k] == X[i, k])[0][0]) for k in range(d)]
        if all(np.sum(gp[k] == X[i, k]) == 1 for k in range(d)):
            ctx.close("tensor:weight-of-point", W[i], np.prod([gw[k][j[k]] for k in range(d)]),
                      rtol=1e-12, scale=np.max(np.abs(W)))


@P.scenario(60)
def one_dimensional_rule(ctx):
    n = ctx.randint(1, 6)
    x, w = ctx.rng.standard_normal(n), ctx.rng.standard_normal(n)
    col = ctx.coin()
    ctx.case(n=n, col=col)
    R = tensap.IntegrationRule(x[:, None] if col else x, w)
    ctx.close("integrate", R.integrate(np.sin), np.sum(w * np.sin(x)), rtol=1e-12, scale=np.sum(np.abs(w)))
    if col:
        ctx.equal("ndim", int(R.ndim()), 1)


@P.scenario(40)
def chebyshev(ctx):
    n = ctx.randint(1, 12)
    s = None if ctx.coin(0.4) else sorted(np.round(ctx.rng.uniform(-3, 3, 2), 2))
    if s is not None and s[1] - s[0] < 0.1:
        raise Skip()
    ctx.case(n=n, s=s)
    x = np.asarray(tensap.chebyshev_points(n, s))
    ctx.equal("chebyshev:shape", x.shape, (n, 1))
    y = np.ravel(x) if s is None else (2 * np.ravel(x) - s[0] - s[1]) / (s[1] - s[0])
    ref = np.cos(np.pi * (2 * np.arange(1, n + 1) - 1) / 2 / n)
    ctx.close("chebyshev:points", np.sort(y), np.sort(ref), rtol=1e-12, atol=1e-13)
