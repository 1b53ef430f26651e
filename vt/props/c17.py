import itertools

import numpy as np
from scipy import stats

import tensap
from vt.core import Prop
from vt.props.c08 import dense

P = Prop("C17", "Tensorisation of functions is a bijective change of variables",
         "bases 2-7, levels 1-10 (and large levels), dimension 1-3, both orderings, uniform and normal laws for the "
         "variables and the remainders; points in the interior, at cell boundaries and at the ends of the support. "
         "Reference: exact rational arithmetic of digits and the laws' closed-form distribution functions (scipy). "
         "Non-trivial: at least two cells and two points; distinct by parameters.")


class Law:
    def __init__(self, ctx, kinds=("unit", "uniform", "normal")):
        k = ctx.choice(list(kinds))
        if k == "unit":
            self.rv, self.ref = tensap.UniformRandomVariable(0, 1), stats.uniform(0, 1)
        elif k == "uniform":
            a = ctx.randint(-3, 2) / 2.0
            w = ctx.randint(1, 6) / 2.0
            self.rv, self.ref = tensap.UniformRandomVariable(a, a + w), stats.uniform(a, w)
        else:
            m, s = ctx.randint(-2, 2) / 2.0, ctx.randint(1, 4) / 2.0
            self.rv, self.ref = tensap.NormalRandomVariable(m, s), stats.norm(m, s)
        self.kind = k


def make(ctx, kinds=("unit", "uniform", "normal"), dmax=8, dimmax=3, cells=None):
    b = ctx.randint(2, 7)
    d = ctx.randint(1, dmax)
    dim = ctx.randint(1, dimmax)
    if cells is not None:
        while b ** (d * dim) > cells:
            if d > 1:
                d -= 1
            elif dim > 1:
                dim -= 1
            else:
                b = cells
    how = ctx.choice(["default", "variables", "vectors"])
    if how == "default":
        X = Y = [Law(ctx, ("unit",))] * dim
        T = tensap.Tensorizer(b, d, dim) if dim > 1 or ctx.coin() else tensap.Tensorizer(b, d)
    elif how == "variables":
        x, y = Law(ctx, kinds), Law(ctx, kinds)
        X, Y = [x] * dim, [y] * dim
        T = tensap.Tensorizer(b, d, dim, x.rv, y.rv)
    else:
        X, Y = [Law(ctx, kinds) for _ in range(dim)], [Law(ctx, kinds) for _ in range(dim)]
        T = tensap.Tensorizer(b, d, dim, tensap.RandomVector([v.rv for v in X]),
                              tensap.RandomVector([v.rv for v in Y]))
    T.ordering_type = ctx.choice([1, 1, 2])
    ctx.case(b=b, d=d, dim=dim, ordering=T.ordering_type, X=[v.kind for v in X], Y=[v.kind for v in Y])
    return T, b, d, dim, X, Y


def columns(T, k, b, d, dim):
    """Columns of the digits of variable k, most significant first."""
    return [k * d + j for j in range(d)] if T.ordering_type == 1 else [j * dim + k for j in range(d)]


def points(ctx, X, b, d, n):
    """Points of the support: interior ones, boundaries of cells, ends."""
    u = ctx.rng.random((n, len(X)))
    for k in range(len(X)):
        for r in range(n):
            if ctx.coin(0.3):
                u[r, k] = ctx.randint(0, b ** min(d, 6)) / float(b ** min(d, 6))
    x = np.stack([v.ref.ppf(u[:, k]) for k, v in enumerate(X)], axis=1)
    x[~np.isfinite(x)] = 0.3
    return x


@P.scenario(220)
def mapping(ctx):
    T, b, d, dim, X, Y = make(ctx)
    n = ctx.choice([1, 2, 5, 8])
    if n == 1:
        ctx.trivial()
    x = points(ctx, X, b, d, n)
    arg = x[:, 0] if dim == 1 and ctx.coin(0.3) else x
    keep = x.copy()
    z = T.map(arg)
    ctx.equal("map:shape", z.shape, (n, (d + 1) * dim))
    y, i = T.map(arg, 2)
    ctx.equal("map:nargout2", np.hstack((i, y)), z)
    ctx.equal("map:argument-unchanged", x, keep)
    dig = z[:, :d * dim]
    ctx.check("map:digits", np.all((dig == np.round(dig)) & (dig >= 0) & (dig <= b - 1)))
    for k in range(dim):
        D = dig[:, columns(T, k, b, d, dim)]
        yk = z[:, d * dim + k]
        lo, hi = Y[k].ref.support()
        ctx.check("map:remainder-support", np.all((yk >= lo - 1e-12) & (yk <= hi + 1e-12)))
        i = sum(D[:, j] * float(b) ** (d - 1 - j) for j in range(d))
        u = X[k].ref.cdf(x[:, k])
        ctx.close("map:position", (i + Y[k].ref.cdf(yk)) / float(b) ** d, u, atol=1e-9)
    back = T.inverse_map(z)
    ctx.close("inverse_map", back, x, rtol=1e-6, scale=10)
    ctx.equal("inverse_map:shape", back.shape, (n, dim))


@P.scenario(160)
def converse(ctx):
    """The converse map followed by the map is the identity inside the cells."""
    T, b, d, dim, X, Y = make(ctx, kinds=("unit", "uniform"), dmax=10)
    n = ctx.choice([1, 3, 6])
    rng = ctx.rng
    z = np.zeros((n, (d + 1) * dim))
    z[:, :d * dim] = rng.integers(0, b, (n, d * dim))
    v = rng.random((n, dim)) * 0.9 + 0.05
    for k in range(dim):
        z[:, d * dim + k] = Y[k].ref.ppf(v[:, k])
    keep = z.copy()
    x = T.inverse_map(z[0] if n == 1 and ctx.coin() else z)
    ctx.equal("inverse:shape", x.shape, (n, dim))
    for k in range(dim):
        D = z[:, columns(T, k, b, d, dim)]
        u = (sum(D[:, j] * float(b) ** (d - 1 - j) for j in range(d)) + v[:, k]) / float(b) ** d
        ctx.close("inverse:value", x[:, k], X[k].ref.ppf(u), rtol=1e-9, scale=1)
    w = T.map(x)
    ctx.equal("inverse-then-map:digits", w[:, :d * dim], z[:, :d * dim])
    ctx.close("inverse-then-map:remainder", w[:, d * dim:], z[:, d * dim:], rtol=1e-9, scale=float(b) ** min(d, 6) / 10)
    ctx.equal("inverse:argument-unchanged", z, keep)


@P.scenario(100)
def digits(ctx):
    b = ctx.randint(2, 9)
    d = ctx.randint(1, 12)
    n = ctx.randint(1, 6)
    i = ctx.rng.integers(0, b ** d, n)
    y = ctx.rng.random(n) * 0.9 + 0.05
    if ctx.coin(0.3):
        i[0], y[0] = b ** d - 1, 1.0        # the right end of the interval
    ctx.case(b=b, d=d, i=i)
    u = (i + y) / float(b) ** d
    z = tensap.Tensorizer.u2z(u, b, d)
    ref = np.array([[(int(a) // b ** (d - 1 - j)) % b for j in range(d)] for a in i])
    ctx.equal("u2z:digits", z[:, :-1], ref)
    ctx.close("u2z:remainder", z[:, -1], y, atol=1e-3 if b ** d > 1e12 else 1e-15 * b ** d * 16 + 1e-12)
    yy, ii = tensap.Tensorizer.u2z(u, b, d, 2)
    ctx.equal("u2z:nargout2", np.hstack((ii, yy.reshape(-1, 1))), z)
    ctx.close("z2u", tensap.Tensorizer.z2u(np.hstack((ref, y[:, None])), b), u, rtol=1e-12)


@P.scenario(140)
def functions(ctx):
    T, b, d, dim, X, Y = make(ctx)
    q = ctx.choice([1, 1, 1, 2])
    A = ctx.rng.standard_normal((dim, q))

    def values(x):
        return np.sin(np.asarray(x) @ A) + np.sum(np.asarray(x) ** 2, 1, keepdims=True)
    form = ctx.choice(["callable", "function", "rows"]) if q == 1 else ctx.choice(["function", "rows"])
    if form == "callable":
        fun = (lambda x: values(x)) if ctx.coin() else (lambda x: values(x)[:, 0])
    else:
        fun = tensap.UserDefinedFunction(lambda x: values(x), dim, q)
        fun.evaluation_at_multiple_points = form == "function"
    ctx.case(form=form, q=q)
    F = T.tensorize(fun)
    n = ctx.choice([1, 2, 6])
    x = points(ctx, X, b, d, n)
    z = T.map(x)
    ref = values(x)
    tol = 1e-6
    sc = 10 + np.max(np.abs(ref))
    if q == 1:
        ctx.close("tensorized:x", np.ravel(F.eval(x)), ref[:, 0], rtol=tol, scale=sc)
        ctx.close("tensorized:z", np.ravel(F.eval(z)), ref[:, 0], rtol=tol, scale=sc)
        ctx.close("tensorized:call", np.ravel(F(x)), ref[:, 0], rtol=tol, scale=sc)
        ctx.close("tensorized:fun", np.ravel(F.fun(z)), ref[:, 0], rtol=tol, scale=sc)
    else:
        ctx.close("tensorized:vector-x", F.eval(x), ref, rtol=tol, scale=sc)
        ctx.close("tensorized:vector-z", F.eval(z), ref, rtol=tol, scale=sc)
    ctx.equal("tensorized:dim", [int(F.dim), int(F.fun.dim)], [dim, (d + 1) * dim])
    if dim == 1:
        ctx.close("tensorized:1d", np.ravel(F.eval(x[:, 0])), np.ravel(ref), rtol=tol, scale=sc)
    for got, v in zip(F.domain(), X):
        lo, hi = v.ref.support()
        ctx.equal("domain", [float(got[0]), float(got[1])], [lo, hi])
    # a function of the digits seen as a function of the variable
    if d * dim <= 12:
        c = ctx.rng.standard_normal((d + 1) * dim)
        g = tensap.UserDefinedFunction(lambda t: np.asarray(t) @ c, (d + 1) * dim)
        g.evaluation_at_multiple_points = True
        G = tensap.TensorizedFunction(g, T)
        ok = np.all(np.isfinite(z), axis=1)
        x, z = x[ok], z[ok]
        if not len(x):
            return
        ctx.close("from-digits:x", np.ravel(G.eval(x)), z @ c, rtol=1e-9, scale=10 * b)
        ctx.close("from-digits:z", np.ravel(G.eval(z)), z @ c, rtol=1e-9, scale=10 * b)


@P.scenario(100)
def bases(ctx):
    """Orthonormality of the tensorised bases with respect to the law of the variable."""
    T, b, d, dim, X, Y = make(ctx, kinds=("unit", "uniform", "normal"), dmax=4, dimmax=2, cells=125)
    h = ctx.choice(["degree", "degree", "basis", "bases"])
    deg = ctx.randint(0, 3)
    rvs = [v.rv for v in Y]
    if h == "degree":
        H = T.tensorized_function_functional_bases(*(() if deg == 1 else (deg,)))
    elif h == "basis" and len(set(map(id, Y))) == 1:
        H = T.tensorized_function_functional_bases(
            tensap.PolynomialFunctionalBasis(rvs[0].orthonormal_polynomials(), range(deg + 1)))
    else:
        H = T.tensorized_function_functional_bases(tensap.FunctionalBases(
            [tensap.PolynomialFunctionalBasis(r.orthonormal_polynomials(), range(deg + 1)) for r in rvs]))
    ctx.case(h=h, deg=deg)
    N = (d + 1) * dim
    ctx.equal("bases:number", [len(H), int(H.length())], [N, N])
    ctx.equal("bases:cardinals", H.cardinals(), [b] * (d * dim) + [deg + 1] * dim)
    c = ctx.rng.standard_normal([b] * (d * dim) + [deg + 1] * dim)
    f = tensap.FunctionalTensor(tensap.FullTensor(c), H)
    # all the cells, Gauss points of the remainders
    quad = []
    for v in Y:
        if v.kind == "normal":
            t, w = np.polynomial.hermite_e.hermegauss(deg + 2)
            quad.append((v.ref.mean() + v.ref.std() * t, w / np.sum(w)))
        else:
            t, w = np.polynomial.legendre.leggauss(deg + 2)
            lo, hi = v.ref.support()
            quad.append((lo + (hi - lo) * (t + 1) / 2, w / 2))
    cells = np.array(list(itertools.product(range(b), repeat=d * dim)))
    ys = np.array(list(itertools.product(*[q[0] for q in quad])))
    ws = np.prod(np.array(list(itertools.product(*[q[1] for q in quad]))), axis=1)
    z = np.hstack((np.repeat(cells, len(ys), 0), np.tile(ys, (len(cells), 1))))
    w = np.tile(ws, len(cells)) / float(b) ** (d * dim)
    F = tensap.TensorizedFunction(f, T)
    v = np.ravel(dense(F.eval(z)))
    nrm = np.sum(c ** 2)
    ctx.close("bases:norm", np.sum(w * v ** 2), nrm, rtol=1e-8)
    ctx.close("bases:functional-norm", float(f.norm()) ** 2, nrm, rtol=1e-8)
    ctx.close("bases:mean", f.mean(), np.sum(w * v), rtol=1e-8, scale=np.sqrt(nrm))
    ctx.check("bases:orthonormal", all(x.is_orthonormal for x in H.bases))
    if len(z) <= 4000:
        x = T.inverse_map(z)
        inside = np.all(np.isfinite(x), axis=1)
        got = np.ravel(dense(F.eval(x[inside])))
        # normal laws: the digits of far tails lose accuracy in the cdf
        if all(q.kind != "normal" for q in X + Y):
            ctx.close("bases:as-function-of-x", got, v[inside], rtol=1e-7, scale=np.sqrt(nrm * c.size))


@P.scenario(80)
def representation(ctx):
    """Polynomials of the variable belong to the tensorised space of the same local degree."""
    b, d, dim = ctx.randint(2, 4), ctx.randint(1, 3), ctx.randint(1, 2)
    while b ** (d * dim) > 64:
        d, dim = max(d - 1, 1), 1
    T = tensap.Tensorizer(b, d, dim)
    T.ordering_type = ctx.choice([1, 2])
    deg = ctx.randint(0, 2)
    H = T.tensorized_function_functional_bases(deg)
    co = ctx.rng.standard_normal([deg + 1] * dim)
    ctx.case(b=b, d=d, dim=dim, deg=deg, ordering=T.ordering_type)

    def fun(x):
        if dim == 1:
            return np.polynomial.polynomial.polyval(x[:, 0], co)
        return np.polynomial.polynomial.polyval2d(x[:, 0], x[:, 1], co)
    F = T.tensorize(fun)
    t = (np.arange(deg + 1) + 0.5) / (deg + 1)
    cells = np.array(list(itertools.product(range(b), repeat=d * dim)))
    ys = np.array(list(itertools.product(t, repeat=dim)))
    z = np.hstack((np.repeat(cells, len(ys), 0), np.tile(ys, (len(cells), 1))))
    V = H.eval(z)
    A = V[0]
    for M in V[1:]:
        A = (A[:, :, None] * M[:, None, :]).reshape(A.shape[0], -1)
    y = np.ravel(F.eval(z))
    ctx.check("representation:basis", A.shape[0] == A.shape[1] and np.linalg.cond(A) < 1e8)
    c = np.linalg.solve(A, y).reshape(H.cardinals())
    G = tensap.TensorizedFunction(tensap.FunctionalTensor(tensap.FullTensor(c), H), T)
    x = ctx.rng.random((7, dim))
    ctx.close("representation", np.ravel(dense(G.eval(x))), fun(x), rtol=1e-7, scale=np.sum(np.abs(co)))
