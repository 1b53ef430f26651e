import numpy as np
import scipy.stats

import tensap
from vt import gen
from vt.core import Prop
from vt.props.c08 import dense

P = Prop("C24", "Functions evaluate, differentiate, sample and compose as defined",
         "user-defined functions given as strings, callables (row by row or vectorised, lists of columns) and "
         "objects, scalar, vector and matrix valued, in dimension 1-5; stored evaluations over sequences of "
         "overlapping point sets; full and sparse grids; partial evaluations; random trees of compositions; "
         "benchmark functions against their published formulas. The instrumented function records the points "
         "it is really evaluated at. Non-trivial: more than one point; distinct by dimension, shape, points.")


class Fun:
    """A random polynomial map with known values, counting its evaluations."""

    def __init__(self, ctx, d=None, shape=None):
        self.d = d or ctx.randint(1, 5)
        self.shape = shape if shape is not None else ctx.choice([1, 1, 1, 2, 3, [2], [2, 3], [3, 2]])
        self.q = int(np.prod(self.shape))
        rng = ctx.rng
        self.A = rng.standard_normal((self.d, self.q))
        self.B = rng.standard_normal((self.d, self.q))
        self.c = rng.standard_normal(self.q)
        self.seen = []
        self.vector = ctx.coin()
        self.form = ctx.choice(["array", "array", "list", "object"]) if self.vector else "array"

    def rows(self, x):
        x = np.asarray(x)
        return x @ self.A + (x ** 2) @ self.B + np.prod(x, 1)[:, None] * self.c

    def ref(self, x):
        return self.rows(x).reshape([np.shape(x)[0]] + [int(n) for n in np.atleast_1d(self.shape)])

    def make(self, measure=None):
        def called(x):
            x = np.asarray(x)
            self.seen.append(x.copy())
            y = self.rows(x)
            if not self.vector:
                return y[0] if self.q > 1 else y[0, 0]
            if self.form == "list":
                return [y[:, j] for j in range(self.q)]
            return y

        class Obj:
            def eval(self, x):
                return called(x)
        f = tensap.UserDefinedFunction(Obj() if self.form == "object" else called, self.d, self.shape)
        f.evaluation_at_multiple_points = self.vector
        f.measure = measure
        return f

    def desc(self):
        return [self.d, self.shape, self.vector, self.form]


def law(ctx, d):
    return tensap.RandomVector([ctx.choice([tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable(0, 1),
                                            tensap.UniformRandomVariable(0.5, 2)]) for _ in range(d)])


def call_ref(y):
    return y[:, 0] if y.ndim == 2 and y.shape[1] == 1 else y


@P.scenario(200)
def user_defined(ctx):
    F = Fun(ctx)
    f = F.make()
    n = ctx.choice([1, 2, 5, 9])
    x = ctx.normal((n, F.d))
    if n == 1:
        ctx.trivial()
    ctx.case(fun=F.desc(), n=n)
    ref = F.ref(x)
    keep = x.copy()
    ctx.close("eval", f.eval(x), ref, rtol=1e-12, scale=1)
    ctx.close("call", f(x), call_ref(ref), rtol=1e-12, scale=1)
    y, g = f(x, return_f=True)
    ctx.close("call:return_f", y, call_ref(ref), rtol=1e-12, scale=1)
    ctx.check("call:return_f-object", g is f)
    if F.d == 1:
        ctx.close("eval:1d", f.eval(x[:, 0]), ref, rtol=1e-12, scale=1)
        ctx.close("call:1d", f(x[:, 0]), call_ref(ref), rtol=1e-12, scale=1)
    pts = np.concatenate(F.seen)
    ctx.check("evaluated-points", all(any(np.array_equal(p, q) for q in x) for p in pts))
    ctx.equal("points-unchanged", x, keep)


@P.scenario(100)
def from_string(ctx):
    d = ctx.choice([1, 2, 3, 5, 11, 12])
    terms, ops = [], []
    for _ in range(ctx.randint(1, 5)):
        i, j = ctx.randint(0, d - 1), ctx.randint(0, d - 1)
        terms.append(ctx.choice([
            ("x%d*x%d" % (i, j), lambda x, i=i, j=j: x[:, i] * x[:, j]),
            ("np.sin(x%d)" % i, lambda x, i=i: np.sin(x[:, i])),
            ("np.exp(x%d)" % i, lambda x, i=i: np.exp(x[:, i])),
            ("(x%d+1)**2" % i, lambda x, i=i: (x[:, i] + 1) ** 2),
            ("(2-0*x%d)" % i, lambda x: 2.0 + 0 * x[:, 0]),
            ("x%d" % i, lambda x, i=i: x[:, i])]))
        ops.append(ctx.choice(["+", "-"]))
    s, first = terms[0]
    funs = [(1.0, first)]
    for (u, v), o in zip(terms[1:], ops):
        s += o + u
        funs.append((1.0 if o == "+" else -1.0, v))
    f = tensap.UserDefinedFunction(s, d)
    f.evaluation_at_multiple_points = ctx.coin()
    x = ctx.normal((5, d))
    ctx.case(s=s, d=d)
    ref = sum(a * v(x) for a, v in funs)
    ctx.close("string", f.eval(x)[:, 0], ref, rtol=1e-12, scale=1)
    ctx.close("string:call", f(x), ref, rtol=1e-12, scale=1)


@P.scenario(160)
def stored(ctx):
    """Histories of evaluations with storage: same values, no point evaluated twice over calls."""
    F = Fun(ctx, d=ctx.randint(1, 3))
    f = F.make()
    pool = ctx.rng.integers(-2, 3, (8, F.d)) / 2.0
    pool = np.unique(pool, axis=0)
    direct = ctx.coin()
    f.store = True
    ctx.case(fun=F.desc(), direct=direct, pool=pool)
    known = set()
    for step in range(ctx.randint(2, 6)):
        k = ctx.randint(1, len(pool))
        sel = ctx.rng.integers(0, len(pool), k) if ctx.coin(0.4) else ctx.rng.permutation(len(pool))[:k]
        x = pool[sel]
        F.seen.clear()
        if direct:
            y, g = f.store_eval(x)
            ctx.check("store_eval:object", g is f)
            if F.d == 1 and ctx.coin(0.3):
                y = f.store_eval(x[:, 0])[0]
        elif ctx.coin(0.3):
            y, g = f(x, return_f=True)
        else:
            y = f(x)
        ctx.close("stored:values", y, call_ref(F.ref(x)), rtol=1e-12, scale=1)
        new = {tuple(p) for s in F.seen for p in np.atleast_2d(s)}
        ctx.check("stored:reused", not (new & known), "a stored point was evaluated again")
        ctx.check("stored:needed", new == {tuple(p) for p in x} - known)
        known |= {tuple(p) for p in x}
        if ctx.coin(0.3):       # the caller reuses its arrays
            x[:] = 7.5
            if isinstance(y, np.ndarray) and y.flags.writeable:
                y[...] = -3.25
    ctx.close("stored:eval", f.eval(pool), F.ref(pool), rtol=1e-12, scale=1)


@P.scenario(120)
def on_tensor_grids(ctx):
    F = Fun(ctx, d=ctx.randint(1, 4), shape=ctx.choice([1, 1, 2, [2, 3]]))
    f = F.make()
    d = F.d
    g = [np.sort(ctx.rng.standard_normal(ctx.randint(1, 4)))[:, None] for _ in range(d)]
    sh = [len(v) for v in g]
    ctx.case(fun=F.desc(), shape=sh)
    if np.prod(sh) == 1:
        ctx.trivial()
    G = tensap.FullTensorGrid(g)
    out = f.eval_on_tensor_grid(G)
    T = np.stack(np.meshgrid(*[v[:, 0] for v in g], indexing="ij"), -1).reshape(-1, d)
    ref = F.ref(T).reshape(sh + ([] if F.shape == 1 else [int(n) for n in np.atleast_1d(F.shape)]))
    ctx.close("full-grid", out.data, ref, rtol=1e-12, scale=1)
    if F.shape == 1 and d > 1:
        full = np.array(np.unravel_index(np.arange(np.prod(sh)), sh)).T
        ind = full[ctx.rng.permutation(len(full))[:ctx.randint(1, len(full))]]
        S = tensap.SparseTensorGrid(g, tensap.MultiIndices(ind))
        out = f.eval_on_tensor_grid(S)
        z = np.zeros(sh)
        z[tuple(ind.T)] = ref[tuple(ind.T)]
        got = dense(out)
        ctx.close("sparse-grid", got[tuple(slice(n) for n in got.shape)],
                  z[tuple(slice(n) for n in got.shape)], rtol=1e-12, scale=1)
        ctx.close("sparse-grid:all", [np.sum(np.abs(got))], [np.sum(np.abs(z))], rtol=1e-12, scale=1)


@P.scenario(120)
def partial_evaluations(ctx):
    F = Fun(ctx, d=ctx.randint(2, 5))
    X = law(ctx, F.d) if ctx.coin(0.7) else None
    f = F.make(X)
    d = F.d
    fixed = ctx.rng.permutation(d)[:ctx.randint(1, d - 1)]
    rest = [i for i in range(d) if i not in fixed]
    v = ctx.normal((1, len(fixed)))
    ctx.case(fun=F.desc(), fixed=fixed)
    g = f.partial_evaluation(fixed if ctx.coin() else [int(i) for i in fixed], v)
    n = ctx.choice([1, 2, 5])
    y = ctx.normal((n, len(rest)))
    x = np.zeros((n, d))
    x[:, rest] = y
    x[:, fixed] = v
    ctx.close("partial_evaluation", np.ravel(g.eval(y)), np.ravel(F.ref(x)), rtol=1e-12, scale=1)
    ctx.equal("partial_evaluation:dim", int(g.dim), len(rest))
    if X is not None:
        ctx.equal("partial_evaluation:measure", [type(r).__name__ for r in g.measure.random_variables],
                  [type(X.random_variables[i]).__name__ for i in rest])
    ctx.close("partial_evaluation:unchanged", f.eval(x), F.ref(x), rtol=1e-12, scale=1)


@P.scenario(100)
def sampling_and_errors(ctx):
    F = Fun(ctx)
    own = ctx.coin(0.6)
    X = law(ctx, F.d)
    f = F.make(X if own else None)
    Y = tensap.RandomVector([tensap.UniformRandomVariable(i, i + 0.5) for i in range(F.d)])
    n = ctx.randint(1, 6)
    ctx.case(fun=F.desc(), n=n, own=own)
    given = not own or ctx.coin()
    y, x = f.random(n, Y) if given else f.random(n)
    ctx.equal("random:points", np.shape(x), (n, F.d))
    ctx.close("random:values", y, F.ref(x), rtol=1e-12, scale=1)
    if given:
        lo = np.arange(F.d)
        ctx.check("random:law", np.all((x >= lo) & (x <= lo + 0.5)))
    # errors on given samples
    G = Fun(ctx, d=F.d, shape=F.shape)
    g = G.make()
    z = ctx.normal((ctx.randint(2, 9), F.d))
    a, b = F.rows(z), G.rows(z)
    l2 = np.linalg.norm(a - b) / np.linalg.norm(b)
    li = np.max(np.linalg.norm(a - b, axis=1)) / np.max(np.linalg.norm(b, axis=1))
    for name, arg in (("function", g), ("values", G.ref(z))):
        got = f.test_error(arg, z)
        ctx.close("test_error:" + name, got, [l2, li], rtol=1e-10)
    # errors on random samples: a multiple of the reference has a known error
    t = float(ctx.choice([0.5, -1.0, 3.0]))
    h = tensap.UserDefinedFunction(lambda p: t * F.rows(p), F.d, F.shape)
    h.evaluation_at_multiple_points = True
    h.measure = X
    for args in ((20, Y), (20,)):
        got = h.test_error(f, *args)
        ctx.close("test_error:random", got, [abs(t - 1)] * 2, rtol=1e-10)


@P.scenario(120)
def compositions(ctx):
    d = ctx.randint(2, 7)
    tm = gen.random_tree_model(ctx, d)
    same = ctx.coin()
    rng = ctx.rng
    coef = {n: rng.standard_normal(4) for n in tm.internal}
    if same:
        coef = {n: coef[tm.root] for n in tm.internal}

    def local(c):
        def fun(*z):
            s = sum(np.sin(c[0] * (k + 1) * v) for k, v in enumerate(z))
            return c[1] + c[2] * s + c[3] * np.cos(z[0] - z[-1])
        return fun
    if same:
        fun = local(coef[tm.root])
    else:
        fun = np.empty(tm.nb, dtype=object)
        for n in tm.internal:
            fun[n - 1] = local(coef[n])
        if ctx.coin():
            fun = list(fun)
    X = law(ctx, d)
    f = tensap.CompositionalModelFunction(tm.tree(), fun, X)
    x = ctx.normal((ctx.choice([1, 4]), d))
    ctx.case(tree=tm.describe(), same=same)

    def value(n):
        if n in tm.leaf_dim:
            return x[:, tm.leaf_dim[n]]
        return local(coef[n])(*[value(ch) for ch in tm.children[n]])
    ctx.close("composition", f.eval(x), value(tm.root), rtol=1e-11, scale=1)
    ctx.close("composition:call", f(x), value(tm.root), rtol=1e-11, scale=1)
    ctx.equal("composition:dim", int(f.dim), d)
    y, z = f.random(3)
    x = z
    ctx.close("composition:random", y, value(tm.root), rtol=1e-11, scale=1)


def borehole(x):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x.T
    r = np.exp(7.71 + 1.0056 * r)
    ln = np.log(r / rw)
    return 2 * np.pi * Tu * (Hu - Hl) / (ln * (1 + 2 * L * Tu / (ln * rw ** 2 * Kw) + Tu / Tl))


@P.scenario(400)
def benchmarks(ctx):
    rng = ctx.rng
    case = ctx.choice(["borehole", "ishigami", "sin_of_asum", "linear_additive", "linear_rank_one",
                       "quadratic_rank_one", "canonical_rank_2", "mixture", "field", "henon_heiles", "sobol",
                       "anisotropic", "polynomial", "oscillatory", "product_peak", "corner_peak", "gaussian",
                       "continuous"])
    args, d, ref = (), None, None
    support = [0.0, 1.0]
    if case == "borehole":
        d, ref, support = 8, borehole, None
    elif case == "ishigami":
        a, b = 7, 0.1
        d = 3
        if ctx.coin():
            d, a, b = ctx.randint(3, 5), float(rng.random()), float(rng.random())
            args = (d, a, b)
        support = [-np.pi, np.pi]

        def ref(x):
            return np.sin(x[:, 0]) + a * np.sin(x[:, 1]) ** 2 + b * x[:, 2] ** 4 * np.sin(x[:, 0])
    elif case in ("sin_of_asum", "linear_additive", "linear_rank_one"):
        d = 3
        w = np.zeros(d) if case == "linear_rank_one" else np.ones(d)
        support = [-1.0, 1.0]
        if ctx.coin(0.7):
            d = ctx.randint(1, 6)
            args = (d,)
            w = np.zeros(d) if case == "linear_rank_one" else np.ones(d)
            if ctx.coin():
                w = rng.standard_normal(d)
                args = (d, w)
        ref = {"sin_of_asum": lambda x: np.sin(x @ w), "linear_additive": lambda x: x @ w,
               "linear_rank_one": lambda x: np.prod(w + 2 * x, 1)}[case]
    elif case == "quadratic_rank_one":
        d = ctx.randint(1, 5)
        c = rng.standard_normal((3, d))
        args = (d, c)
        support = [-1.0, 1.0]

        def ref(x):
            return np.prod(c[0] + c[1] * x + c[2] * x ** 2, 1)
    elif case == "canonical_rank_2":
        d, args = ctx.choice([(3, ()), (5, (5,))])
        support = [-1.0, 1.0]

        def ref(x):
            return x[:, 0] * x[:, 1] * x[:, 2] + x[:, 0] ** 2 + x[:, 1]
    elif case == "mixture":
        d, args = ctx.choice([(6, ()), (7, (7,))])
        support = [-1.0, 1.0]

        def ref(x):
            return np.sin(x[:, 0] + x[:, 3]) * np.exp(x[:, 4]) * x[:, 5] + np.sin(x[:, 2] * x[:, 3]) * x[:, 5]
    elif case == "field":
        d, args = ctx.choice([(6, ()), (7, (7,))])

        def ref(x):
            t = x[:, 0]
            return 1 + np.cos(t) * x[:, 1] + np.sin(t) * x[:, 2] + np.exp(t) * x[:, 3] + x[:, 4] / (t + 1) \
                + x[:, 5] / (2 * t + 3)
    elif case == "henon_heiles":
        d, args = ctx.choice([(3, ()), (5, (5,)), (2, (2,))])
        support = None

        def ref(x):
            u, v = x[:, :-1], x[:, 1:]
            return 0.5 * np.sum(x ** 2, 1) + 0.2 * np.sum(u * v ** 2 - u ** 3, 1) \
                + 0.0025 * np.sum((u ** 2 + v ** 2) ** 2, 1)
    elif case == "sobol":
        d, a = 8, np.array([1, 2, 5, 10, 20, 50, 100, 500])
        if ctx.coin(0.7):
            d = ctx.randint(1, 6)
            a, args = 2.0 ** np.arange(d), (d,)
            if ctx.coin():
                a = rng.random(d)
                args = (d, list(a))

        def ref(x):
            return np.prod((np.abs(4 * x - 2) + a) / (1 + a), 1)
    elif case == "anisotropic":
        d, args = ctx.choice([(16, ()), (18, (18,))])

        def ref(x):
            return x[:, 2] * np.sin(x[:, 3] + x[:, 15])
    elif case == "polynomial":
        d, q = 16, 2
        if ctx.coin(0.7):
            d = ctx.randint(1, 6)
            args = (d,)
            if ctx.coin():
                q = ctx.randint(1, 4)
                args = (d, q)

        def ref(x):
            return np.prod((3 * x ** q + 1) / 2, 1)
    else:
        d = 10
        if ctx.coin():
            d = ctx.randint(2, 6)
            args = (d,)
    ctx.case(case=case, d=d, args=args)
    fun, X = tensap.multivariate_functions_benchmark(case, *args)
    ctx.equal("benchmark:dimension", int(X.ndim()), d)
    n = ctx.randint(2, 5)
    x = X.random(n)
    ctx.equal("benchmark:points", x.shape, (n, d))
    # the law of the inputs
    laws = [support] * d
    if case == "borehole":
        laws = [("n", 0.1, 0.0161812), ("n", 0, 1), (63070, 115600), (990, 1110), (63.1, 116),
                (700, 820), (1120, 1680), (9855, 12045)]
    elif case == "henon_heiles":
        laws = [("n", 0, 1)] * d
    for k in range(d):
        p = rng.random(3)
        quant = np.ravel(X.random_variables[k].icdf(p))
        if laws[k][0] == "n":
            want = laws[k][1] + laws[k][2] * scipy.stats.norm.ppf(p)
        else:
            want = laws[k][0] + (laws[k][1] - laws[k][0]) * p
        ctx.close("benchmark:law", quant, want, rtol=1e-9, scale=1e-3)
    if support is not None:
        ctx.check("benchmark:support", np.all((x >= support[0]) & (x <= support[1])))
    y = np.ravel(fun(x))
    ctx.equal("benchmark:one-value-per-point", y.size, n)
    for i in range(n):
        ctx.close("benchmark:row-wise", np.ravel(fun(x[i:i + 1])), y[i:i + 1], rtol=1e-10, scale=np.max(np.abs(y)))
    if ref is not None:
        ctx.close("benchmark:" + case, y, ref(x), rtol=1e-10, scale=1)
        return
    # functions with random parameters: their structure
    a, b = x[0], x[1]
    k = ctx.randint(1, d - 1)
    ab = np.concatenate((a[:k], b[k:]))
    ba = np.concatenate((b[:k], a[k:]))
    v = np.ravel(fun(np.stack((a, b, ab, ba))))
    if case in ("gaussian", "continuous", "product_peak"):
        ctx.check("benchmark:positive", np.all(v > 0))
        ctx.close("benchmark:rank-one", v[0] * v[1], v[2] * v[3], rtol=1e-9)
        if case != "product_peak":
            ctx.check("benchmark:at-most-one", np.all(v <= 1))
            # logarithm: quadratic along each variable / exponential of a concave function
            t = np.linspace(0, 1, 6)
            pts = np.tile(a, (6, 1))
            pts[:, k] = t
            L = np.log(np.ravel(fun(pts)))
            if case == "gaussian":
                ctx.close("benchmark:gaussian", np.diff(L, 3), np.zeros(3), atol=1e-9)
            else:
                ctx.check("benchmark:continuous", np.all(np.diff(L, 2) <= 1e-10))
            # its peak, where the function is the one without that variable, lies in the support
            pts = np.tile(a, (3, 1))
            pts[:, k] = [-3, 0.5, 4]
            L = np.log(np.ravel(fun(pts)))
            if case == "gaussian":
                c2, c1, c0 = np.polyfit(pts[:, k], L, 2)
                peak = -c1 / (2 * c2)
            else:
                slope = np.log(np.ravel(fun(pts[[0]] - np.eye(d)[[k]])))[0]
                slope = L[0] - slope
                peak = (L[2] - L[0]) / (2 * slope) + 0.5 if slope > 1e-8 else 0.5
            ctx.check("benchmark:peak", -1e-6 <= peak <= 1 + 1e-6, "peak at %s" % peak)
        else:
            pts = np.tile(a, (6, 1))
            pts[:, k] = np.linspace(-1, 1, 6)
            L = 1 / np.ravel(fun(pts))
            ctx.close("benchmark:product-peak", np.diff(L, 3) / np.max(L), np.zeros(3), atol=1e-9)
            c2, c1, c0 = np.polyfit(pts[:, k], L, 2)
            ctx.check("benchmark:peak", abs(c1 / (2 * c2)) <= 1 + 1e-4, "peak at %s" % (-c1 / (2 * c2)))
    elif case == "oscillatory":
        ctx.check("benchmark:bounded", np.all(np.abs(v) <= 1))
        ang = np.linspace(0, 1, 5)[:, None] * (b - a) + a
        w = np.ravel(fun(ang))      # cosine of an affine function: three-term recurrence
        ctx.close("benchmark:cosine", (w[0] + w[2]) * w[2], (w[1] + w[3]) * w[1], atol=1e-9)
    else:
        L = v ** (-1.0 / (d + 1))
        ctx.close("benchmark:corner", L[0] + L[1], L[2] + L[3], rtol=1e-9)
        e = np.ravel(fun(np.stack((np.zeros(d), np.ones(d))))) ** (-1.0 / (d + 1))
        ctx.close("benchmark:corner-difficulty", e, [1, 1 + 185 / d ** 2], rtol=1e-9)
