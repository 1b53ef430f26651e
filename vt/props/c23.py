"""Loss functions, error estimates and model selection."""
import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip

P = Prop("C23", "Loss functions, error estimates and model selection compute what they name",
         "square, density and custom losses; predictions given as arrays, functions, objects with eval, basis "
         "arrays and functional tensors; scalar and vector-valued data in 1-D and 2-D layouts, 1 to 12 samples; "
         "sets of 1 to 12 models with random, integer, tied, collinear and monotone (complexity, risk) pairs and "
         "several penalties. Reference: explicit formulas, lower convex envelope by definition (midpoint "
         "minimality over all models) and counting. Non-trivial: at least two samples or models.")


class Pred:
    """A predictor with the evaluation interface of tensap functions."""

    def __init__(self, fun, norm=None):
        self.fun, self._norm = fun, norm

    def eval(self, x):
        return self.fun(x)


class PredNorm(Pred):
    def norm(self):
        return self._norm


def data(ctx):
    rng = ctx.rng
    N, dx = ctx.randint(1, 12), ctx.randint(1, 3)
    d = ctx.choice([0, 0, 1, 1, 2, 3])
    x = rng.standard_normal((N, dx))
    c = 10.0 ** ctx.randint(-2, 2)
    W = rng.standard_normal((dx, max(d, 1))) * c
    b = rng.standard_normal(max(d, 1)) * c
    y = np.cos(x @ W) * c + b + rng.standard_normal((N, max(d, 1))) * c * ctx.choice([0, 0.1, 1])
    y = y[:, 0] if d == 0 else y
    ctx.case(N=N, outputs=d)
    if N < 2:
        ctx.trivial()
    return N, dx, d, x, y, W, b, c


def predictor(ctx, N, d, x, W, b):
    """(what is passed to the loss, its values as an (N, d) array, its kind)."""
    def f2(z):
        return np.asarray(z) @ W + b
    kind = ctx.choice(["array", "array", "function", "eval", "user"])
    flat = d <= 1 and ctx.coin()

    def f(z):
        out = f2(z)
        return out[:, 0] if flat else out
    ref = f2(x)
    if kind == "array":
        return f(x), ref, kind + ("-1d" if flat else "-2d")
    if kind == "function":
        return f, ref, kind + ("-1d" if flat else "-2d")
    if kind == "eval":
        return Pred(f), ref, kind + ("-1d" if flat else "-2d")
    u = tensap.UserDefinedFunction(f, x.shape[1], [1] if d <= 1 else [d])
    u.evaluation_at_multiple_points = True
    return u, ref, kind


@P.scenario(260)
def square_loss(ctx):
    N, dx, d, x, y, W, b, c = data(ctx)
    fun, pred, kind = predictor(ctx, N, d, x, W, b)
    ctx.case(kind=kind)
    loss = tensap.SquareLossFunction()
    ctx.equal("default-type", loss.error_type, "relative")
    sample = [x, y] if ctx.coin() else (x, y)
    y2 = y.reshape(N, -1)
    ref = np.sum((pred - y2) ** 2, 1)
    rref = np.sum(y2 ** 2, 1)
    ctx.close("square:loss", loss.eval(fun, sample), ref)
    got, got_ref = loss.eval(fun, sample, nargout=2)
    ctx.close("square:loss2", got, ref)
    ctx.close("square:loss-ref", got_ref, rref)
    ctx.close("square:risk", loss.risk_estimation(fun, sample), np.mean(ref))
    r, rr = loss.risk_estimation(fun, sample, nargout=2)
    ctx.close("square:risk2", r, np.mean(ref))
    ctx.close("square:risk-ref", rr, np.mean(rref))
    rel = np.sqrt(np.mean(ref) / np.mean(rref))
    ctx.close("square:relative", loss.relative_test_error(fun, sample), rel)
    ctx.close("square:test-relative", loss.test_error(fun, sample), rel)
    loss.error_type = "absolute"
    ctx.close("square:test-absolute", loss.test_error(fun, sample), np.sqrt(np.mean(ref)))
    loss.error_type = "something"
    ctx.raises("square:bad-type", loss.test_error, fun, sample)
    ctx.equal("square:data", y2, y.reshape(N, -1))


@P.scenario(160)
def density_loss(ctx):
    rng = ctx.rng
    N = ctx.randint(1, 12)
    x = rng.uniform(-1, 1, (N, 1))
    kind = ctx.choice(["array", "object", "basis", "tensor"])
    ctx.case(N=N, kind=kind)
    if N < 2:
        ctx.trivial()
    loss = tensap.DensityL2LossFunction()
    args = ()
    if kind == "array":
        fun = rng.standard_normal(N)
        norm = float(rng.random() * 3)
        val, args = fun, (norm,)
    elif kind == "object":
        norm = float(rng.random() * 3)
        fun = PredNorm(lambda z: np.exp(z[:, 0]), norm)
        val = np.exp(x[:, 0])
    else:
        p = ctx.randint(0, 4)
        B = tensap.PolynomialFunctionalBasis(
            tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(p + 1))
        c = rng.standard_normal(p + 1)
        if kind == "basis":
            fun = tensap.FunctionalBasisArray(c, B)
            val = B.eval(x[:, 0]) @ c
            norm = np.linalg.norm(c)
        else:
            q = ctx.randint(1, 3)
            C = tensap.PolynomialFunctionalBasis(
                tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(q))
            t = tensap.FullTensor(rng.standard_normal((p + 1, q)))
            fun = tensap.FunctionalTensor(t, tensap.FunctionalBases([B, C]))
            x = rng.uniform(-1, 1, (N, 2))
            val = np.einsum("ij,ni,nj->n", t.data, B.eval(x[:, 0]), C.eval(x[:, 1]))
            norm = np.linalg.norm(t.data)
    sample = ctx.choice([[x], [x, None], (x,)])
    ref = norm ** 2 - 2 * val
    ctx.close("density:loss", np.ravel(loss.eval(fun, sample, *args)), ref, atol=1e-10)
    got, l_ref = loss.eval(fun, sample, *args, nargout=2)
    ctx.close("density:loss2", np.ravel(got), ref, atol=1e-10)
    ctx.close("density:loss-ref", np.mean(l_ref), norm ** 2)
    ctx.close("density:risk", loss.risk_estimation(fun, sample, *args), np.mean(ref), atol=1e-10)
    ctx.close("density:test", loss.test_error(fun, sample, *args), np.mean(ref), atol=1e-10)
    ctx.raises("density:relative", loss.relative_test_error, fun, sample)


@P.scenario(100)
def custom_loss(ctx):
    N, dx, d, x, y, W, b, c = data(ctx)
    d = max(d, 1)
    y = y.reshape(N, d)
    f2 = lambda z: np.asarray(z) @ W + b  # noqa: E731
    pred = f2(x)
    fun, kind = ctx.choice([(pred, "array"), (f2, "function"), (Pred(f2), "eval")])
    ctx.case(kind=kind)
    name, lf = ctx.choice([("abs", lambda t, p: np.sum(np.abs(t - p), 1)),
                           ("asymmetric", lambda t, p: np.sum((t - 2 * p) ** 2 + t, 1)),
                           ("square", lambda t, p: np.sum((t - p) ** 2, 1))])
    loss = tensap.CustomLossFunction(lf)
    sample = [x, y]
    ctx.close("custom:loss", loss.eval(fun, sample), lf(y, pred))
    got, ref = loss.eval(fun, sample, nargout=2)
    ctx.close("custom:loss2", got, lf(y, pred))
    ctx.close("custom:loss-ref", ref, lf(y, 0 * pred))
    ctx.close("custom:risk", loss.risk_estimation(fun, sample), np.mean(lf(y, pred)))
    r, rr = loss.risk_estimation(fun, sample, nargout=2)
    ctx.close("custom:risk2", r, np.mean(lf(y, pred)))
    ctx.close("custom:risk-ref", rr, np.mean(lf(y, 0 * pred)))
    ctx.close("custom:test", loss.test_error(fun, sample), np.mean(lf(y, pred)))
    ctx.raises("custom:relative-missing", loss.relative_test_error, fun, sample)
    loss.error_function = lambda f, s: ("error", f is fun, s is sample)
    loss.relative_error_function = lambda f, s: ("relative", f is fun, s is sample)
    ctx.equal("custom:error-function", loss.test_error(fun, sample) == ("error", True, True), True)
    ctx.equal("custom:relative-function",
              loss.relative_test_error(fun, sample) == ("relative", True, True), True)


def models(ctx):
    rng = ctx.rng
    n = ctx.choice([1, 2, 2, 3, 4, 5, 7, 9, 12])
    kind = ctx.choice(["random", "random", "monotone", "integer", "collinear", "decay", "ties", "equal"])
    comp = np.sort(rng.integers(1, 40, n)).astype(float if ctx.coin() else int)
    if kind == "random":
        risk = rng.random(n)
    elif kind == "monotone":
        risk = np.sort(rng.random(n))[::-1].copy()
    elif kind == "integer":
        risk = rng.integers(-4, 5, n).astype(float)
    elif kind == "collinear":
        risk = 64.0 - comp + (rng.random(n) < 0.3) * rng.integers(0, 3, n)
    elif kind == "decay":
        risk = 10.0 ** (-rng.random() * 0.3 * comp) + 1e-4
    elif kind == "ties":
        risk = rng.choice([0.0, 0.0, 1.0, 0.5, 2.0], n)
        comp = rng.choice(comp, n)
    else:
        comp = np.full(n, comp[0])
        risk = rng.random(n)
    perm = rng.permutation(n) if ctx.coin(0.6) else np.arange(n)
    comp, risk = comp[perm], risk[perm]
    ctx.case(models=n, kind=kind)
    if n < 2:
        ctx.trivial()
    s = tensap.ModelSelection()
    s.data["complexity"] = comp if ctx.coin() else comp.tolist()
    s.data["empirical_risk"] = risk if ctx.coin() else risk.tolist()
    pen = ctx.choice([None, None, lambda x: x / 7.0, lambda x: np.asarray(x, dtype=float) ** 1.5])
    if pen is not None:
        s.pen_shape = pen
    p = np.asarray(s.pen_shape(comp), dtype=float)
    return s, comp, risk, p, kind


def optimal(lam, risk, p, m, tol=1e-10):
    """Does model m minimise the penalised risk for lam?"""
    v = risk + lam * p
    return v[m] <= np.min(v) + tol * (np.max(np.abs(risk)) + lam * np.max(np.abs(p)))


def has_breakpoint(risk, p):
    """Is there a model with a smaller penalty than the best minimiser of the risk?"""
    best = np.lexsort((p, risk))[0]
    return bool(np.any(p < p[best]))


@P.scenario(420)
def selection(ctx):
    s, comp, risk, p, kind = models(ctx)
    n = comp.size
    lams = np.concatenate(([0.0], 10.0 ** ctx.rng.uniform(-4, 2, 5)))
    m = s.m_lambda(lams if ctx.coin() else lams.tolist())
    ctx.equal("m_lambda:shape", np.shape(m), (6,))
    for la, k in zip(lams, m):
        ctx.check("m_lambda", optimal(la, risk, p, int(k), 1e-14), "not a minimiser")
    one = s.m_lambda(float(lams[2]))
    ctx.check("m_lambda:scalar", np.size(one) == 1 and optimal(lams[2], risk, p, int(np.ravel(one)[0]), 1e-14))
    V = has_breakpoint(risk, p)
    path, m_path = s.lambda_path()
    if not V:
        ctx.op("empty-path")
        # the same model minimises the penalised risk for every lambda
        for k in np.ravel(m_path):
            for la in (1e-8, 1e-3, 1.0, 1e3):
                ctx.check("path:single", optimal(la, risk, p, int(k)), "not the minimiser")
    else:
        ctx.op("path")
        path, m_path = np.asarray(path, dtype=float), np.asarray(m_path)
        ctx.equal("path:lengths", path.shape, m_path.shape)
        ctx.check("path:increasing", np.all(np.diff(path) > 0) and path[0] > 0)
        ctx.check("path:simplest", np.all(np.diff(p[m_path[:-1]]) < 0),
                  "the penalties %s do not decrease" % p[m_path[:-1]])
        ctx.check("path:ends", p[m_path[-1]] == np.min(p), "the path does not reach the simplest model")
        ctx.close("path:first", path[0], path[1] / 2)
        ctx.close("path:last", path[-1], path[-2] * 2)
        for k in range(path.size):
            hi = path[k + 1] if k + 1 < path.size else path[k] * 10
            for t in (0.1, 0.5, 0.9):
                la = (1 - t) * path[k] + t * hi
                ctx.check("path:models", optimal(la, risk, p, int(m_path[k]), 1e-9),
                          "model %s of the path does not minimise the penalised risk for lambda=%g"
                          % (m_path[k], la))
    # slope heuristic: the largest complexity gap along the path, twice the penalty of the jump by default
    ctx.equal("slope:default-factor", float(tensap.ModelSelection().gap_factor), 2.0)
    s.gap_factor = ctx.choice([2, 2, 1.5, 4])
    given = ctx.coin(0.3) and V
    lam_hat, m_hat, lp, mp = s.slope_heuristic(path, m_path) if given else s.slope_heuristic()
    m_hat = int(np.ravel(m_hat)[0])
    ctx.check("slope:m_hat", 0 <= m_hat < n and optimal(float(lam_hat), risk, p, m_hat),
              "model %d does not minimise the penalised risk for lambda=%g" % (m_hat, lam_hat))
    if V and not np.all(comp == comp[0]):
        ctx.close("slope:path", lp, path)
        ctx.equal("slope:m_path", mp, m_path)
        mids = (path[:-1] + path[1:]) / 2
        c = comp[[int(np.lexsort((p, risk + la * p))[0]) for la in mids]]
        # (the value of the complexity between two breakpoints is unique up to exact ties)
        gaps = c[:-1] - c[1:]
        ok = [k for k in range(len(gaps)) if gaps[k] >= np.max(gaps) - 1e-9 * np.max(np.abs(comp))]
        cand = [s.gap_factor * path[k + 1] for k in ok]
        if kind not in ("ties", "collinear", "integer"):
            ctx.check("slope:lambda", any(abs(lam_hat - x) <= 1e-9 * x for x in cand),
                      "lambda %g, expected one of %s" % (lam_hat, cand))


@P.scenario(160)
def complexity(ctx):
    rng = ctx.rng
    C = tensap.ModelSelection.complexity
    kind = ctx.choice(["tbt", "tbt", "tbt", "functional", "basis", "list"])
    ctx.case(kind=kind)

    def sparse(t):
        for k, a in enumerate(t.tensors):
            if a.order and a.data.size:
                t.tensors[k] = tensap.FullTensor(a.data * (rng.random(a.data.shape) < 0.7))
        return t

    def expected(t, fun, ct):
        leaves = set(int(v) for v in t.tree.dim2ind)
        tot = 0
        for k, a in enumerate(t.tensors):
            z = np.asarray(a.data)
            if fun == "storage" or (fun == "sparse_leaves_storage" and k + 1 not in leaves):
                tot += z.size
            else:
                tot += int(np.sum(z != 0))
        r = np.asarray(t.ranks, dtype=float)
        return tot - {"standard": 0, "grassman": np.sum(r ** 2), "stiefel": np.sum(r * (r + 1) / 2)}[ct]

    def tbt():
        tb = gen.random_tbt(ctx, d=ctx.randint(2, 5))
        return sparse(tb.build())
    if kind == "basis":
        B = tensap.PolynomialFunctionalBasis(
            tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(ctx.randint(1, 5)))
        m = ctx.randint(1, 3)
        c = rng.standard_normal((B.cardinal(), m)) * (rng.random((B.cardinal(), m)) < 0.6)
        f = tensap.FunctionalBasisArray(c if m > 1 else c[:, 0], B, m)
        ctx.equal("basis:default", C(f), c.size)
        ctx.equal("basis:storage", C(f, "storage"), c.size)
        ctx.equal("basis:sparse", C(f, "sparse_storage"), np.count_nonzero(c))
        ctx.equal("basis:named", tensap.ModelSelection.complexity_functional_basis_array(f, "sparse_storage"),
                  np.count_nonzero(c))
        ctx.equal("basis:named-default", tensap.ModelSelection.complexity_functional_basis_array(f), c.size)
        return
    ts = [tbt() for _ in range(ctx.randint(1, 3) if kind == "list" else 1)]
    fun = ctx.choice(["storage", "sparse_storage", "sparse_leaves_storage"])
    ct = ctx.choice(["standard", "grassman", "stiefel"])
    ctx.case(fun=fun, c_type=ct)
    if kind == "functional":
        t = ts[0]
        H = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(
            tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(int(n))) for n in t.shape])
        x = tensap.FunctionalTensor(t, H)
    else:
        x = ts if kind == "list" else ts[0]
    ref = [expected(t, fun, ct) for t in ts]
    ref = ref if kind == "list" else ref[0]
    ctx.close("complexity", C(x, fun, ct), ref)
    ctx.close("complexity:keywords", C(x, fun=fun, c_type=ct), ref)
    ref0 = [expected(t, "storage", "standard") for t in ts]
    ctx.close("complexity:default", C(x), ref0 if kind == "list" else ref0[0])
    ctx.close("complexity:named", tensap.ModelSelection.complexity_tree_based_tensor(x, fun, ct), ref)
    ctx.raises("complexity:wrong-type", C, 3.0)
    ctx.raises("complexity:wrong-kind", C, x, "storage", "unknown")
