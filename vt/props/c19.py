"""Linear models: least squares, cross-validation, regularisation, basis adaptation, L2 density."""
import itertools

import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip
from vt.props.c15 import build as build_basis

P = Prop("C19", "Linear least squares returns the minimiser and true error estimates",
         "designs of 2 to 20 samples and 1 to 6 basis functions (random, scaled, nearly collinear, orthonormal), given "
         "as evaluations or through a basis and points; scalar and vector-valued outputs, shared or separate "
         "coefficients, positive weights, both solvers, l0, l1, l2 regularisation, default and given adaptation "
         "paths, Gram matrices, leave-one-out and k-fold estimates, L2 density with and without offset. Reference: "
         "lstsq on the weighted design, refitting with each sample or fold left out, optimality conditions. "
         "Non-trivial: at least two basis functions or outputs.")


def design(ctx, nmin=None, cap=5, pmax=6):
    rng = ctx.rng
    p = ctx.randint(1, pmax)
    N = ctx.randint(p + 1 if nmin is None else nmin, p + 12)
    kind = ctx.choice(["random", "random", "scaled", "collinear", "orthonormal", "integers"])
    A = rng.standard_normal((N, p))
    if kind == "integers":
        A = rng.integers(1, 60, (N, p)) * rng.choice([-1, 1], (N, p))
    if kind == "scaled":
        A = A * 10.0 ** rng.integers(-2, 3, p)
        if ctx.coin():
            A = A * 1e-5
    elif kind == "collinear" and p > 1:
        A[:, -1] = A[:, 0] + 1e-2 * A[:, -1]
    elif kind == "orthonormal" and N >= p:
        A = np.linalg.qr(A)[0] * np.sqrt(N)
    ctx.case(N=N, P=p, design=kind)
    return N, p, A


def outputs(ctx, A, n, noise=None):
    rng = ctx.rng
    noise = ctx.choice([0.1, 1.0]) if noise is None else noise
    c = rng.standard_normal((A.shape[1], n)) / np.maximum(np.linalg.norm(A, axis=0), 1e-12)[:, None]
    y = A @ c * np.sqrt(A.shape[0])
    y = y + noise * rng.standard_normal(y.shape) + ctx.choice([0, 0, 1.0])
    if ctx.coin(0.1):
        y = np.rint(3 * y).astype(int)
        y[0] += np.ptp(y, axis=0) == 0
    return y


def lsq(A, y):
    d = np.linalg.norm(A, axis=0)
    d[d == 0] = 1
    return (np.linalg.lstsq(A / d, y, rcond=None)[0].T / d).T


def loo(A, y):
    """Residuals of each sample for the fit without it."""
    out = np.zeros(y.shape)
    for i in range(A.shape[0]):
        k = np.arange(A.shape[0]) != i
        out[i] = y[i] - A[i] @ lsq(A[k], y[k])
    return out


def leave_out(A, y, test):
    k = ~np.isin(np.arange(A.shape[0]), test)
    return y[test] - A[test] @ lsq(A[k], y[k])


def correction(A, gram=None):
    N, p = A.shape
    if N == p:
        return 1.0
    C = np.linalg.pinv(A.T @ A)
    return N / (N - p) * (1 + np.trace(C if gram is None else C @ gram))


def estimate(A, y, corr, gram=None):
    """Relative leave-one-out error of each output."""
    if A.shape[0] - 1 < A.shape[1]:
        return np.inf
    e = np.mean(loo(A, y) ** 2, 0) / np.mean(y ** 2, 0)
    return np.sqrt(e * (correction(A, gram) if corr else 1.0))


def good(A):
    d = np.linalg.norm(A, axis=0)
    if np.any(d == 0):
        return False
    s = np.linalg.svd(A / d, compute_uv=False)
    return s[-1] > 1e-3 * s[0]


def learner(ctx, **kw):
    s = tensap.LinearModelLearningSquareLoss(**kw)
    s.display = False
    return s


@P.scenario(200)
def ordinary(ctx):
    N, p, A = design(ctx)
    n = ctx.choice([0, 0, 1, 2, 3])
    y2 = outputs(ctx, A, max(n, 1))
    y = y2[:, 0] if n == 0 else y2
    w = ctx.rng.random(N) + 0.1 if ctx.coin(0.35) else None
    s = learner(ctx, weights=w)
    s.linear_solver = ctx.choice(["qr", "qr", "solve"])
    s.basis_eval = A.copy()
    s.training_data = [None, y.copy()]
    ctx.case(outputs=n, weighted=w is not None, solver=s.linear_solver)
    if p == 1 and n < 2:
        ctx.trivial()
    if ctx.coin(0.6):
        s.error_estimation = True
        s.error_estimation_type = ctx.choice(["leave_out", "leave_out", "residuals"])
        s.error_estimation_options = {"correction": ctx.coin()}
    Nt = ctx.randint(1, 6)
    At = ctx.rng.standard_normal((Nt, p))
    yt = ctx.rng.standard_normal((Nt, max(n, 1)))
    yt = yt[:, 0] if n == 0 else yt
    if ctx.coin(0.4):
        s.test_error = True
        s.basis_eval_test = At
        s.test_data = [None, yt]
    sol, out = s.solve()
    sw = np.ones(N) if w is None else np.sqrt(w)
    Aw, yw = sw[:, None] * A, (sw * y.T).T
    ref = lsq(Aw, yw)
    tol = 1e-7 if s.linear_solver == "solve" else 1e-8
    d = np.linalg.norm(A, axis=0)
    ctx.equal("ols:shape", np.shape(sol), np.shape(ref))
    ctx.close("ols:minimiser", (np.asarray(sol).T * d).T, (ref.T * d).T, rtol=tol, scale=np.max(np.abs(y)))
    if s.error_estimation and good(Aw):
        if s.error_estimation_type == "residuals":
            ctx.close("ols:residual-error", out["error"],
                      np.mean((yw - Aw @ ref) ** 2, 0) / np.mean(yw ** 2, 0), rtol=1e-6, atol=1e-12, shape=False)
        else:
            q, _ = np.linalg.qr(Aw / np.linalg.norm(Aw, axis=0))
            gap = 1e-11 / max(np.min(1 - np.sum(q * q, 1)), 1e-300)  # a residual is divided by one minus the leverage
            ctx.close("ols:leave-one-out-residuals", out["delta"], loo(Aw, yw), rtol=1e-6 + gap, shape=False,
                      scale=np.max(np.abs(yw)))
            ctx.close("ols:leave-one-out", out["error"],
                      estimate(Aw, yw, s.error_estimation_options["correction"]), rtol=1e-5 + gap, atol=1e-9,
                      shape=False)
    if s.test_error:
        pred = At @ ref
        e = np.sqrt(np.sum((pred - yt) ** 2, 0) / np.sum(yt ** 2, 0))
        ctx.close("ols:test-error", out["test_error"], e, rtol=1e-5, scale=max(1.0, np.max(np.abs(pred))), shape=False)
        ctx.equal("ols:test-error-shape", np.size(out["test_error"]), max(n, 1))


@P.scenario(60)
def shared(ctx):
    """One set of coefficients for all the outputs."""
    N, p, _ = design(ctx)
    D = ctx.randint(1, 3)
    A = ctx.rng.standard_normal((N, p, D))
    y = ctx.rng.standard_normal((N, D)) + np.einsum("ipd,p->id", A, ctx.rng.standard_normal(p))
    w = ctx.rng.random(N) + 0.1 if ctx.coin(0.3) else None
    s = learner(ctx, weights=w)
    s.basis_eval = A.copy()
    s.training_data = [None, y[:, 0].copy() if D == 1 and ctx.coin() else y.copy()]
    s.error_estimation = True
    s.error_estimation_options = {"correction": ctx.coin()}
    ctx.case(shared=D, weighted=w is not None)
    if p == 1 and D == 1:
        ctx.trivial()
    At = ctx.rng.standard_normal((4, p, D))
    yt = ctx.rng.standard_normal((4, D))
    if ctx.coin(0.5):
        s.test_error = True
        s.basis_eval_test = At
        s.test_data = [None, yt]
    sol, out = s.solve()
    sw = np.ones(N) if w is None else np.sqrt(w)
    A2 = np.concatenate([sw[:, None] * A[:, :, k] for k in range(D)])
    y2 = np.concatenate([sw * y[:, k] for k in range(D)])
    ref = lsq(A2, y2)
    ctx.close("shared:minimiser", sol, ref, shape=False, rtol=1e-7, scale=np.max(np.abs(y)))
    if good(A2):
        ctx.close("shared:leave-one-out", out["error"], estimate(A2, y2, s.error_estimation_options["correction"]),
                  rtol=1e-5, shape=False)
    if s.test_error:
        pred = np.einsum("ipd,p->id", At, ref)
        e = np.sqrt(np.sum((pred - yt) ** 2) / np.sum(yt ** 2))
        ctx.close("shared:test-error", out["test_error"], e, rtol=1e-5, scale=1.0, shape=False)


def partitions(items, sizes):
    """All the splits into unlabelled folds of the given sizes (equal sizes may repeat)."""
    if not sizes:
        yield []
        return
    for first in itertools.combinations(items, sizes[0]):
        rest = [i for i in items if i not in first]
        for r in partitions(rest, sizes[1:]):
            yield [list(first)] + r


@P.scenario(50)
def folds(ctx):
    """The k-fold residuals are those of some partition into folds, refitted without each fold."""
    p = ctx.randint(1, 2)
    N = ctx.randint(4, 7)
    k = ctx.randint(2, 3) if N < 7 else 2
    n = ctx.choice([0, 0, 2])
    A = ctx.rng.standard_normal((N, p))
    y = outputs(ctx, A, max(n, 1))
    y = y[:, 0] if n == 0 else y
    sizes = [N // k + (1 if i < N % k else 0) for i in range(k)]
    if N - max(sizes) < p or N * (1 - 1 / k) < p or not good(A):
        raise Skip()
    for t in itertools.combinations(range(N), max(sizes)):
        if not np.linalg.cond(np.delete(A, t, 0)) < 1e3:
            raise Skip()
    ctx.case(N=N, P=p, folds=k, outputs=n)
    if p == 1 and n < 2:
        ctx.trivial()
    s = learner(ctx)
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    s.linear_solver = ctx.choice(["qr", "solve"])
    s.error_estimation, s.error_estimation_type = True, "k_fold"
    corr = ctx.coin()
    s.error_estimation_options = {"correction": corr, "number_of_folds": k}
    sol, out = s.solve()
    ctx.close("k-fold:minimiser", sol, lsq(A, y), rtol=1e-7, scale=np.max(np.abs(y)))
    best, fold = np.inf, None
    for part in partitions(list(range(N)), sizes):
        d = np.zeros(y.shape)
        for t in part:
            d[t] = leave_out(A, y, t)
        e = np.max(np.abs(d - out["delta"])) / max(np.max(np.abs(d)), 1e-300)
        if e < best:
            best, fold, dd = e, part, d
    ctx.check("k-fold:residuals", best < 1e-6, "no partition into %d folds gives these residuals (%.1e)" % (k, best))
    c = correction(A) if corr else 1.0
    byfold = np.sqrt(np.mean([np.mean(dd[t] ** 2, 0) for t in fold], 0) / np.mean(y ** 2, 0) * c)
    pooled = np.sqrt(np.mean(dd ** 2, 0) / np.mean(y ** 2, 0) * c)
    e = np.asarray(out["error"], float)
    ctx.equal("k-fold:error-size", e.size, max(n, 1))
    ctx.check("k-fold:error", np.allclose(e, byfold, rtol=1e-5) or np.allclose(e, pooled, rtol=1e-5),
              "error %s, expected %s" % (e, byfold))
    # as many folds as samples is leaving one out
    s = learner(ctx)
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    s.error_estimation, s.error_estimation_type = True, "k_fold"
    s.error_estimation_options = {"correction": corr, "number_of_folds": N}
    _, out = s.solve()
    if N > p + 1:
        ctx.close("k-fold:all", out["error"], estimate(A, y, corr), rtol=1e-5, shape=False)
    # and so is the default, ten folds, for at most ten samples
    M = ctx.randint(N, 10)
    B = ctx.rng.standard_normal((M, p))
    z = outputs(ctx, B, 1)[:, 0]
    s = learner(ctx)
    s.basis_eval, s.training_data = B.copy(), [None, z.copy()]
    s.error_estimation, s.error_estimation_type = True, "k_fold"
    s.error_estimation_options = {"correction": corr}
    _, out = s.solve()
    if M > p + 1 and good(B):
        ctx.close("k-fold:default", out["error"], estimate(B, z, corr), rtol=1e-5, shape=False)


def check_path(ctx, what, s, A, y, sol, out, patterns, corr, gram=None):
    """`patterns`: admissible candidate supports; the solution is the refit on the one of lowest estimate."""
    est = []
    for pt in patterns:
        Ar = A[:, pt]
        est.append(float(estimate(Ar, y, corr, None if gram is None else gram[np.ix_(pt, pt)])))
    best = int(np.argmin(est))
    k = np.flatnonzero(np.all(np.asarray(out["pattern_path"]).T == np.array(patterns)[best], axis=1)) \
        if len(patterns) else []
    ctx.check(what + ":candidates", len(k) == 1, "best candidate missing from the path")
    ctx.equal(what + ":path-length", np.shape(out["pattern_path"])[1], len(patterns))
    for j in range(len(patterns)):
        m = [i for i, pt in enumerate(patterns) if np.array_equal(pt, out["pattern_path"][:, j])]
        ctx.check(what + ":path", len(m) == 1, "unknown candidate in the path")
        ctx.check(what + ":path-order", m == [j], "the candidates are not in the order of the given path")
        if np.isfinite(est[m[0]]):
            ctx.close(what + ":error-path", out["error_path"][j], est[m[0]], rtol=1e-5, atol=1e-9)
        else:
            ctx.check(what + ":error-path-inf", not np.isfinite(out["error_path"][j]))
    if not np.isfinite(est[best]):
        return
    ctx.close(what + ":error", out["error"], est[best], rtol=1e-5, atol=1e-9)
    # ties within rounding are accepted: the selected candidate must have the lowest error
    pt = np.asarray(out["pattern"], bool)
    m = [i for i, q in enumerate(patterns) if np.array_equal(q, pt)]
    ctx.check(what + ":selected", len(m) == 1 and est[m[0]] <= est[best] * (1 + 1e-6) + 1e-9,
              "selected candidate is not the best one")
    ref = np.zeros(A.shape[1])
    ref[pt] = lsq(A[:, pt], y)
    d = np.linalg.norm(A, axis=0)
    ctx.close(what + ":refit", np.ravel(sol) * d, ref * d, rtol=1e-6, scale=np.max(np.abs(y)))
    # what is reported about the selected candidate and about the others
    ctx.equal(what + ":index", [bool(v) for v in np.asarray(out["pattern_path"], bool)[:, int(out["ind"])]], [bool(v) for v in pt])
    ctx.equal(what + ":solution", np.ravel(out["optimal_solution"]), np.ravel(sol))
    ctx.equal(what + ":delta", np.ravel(out["delta"]), np.asarray(out["delta_path"])[:, int(out["ind"])])
    for j, q in enumerate(patterns):
        if np.isfinite(est[j]) and good(A[:, q]):
            ref = np.zeros(A.shape[1])
            ref[q] = lsq(A[:, q], y)
            ctx.close(what + ":refit-path", np.asarray(out["solution_path_OLS"])[:, j] * d, ref * d, rtol=1e-6,
                      scale=np.max(np.abs(y)))


def unique_patterns(pats, N):
    res = []
    for q in pats:
        q = np.asarray(q, bool)
        if q.any() and q.sum() <= N and not any(np.array_equal(q, r) for r in res):
            res.append(q)
    return res


@P.scenario(120)
def basis_adaptation(ctx):
    N, p, A = design(ctx, nmin=ctx.randint(3, 8))
    if not good(A) and N >= p:
        raise Skip()
    n = ctx.choice([0, 0, 0, 1, 2])
    y2 = outputs(ctx, A, max(n, 1))
    y = y2[:, 0] if n == 0 else y2
    s = learner(ctx)
    s.basis_adaptation = True
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    s.linear_solver = ctx.choice(["qr", "solve"])
    corr = ctx.coin()
    s.error_estimation_options = {"correction": corr}
    gram = None
    if corr and ctx.coin(0.3):
        g = ctx.rng.standard_normal((p, p))
        gram = g @ g.T + np.eye(p)
        s.error_estimation_options["gram_matrix"] = gram.copy()
    if ctx.coin():
        pats = np.triu(np.ones((p, p), bool)).T
    else:
        pats = ctx.rng.random((ctx.randint(1, 8), p)) < 0.5
        if not pats.any():
            pats[0, 0] = True
        s.basis_adaptation_path = (pats.T if ctx.coin() else pats.T * ctx.rng.standard_normal(pats.T.shape))
    patterns = unique_patterns(pats, N)
    ctx.case(outputs=n, patterns=len(patterns), gram=gram is not None)
    if not patterns or not all(good(A[:, q]) for q in patterns):
        raise Skip()
    if len(patterns) == 1:
        ctx.trivial()
    A, y2 = weigh(ctx, s, A, y2)
    sol, out = s.solve()
    if n < 2:
        check_path(ctx, "adaptation", s, A, y2[:, 0], sol, out, patterns, corr, gram)
    else:
        ctx.equal("adaptation:shape", np.shape(sol), (p, n))
        for k in range(n):
            check_path(ctx, "adaptation", s, A, y2[:, k], sol[:, k], out["outputs"][k], patterns, corr, gram)
            ctx.check("adaptation:errors", out["error"][k] == out["outputs"][k]["error"])


@P.scenario(60)
def early_stop_random(ctx):
    """The same rule on candidates in an arbitrary order: the errors behind the stop are infinite."""
    N, p, A = design(ctx, nmin=8, pmax=5)
    if not good(A) or p < 2:
        raise Skip()
    y = outputs(ctx, A, 1)[:, 0]
    pats = unique_patterns(ctx.rng.random((ctx.randint(4, 10), p)) < 0.5, N)
    s = learner(ctx)
    s.basis_adaptation, s.basis_adaptation_path = True, np.array(pats).T
    s.model_selection_options = {"stop_if_error_increase": True}
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    corr = ctx.coin()
    s.error_estimation_options = {"correction": corr}
    if len(pats) < 4:
        raise Skip()
    e = np.array([float(estimate(A[:, q], y, corr)) for q in pats])
    if not np.all(np.isfinite(e)) or np.any(np.abs(e[1:] - 2 * e[:-1]) < 1e-5 * e[1:]) or np.min(e) < 1e-8:
        raise Skip()
    stop = next((j for j in range(2, len(pats)) if e[j] > 2 * e[j - 1]), None)
    ctx.case(candidates=len(pats), stop=stop)
    if stop is None:
        ctx.trivial()
    sol, out = s.solve()
    last = len(pats) if stop is None else stop + 1
    ctx.close("stopped:error-path", out["error_path"][:last], e[:last], rtol=1e-5)
    ctx.check("stopped:not-examined", not np.any(np.isfinite(out["error_path"][last:])))
    o = np.sort(e[:last])
    if o[1] - o[0] > 1e-5 * o[0]:
        best = pats[int(np.argmin(e[:last]))]
        ctx.equal("stopped:selected", np.asarray(out["pattern"], bool), best)
        ref = np.zeros(p)
        ref[best] = lsq(A[:, best], y)
        d = np.linalg.norm(A, axis=0)
        ctx.close("stopped:refit", np.ravel(sol) * d, ref * d, rtol=1e-6, scale=np.max(np.abs(y)))


@P.scenario(40)
def early_stop(ctx):
    """With stop_if_error_increase the candidates after a sharp increase of the error are not selected."""
    rng = ctx.rng
    p, N = 5, 12
    A = np.linalg.qr(rng.standard_normal((N, p)))[0] * np.sqrt(N)
    order = rng.permutation(p)
    # errors along the path: good, good, good, very bad, excellent
    y = A @ np.ones(p) + 0.01 * rng.standard_normal(N)
    a = [[0, 1, 2, 3], [0, 1, 2, 4], [0, 1, 2], [4], [0, 1, 2, 3, 4]]
    pats = np.zeros((p, len(a)), bool)
    for j, q in enumerate(a):
        pats[order[q], j] = True
    s = learner(ctx)
    s.basis_adaptation, s.basis_adaptation_path = True, pats
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    s.error_estimation_options = {"correction": False}
    full, out_full = s.solve()
    ctx.equal("full-path", np.asarray(out_full["pattern"], bool), pats[:, 4])
    e = [float(estimate(A[:, pats[:, j]], y, False)) for j in range(5)]
    stop = next((j for j in range(2, 5) if e[j] > 2 * e[j - 1]), None)
    ctx.case(stop=stop, errors=e)
    s.basis_adaptation_path = pats
    s.model_selection_options = {"stop_if_error_increase": True}
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    sol, out = s.solve()
    last = 4 if stop is None else stop
    best = int(np.argmin(e[:last + 1]))
    ctx.equal("stopped-path", np.asarray(out["pattern"], bool), pats[:, best])


def weigh(ctx, s, A, y):
    """Optional weights of the samples: the weighted problem."""
    if not ctx.coin(0.35):
        return A, y
    w = ctx.rng.random(A.shape[0]) + 0.1
    s.weights = w
    ctx.case(weighted=True)
    return np.sqrt(w)[:, None] * A, (np.sqrt(w) * y.T).T


def fold_check(ctx, what, out, A, y, sol, corr):
    """Leave-one-out error of the refit on the support of a regularised solution. The residuals are those of the
    solution itself, corrected with the leverages."""
    ys, cs = (y[:, None], np.reshape(sol, (-1, 1))) if y.ndim == 1 else (y, sol)
    e = np.ravel(out["error"])
    ctx.equal(what + ":sizes", e.size, ys.shape[1])
    for k in range(ys.shape[1]):
        sup = cs[:, k] != 0
        sup = sup if sup.any() else np.ones(len(sup), bool)
        Ar = A[:, sup]
        if Ar.shape[0] - 1 < Ar.shape[1] or not good(Ar):
            continue
        T = np.sum(np.linalg.qr(Ar)[0] ** 2, 1)
        d = (ys[:, k] - A @ cs[:, k]) / (1 - T)
        ref = np.sqrt(np.mean(d ** 2) / np.mean(ys[:, k] ** 2) * (correction(Ar) if corr else 1.0))
        ctx.close(what + ":leave-one-out", e[k], ref, rtol=1e-5, atol=1e-9)


def regularised(ctx, kind, options, A, y):
    s = learner(ctx)
    s.regularization, s.regularization_type, s.regularization_options = True, kind, options
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    s.linear_solver = ctx.choice(["qr", "solve"])
    how = ctx.choice([None, "residuals", "leave_out", "leave_out"])
    s.error_estimation = how is not None
    s.error_estimation_type = how or "leave_out"
    corr = ctx.coin()
    s.error_estimation_options = {"correction": corr}
    ctx.case(kind=kind, error=how)
    return s, how, corr


@P.scenario(80)
def ridge(ctx):
    N, p, A = design(ctx)
    n = ctx.choice([0, 0, 1, 2])
    y2 = outputs(ctx, A, max(n, 1))
    y = y2[:, 0] if n == 0 else y2
    alpha = 10.0 ** ctx.randint(-2, 2)
    s, how, corr = regularised(ctx, "l2", {"alpha": alpha}, A, y)
    s.model_selection = ctx.coin()
    ctx.case(alpha=alpha, outputs=n)
    A, y = weigh(ctx, s, A, y)
    y = y[:, 0] if n == 1 else y
    sol, out = s.solve()
    ref = np.linalg.solve(A.T @ A + alpha * np.eye(p), A.T @ y)
    ctx.close("ridge", sol, ref, rtol=1e-6, scale=np.max(np.abs(ref)), shape=n != 1)
    if how == "residuals":
        ctx.close("ridge:residuals", out["error"], np.mean((y - A @ ref) ** 2, 0) / np.mean(y ** 2, 0),
                  rtol=1e-5, shape=False)
    elif how:
        fold_check(ctx, "ridge", out, A, y, np.reshape(sol, ref.shape), corr)
    else:
        ctx.check("ridge:no-error", "error" not in out, "errors reported without being asked for")


@P.scenario(80)
def lasso(ctx):
    N, p, A = design(ctx)
    d = np.linalg.norm(A, axis=0)
    if np.linalg.cond(A / d) > 30:  # LassoLars itself is not accurate on nearly collinear designs
        raise Skip()
    n = ctx.choice([0, 0, 1, 2])
    y = outputs(ctx, A, max(n, 1))
    y = y[:, 0] if n == 0 else y
    alpha = ctx.choice([0, 1e-3, 0.05, 0.3])
    s, how, corr = regularised(ctx, "l1", {"alpha": alpha}, A, y)
    s.model_selection = False
    ctx.case(alpha=alpha, outputs=n)
    A, y = weigh(ctx, s, A, y)
    y = y[:, 0] if n == 1 else y
    sol, out = s.solve()
    sol = np.reshape(sol, (p,) + y.shape[1:])
    if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > 60:
        raise Skip()
    from sklearn.linear_model import LassoLars
    for k in range(max(n, 1)):
        c, v = (sol, y) if y.ndim == 1 else (sol[:, k], y[:, k])
        sc = np.linalg.norm(A, axis=0) * np.linalg.norm(v) / N

        def defects(c):
            g, act = A.T @ (v - A @ c) / N, np.abs(c) > 0
            return (np.all(np.abs(g - alpha * np.sign(c))[act] <= 1e-6 * sc[act] + 1e-9),
                    np.all(np.abs(g[~act]) <= alpha + 1e-6 * sc[~act] + 1e-9))

        ok = defects(c)
        if not all(ok) and not all(defects(LassoLars(alpha=alpha, fit_intercept=False).fit(A, v).coef_)):
            raise Skip()  # the path algorithm of scikit-learn lost the solution on this problem
        ctx.check("lasso:optimality-active", ok[0], str(c))
        ctx.check("lasso:optimality-inactive", ok[1], str(c))
    if how == "residuals":
        ctx.close("lasso:residuals", out["error"], np.mean((y - A @ sol) ** 2, 0) / np.mean(y ** 2, 0),
                  rtol=1e-5, shape=False)
    elif how:
        fold_check(ctx, "lasso", out, A, y, sol, corr)


def omp_path(A, y):
    D = np.linalg.norm(A, axis=0)
    B = A / D
    S, r, pats, margin = [], y, [], np.inf
    for _ in range(min(A.shape)):
        c = np.abs(B.T @ r)
        c[S] = -1
        j = int(np.argmax(c))
        o = np.sort(c)[::-1]
        if len(c) > 1 and o[1] >= 0:
            margin = min(margin, (o[0] - o[1]) / max(o[0], 1e-300))
        S.append(j)
        r = y - A[:, S] @ lsq(A[:, S], y)
        pats.append(np.isin(np.arange(A.shape[1]), S))
    return pats, margin


@P.scenario(80)
def regularised_selection(ctx):
    """l0 and l1 paths: least squares on the candidate supports, best leave-one-out error."""
    N, p, A = design(ctx)
    if not good(A):
        raise Skip()
    y = outputs(ctx, A, 1, noise=ctx.choice([0.3, 1.0]))[:, 0]
    s = learner(ctx)
    kind = ctx.choice(["l0", "l1"])
    s.regularization, s.regularization_type = True, kind
    s.regularization_options = {"alpha": 0} if ctx.coin() else {"alpha": ctx.choice([0, 1e-4, 1e-2])}
    s.basis_eval, s.training_data = A.copy(), [None, y.copy()]
    corr = ctx.coin()
    s.error_estimation_options = {"correction": corr}
    s.error_estimation = ctx.coin()
    if kind == "l0":
        pats, margin = omp_path(A, y)
        if margin < 1e-6:
            raise Skip()
    else:
        from sklearn.linear_model import LassoLars
        reg = LassoLars(fit_intercept=False, **s.regularization_options)
        reg.fit(A, y)
        pats = (reg.coef_path_ != 0).T
    blocks = None
    if ctx.coin(0.25) and p > 2:
        k = ctx.randint(1, p - 1)
        blocks = [np.arange(k), np.arange(k, p)]
        s.options = {"non_zero_blocks": blocks}
        pats = [q for q in pats if all(q[b].any() for b in blocks)]
    ctx.case(kind=kind, blocks=blocks is not None)
    patterns = unique_patterns(pats, N)
    if not patterns or p == 1:
        raise Skip()
    sol, out = s.solve()
    check_path(ctx, kind, s, A, y, sol, out, patterns, corr)


@P.scenario(40)
def through_basis(ctx):
    """Basis and points instead of evaluations; the result is a function; solving again with other data."""
    F, kind, ind, H = build_basis(ctx, cap=3)
    K = len(ind)
    s = learner(ctx)
    s.basis = H
    n = ctx.choice([1, 1, 2])
    for rep in range(2):
        N = K + ctx.randint(3, 12)
        x = F.points(N)
        B = F.prod(F.ref1(x), ind)
        if not good(B):
            raise Skip()
        y = ctx.rng.standard_normal((N, n))
        y = y[:, 0] if n == 1 and ctx.coin() else y
        xt = F.points(5)
        yt = ctx.rng.standard_normal((5, n))
        s.training_data = [x, y]
        s.test_error, s.test_data = True, [xt, yt if np.ndim(y) == 2 else yt[:, 0]]
        f, out = s.solve()
        ref = lsq(B, y).reshape(K, n)
        Bt = F.prod(F.ref1(xt), ind)
        sc = max(np.max(np.abs(Bt @ ref)), 1e-3)
        ctx.check("function:type", isinstance(f, tensap.FunctionalBasisArray))
        ctx.close("function:values", f.eval(xt), Bt @ ref, rtol=1e-6, scale=sc, shape=False)
        e = np.sqrt(np.sum((Bt @ ref - yt) ** 2, 0) / np.sum(yt ** 2, 0))
        ctx.close("function:test-error", out["test_error"], e, rtol=1e-5, scale=max(1, sc), shape=False)
    ctx.case(bases=F.desc, K=K, outputs=n)
    if K == 1:
        ctx.trivial()


@P.scenario(50)
def unchanged(ctx):
    """Solving changes neither the data nor the options, and gives the same result again."""
    N, p, A = design(ctx)
    if not good(A):
        raise Skip()
    n = ctx.choice([0, 1, 2])
    mode = ctx.choice(["ols", "adapt", "l1", "l0", "l2", "shared"])
    y2 = outputs(ctx, A, max(n, 1))
    y = y2[:, 0] if n == 0 else y2
    s = learner(ctx, weights=ctx.rng.random(N) + 0.2 if ctx.coin(0.3) else None)
    if mode == "shared":
        A = np.stack([A] * max(n, 1), 2)
    s.basis_adaptation = mode == "adapt"
    if mode in ("l0", "l1", "l2"):
        s.regularization, s.regularization_type = True, mode
        s.regularization_options = {"alpha": 0.1}
    s.error_estimation = True
    s.error_estimation_type = ctx.choice(["leave_out", "k_fold"])
    s.error_estimation_options = {"correction": True}
    if s.error_estimation_type == "k_fold":
        s.error_estimation_options["number_of_folds"] = N * (max(n, 1) if mode == "shared" else 1)
    elif mode == "adapt":
        s.error_estimation_options["gram_matrix"] = np.eye(p)
    ctx.case(mode=mode, outputs=n, error=s.error_estimation_type)
    A0, y0 = A.copy(), y.copy()
    data = [None, y0]
    s.basis_eval, s.training_data = A0, data
    keys = ["basis_eval", "training_data", "linear_solver", "error_estimation_type", "error_estimation_options",
            "regularization_options", "basis_adaptation_path", "options", "weights", "test_error"]
    before = {k: gen.freeze(getattr(s, k)) for k in keys}
    sol, out = s.solve()
    for k in keys:
        ctx.check("state:" + k, gen.freeze(getattr(s, k)) == before[k], "%s was modified by solve" % k)
    ctx.equal("argument:basis_eval", A0, A)
    ctx.equal("argument:y", y0, y)
    ctx.check("argument:list", data[0] is None and data[1] is y0, "the list of training data was modified")
    sol2, out2 = s.solve()
    ctx.close("again", sol2, sol)
    ctx.close("again:error", out2["error"], out["error"], rtol=1e-7)


# ---------------------------------------------------------------- L2 density
def loo_risk(A, b, sup):
    """Leave-one-out estimate of ||f||^2 - 2 E f(X) + 2 <f, b> over the support."""
    N = A.shape[0]
    A, b = A[:, sup], b[sup]
    out = 0.0
    for i in range(N):
        c = np.mean(A[np.arange(N) != i], 0) - b
        out += c @ c - 2 * A[i] @ c + 2 * c @ b
    return out / N


def density_data(ctx):
    N, p = ctx.randint(2, 12), ctx.randint(1, 6)
    A = ctx.rng.standard_normal((N, p)) + ctx.rng.standard_normal(p) * 2
    b = ctx.rng.standard_normal(p) if ctx.coin(0.4) else None
    s = tensap.LinearModelLearningDensityL2()
    s.display = False
    s.basis_eval = A.copy()[:, :, None] if ctx.coin(0.2) else A.copy()
    s.training_data = [None] if b is None else [None, b.copy()]
    if b is None and ctx.coin():
        s.training_data = [None, []]
    ctx.case(N=N, P=p, offset=b is not None)
    if p == 1:
        ctx.trivial()
    return N, p, A, b, s, np.zeros(p) if b is None else b


@P.scenario(80)
def density(ctx):
    N, p, A, b, s, b0 = density_data(ctx)
    s.error_estimation = True
    if ctx.coin(0.3):
        s.test_error = True
        s.loss_function.error_type = "risk"
        s.basis_eval_test = ctx.rng.standard_normal((5, p))
        s.test_data = [None]
    sol, out = s.solve()
    ref = np.mean(A, 0) - b0
    sc = np.max(np.abs(A)) ** 2 * p + b0 @ b0
    ctx.close("density:minimiser", sol, ref, scale=np.max(np.abs(A)))
    ctx.close("density:leave-one-out", out["error"], loo_risk(A, b0, np.arange(p)), scale=sc)
    ctx.check("density:loss", isinstance(s.loss_function, tensap.DensityL2LossFunction))
    if s.test_error:
        ctx.close("density:test-error", out["test_error"],
                  ref @ ref - 2 * np.mean(s.basis_eval_test @ ref), scale=sc)


@P.scenario(80)
def density_selection(ctx):
    """Adaptation paths and thresholding: best leave-one-out risk among the candidates."""
    N, p, A, b, s, b0 = density_data(ctx)
    ref = np.mean(A, 0) - b0
    sc = np.max(np.abs(A)) ** 2 * p + b0 @ b0
    order = np.argsort(-np.abs(ref))
    mode = ctx.choice(["adapt", "adapt-path", "threshold", "threshold-included"])
    ctx.case(mode=mode)
    if mode.startswith("adapt"):
        s.basis_adaptation = True
        if mode == "adapt":
            pats = list(np.tril(np.ones((p, p), bool)))
        else:
            pats = list(ctx.rng.random((ctx.randint(1, 6), p)) < 0.5)
            pats[0][0] = True
            s.basis_adaptation_path = np.array(pats).T
        pats = unique_patterns(pats, N)
    else:
        s.regularization = True
        incl = np.array([], int)
        if mode == "threshold-included":
            incl = ctx.rng.permutation(p)[:ctx.randint(1, p)]
            s.regularization_options = {"included_coefficients": incl if ctx.coin() else [int(i) for i in incl]}
        rest = [i for i in order if i not in incl]
        pats = [np.isin(np.arange(p), list(incl) + rest[:k]) for k in range(0 if len(incl) else 1, len(rest) + 1)]
    if not pats:
        raise Skip()
    est = [loo_risk(A, b0, q) for q in pats]
    s.error_estimation = ctx.coin()
    if mode.startswith("adapt") and ctx.coin():
        s.model_selection_options = {"stop_if_error_increase": True}
        for k in range(2, len(est)):
            gap = est[k] - est[k - 1] - abs(est[k - 1])
            if abs(gap) < 1e-8 * sc:
                raise Skip()
            if gap > 0:
                pats, est = pats[:k + 1], est[:k + 1]
                ctx.case(stopped=k)
                break
    sol, out = s.solve()
    if mode == "threshold-included" and len(pats) == 1:
        ctx.close("density:all-included", sol, ref, scale=np.max(np.abs(A)))
        return
    ctx.close("density:error", out["error"], min(est), scale=sc)
    path, cols = np.ravel(out["error_path"]), np.asarray(out["pattern_path"], bool).T
    kept = np.isfinite(path)
    ctx.close("density:error-path", np.sort(path[kept]), np.sort(est), scale=sc)
    ctx.equal("density:index", float(out["error"]), float(path[out["ind"]]))
    for j in np.nonzero(kept)[0]:
        q = cols[j]
        ctx.close("density:path-errors", path[j], loo_risk(A, b0, q), scale=sc)
        ctx.close("density:path-solutions", np.asarray(out["solution_path"])[:, j], np.where(q, ref, 0),
                  scale=np.max(np.abs(A)))
    ctx.equal("density:pattern", np.asarray(out["pattern"], bool), cols[out["ind"]])
    ctx.equal("density:optimal", out["optimal_solution"], sol)
    k = [j for j, q in enumerate(pats) if np.array_equal(q & (ref != 0), np.asarray(sol) != 0)]
    ctx.check("density:selected", len(k) == 1 and est[k[0]] <= min(est) + 1e-9 * sc, "not the best candidate")
    ctx.close("density:solution", sol, np.where(pats[k[0]], ref, 0), scale=np.max(np.abs(A)))


@P.scenario(30)
def density_function(ctx):
    """With an orthonormal basis the result is a function and the data are points."""
    deg = ctx.randint(1, 5)
    X = ctx.choice([tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable()])
    H = tensap.PolynomialFunctionalBasis(X.orthonormal_polynomials(), range(deg + 1))
    s = tensap.LinearModelLearningDensityL2()
    s.basis = H
    ctx.case(deg=deg, X=type(X).__name__)
    for _ in range(2):
        x = ctx.rng.random((ctx.randint(3, 9), 1)) * 2 - 1
        xt = ctx.rng.random((4, 1)) * 2 - 1
        s.training_data = x if ctx.coin() else [x]
        f, out = s.solve()
        ref = np.mean(np.asarray(H.eval(x)), 0)
        ctx.close("density:function", np.ravel(f.eval(xt)), np.asarray(H.eval(xt)) @ ref, scale=10.0 ** deg)
