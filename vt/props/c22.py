import numpy as np
import scipy.sparse

import tensap
from tensap.approximation.tools.interpolation_points_feature_map import interpolation_points_feature_map
from vt.core import Prop, Skip
from vt.props.c14 import B1
from vt.props.c15 import Fac, scale

P = Prop("C22", "Magic points make interpolation well posed and greedy",
         "dense, sparse and list matrices of any shape and rank at least the number of indices (low-rank, "
         "decaying, badly scaled, with ties, permutation-like), both one-sided and two-sided options; one-dimensional, "
         "full and sparse tensor-product bases with candidate points. Reference: own residual of the cross "
         "interpolation at every greedy step (ties accepted). Non-trivial: at least two indices; distinct by case.")


def matrix(ctx):
    rng = ctx.rng
    m, n = ctx.randint(1, 9), ctx.randint(1, 9)
    kind = ctx.choice(["normal", "normal", "lowrank", "decay", "int", "diag", "function"])
    if kind == "lowrank":
        r = ctx.randint(1, min(m, n))
        F = rng.standard_normal((m, r)) @ rng.standard_normal((r, n))
    elif kind == "decay":
        F = rng.standard_normal((m, n)) * 0.5 ** np.arange(n)
    elif kind == "int":
        F = rng.integers(-3, 4, (m, n))
    elif kind == "diag":
        F = np.zeros((m, n))
        k = min(m, n)
        F[rng.permutation(m)[:k], rng.permutation(n)[:k]] = rng.standard_normal(k) + 2
    elif kind == "function":
        x, y = np.sort(rng.random(m)), np.sort(rng.random(n))
        F = 1 / (1.2 + x[:, None] + y[None, :])
    else:
        F = rng.standard_normal((m, n))
    F = F * 10.0 ** (ctx.randint(-3, 3) if ctx.coin(0.8) else ctx.randint(-10, 8)) if kind != "int" or ctx.coin() else F
    s = np.linalg.svd(F, compute_uv=False)
    return kind, F, int(np.sum(s > 1e-6 * s[0])) if s[0] > 0 else 0


def residual(F, I, J):
    if not I:
        return F
    return F - F[:, J] @ np.linalg.solve(F[np.ix_(I, J)], F[I, :])


def greedy(ctx, name, F, I, J, option):
    """The indices follow the greedy rule (any maximiser is accepted)."""
    I, J = [int(i) for i in I], [int(j) for j in J]
    ctx.equal(name + ":number", len(I), len(J))
    ctx.check(name + ":range", all(0 <= i < F.shape[0] for i in I) and all(0 <= j < F.shape[1] for j in J))
    ctx.check(name + ":distinct", len(set(I)) == len(I) and len(set(J)) == len(J))
    top = np.max(np.abs(F))
    for k in range(len(I)):
        R = np.abs(residual(F, I[:k], J[:k]))
        tol = 1e-7 * top
        if option == "left_right":
            ctx.check(name + ":greedy", R[I[k], J[k]] >= np.max(R) * (1 - 1e-6) - tol)
        elif option == "left":
            ctx.equal(name + ":imposed", J[k], k)
            ctx.check(name + ":greedy", R[I[k], k] >= np.max(R[:, k]) * (1 - 1e-6) - tol)
        else:
            ctx.equal(name + ":imposed", I[k], k)
            ctx.check(name + ":greedy", R[k, J[k]] >= np.max(R[k]) * (1 - 1e-6) - tol)
    return I, J


@P.scenario(400)
def matrices(ctx):
    kind, F, rank = matrix(ctx)
    option = ctx.choice(["left_right", "left_right", "left", "right"])
    if rank == 0:
        raise Skip("zero matrix")
    full = rank == min(F.shape)
    n = rank if ctx.coin() else ctx.randint(1, rank)
    if option != "left_right":
        # the imposed columns (rows) must be independent
        A = F[:, :n] if option == "left" else F[:n].T
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] <= 1e-6 * s[0]:
            raise Skip("dependent imposed columns")
    args = (n,)
    if full and ctx.coin(0.4) and option == "left_right":
        args, n = (), rank
    ctx.case(kind=kind, shape=F.shape, n=n, option=option, F=F)
    if n == 1:
        ctx.trivial()
    form = ctx.choice(["array", "array", "list", "sparse"])
    A = {"array": F.copy(), "list": F.tolist(), "sparse": scipy.sparse.csr_matrix(F)}[form]
    kw = {} if option == "left_right" and ctx.coin() else {"option": option}
    I, J = tensap.magic_indices(A, *args, **kw)
    ctx.equal("number", len(I), n)
    I, J = greedy(ctx, option, F, I, J, option)
    M = F[np.ix_(I, J)]
    s = np.linalg.svd(M, compute_uv=False)
    ctx.check("invertible", s[-1] > 1e-10 * np.max(np.abs(F)))
    R = residual(F, I, J)
    ctx.close("interpolates:rows", R[I], 0 * R[I], atol=1e-8 * np.max(np.abs(F)))
    ctx.close("interpolates:columns", R[:, J], 0 * R[:, J], atol=1e-6 * np.max(np.abs(F)))
    if n == rank and option == "left_right" and kind in ("lowrank", "int", "diag", "normal"):
        ctx.close("reproduces", R, 0 * R, atol=1e-5 * np.max(np.abs(F)))
    if option == "left":
        # coefficients of the interpolation are bounded by 2^n - 1
        C = F[:, J] @ np.linalg.inv(M)
        ctx.check("left:lebesgue", np.max(np.sum(np.abs(C), 1)) <= (2.0 ** n - 1) * (1 + 1e-6))
    if form == "array":
        ctx.equal("argument-unchanged", A, F)
    if n == rank == 1:
        ctx.check("first", abs(F[I[0], J[0]]) >= (1 - 1e-6) * np.max(np.abs(F)) or option != "left_right")
    K = tensap.magic_indices(F, n, option)
    ctx.equal("repeatable", [list(K[0]), list(K[1])], [I, J])


@P.scenario(40)
def bad_option(ctx):
    kind, F, rank = matrix(ctx)
    ctx.trivial()
    ctx.case(F=F)
    ctx.raises("bad-option", tensap.magic_indices, F, 1, ctx.choice(["both", "up", "", "Left"]))


@P.scenario(200)
def one_dimensional(ctx):
    b = B1(ctx, ("poly", "poly", "monomials", "bspline", "user", "sub"))
    n = int(b.basis.cardinal())
    cand = np.unique(b.pts(8 * n + 8))
    if len(cand) < n:
        raise Skip()
    cand = cand[ctx.rng.permutation(len(cand))]
    V = b.ref(cand, 0)
    s = np.linalg.svd(V, compute_uv=False)
    if s[-1] <= 1e-5 * s[0]:
        raise Skip("dependent on the candidates")
    given = ctx.choice(["two-sided", "two-sided", "J"])
    ctx.case(basis=b.desc, m=len(cand), given=given)
    if n == 1:
        ctx.trivial()
    arg = cand if ctx.coin() else cand[:, None]
    J = ctx.rng.permutation(n)
    pts, ind, out = b.basis.magic_points(arg, *((J,) if given == "J" else ()))
    ind = [int(i) for i in np.ravel(ind)]
    ctx.equal("magic_points:shape", np.shape(pts), (n, 1))
    ctx.equal("magic_points:points", np.ravel(pts), cand[ind])
    ctx.check("magic_points:distinct", len(set(ind)) == n)
    if b.tol <= 1e-7:
        if given == "J":
            greedy(ctx, "magic_points:J", V[:, J], ind, range(n), "left")
        else:
            check_rows(ctx, "magic_points", V, ind)
    L = V[ind]
    if np.linalg.cond(L) > 1e8:
        raise Skip()
    C = V @ np.linalg.inv(L)
    ctx.close("magic_points:lebesgue", out["lebesgue_constant"], np.max(np.sum(np.abs(C), 1)), rtol=1e-5)
    # interpolation at the magic points reproduces the space
    c = ctx.rng.standard_normal(n)
    f = b.basis.interpolate(L @ c, pts)
    ctx.close("reproduces", np.ravel(f.eval(cand)), V @ c, rtol=1e-5, scale=np.max(np.abs(V)) * np.sum(np.abs(c)))
    g = b.basis.interpolate(np.cos(cand[ind]), pts)
    ctx.close("interpolates", np.ravel(g.eval(cand[ind])), np.cos(cand[ind]), rtol=1e-5, scale=1)


def check_rows(ctx, name, V, ind):
    """Rows chosen by the two-sided rule: there is a greedy choice of columns (any of those that are tied)."""
    top = np.max(np.abs(V))
    budget = [200]

    def search(k, J):
        if k == len(ind) or budget[0] <= 0:
            return True
        budget[0] -= 1
        R = np.abs(residual(V, ind[:k], J))
        best = np.max(R)
        if not np.max(R[ind[k]]) >= best * (1 - 1e-6) - 1e-7 * top:
            return False
        row = R[ind[k]]
        tied = np.flatnonzero(row >= np.max(row) * (1 - 1e-6) - 1e-9 * top)
        return any(search(k + 1, J + [int(j)]) for j in tied if j not in J)

    ctx.check(name + ":greedy", search(0, []))


@P.scenario(60)
def automatic(ctx):
    """No candidates: points of the support of the measure."""
    b = B1(ctx, ("poly",))
    n = int(b.basis.cardinal())
    if b.fam.kind == "lebesgue":
        raise Skip("no law to sample")
    if b.fam.kind.startswith("discrete") and len(b.fam.x) < n:
        raise Skip()
    ctx.case(basis=b.desc)
    pts, ind, out = b.basis.magic_points()
    x = np.ravel(pts)
    ctx.equal("automatic:number", np.unique(x).size, n)
    ctx.equal("automatic:shape", np.shape(pts), (n, 1))
    if b.fam.kind.startswith("discrete"):
        ctx.check("automatic:atoms", np.all(np.isin(x, np.ravel(b.fam.x))))
    elif b.fam.kind == "uniform":
        lo, hi = np.ravel(b.measure.support())
        ctx.check("automatic:support", np.all((x >= lo) & (x <= hi)))
    L = b.ref(x, 0)
    ctx.check("automatic:invertible", np.linalg.matrix_rank(L) == n)


@P.scenario(120)
def tensor_products(ctx):
    how = ctx.choice(["sparse", "full", "families", "families-grid", "feature-map"])
    F = Fac(ctx, d=ctx.randint(1, 3), kinds=("poly", "poly", "user", "sub"), cap=3)
    ctx.case(how=how, bases=F.desc)
    if how.startswith("families"):
        cand = []
        for b in F.f:
            c = np.unique(b.pts(30))
            c = c[ctx.rng.permutation(len(c))]
            V = b.ref(c, 0)
            s = np.linalg.svd(V, compute_uv=False)
            if len(c) < V.shape[1] or s[-1] <= 1e-5 * s[0]:
                raise Skip()
            cand.append(c)
        if how == "families-grid":
            arg = tensap.FullTensorGrid([c[:, None] for c in cand])
        elif ctx.coin() and len(set(map(len, cand))) == 1:
            arg = np.stack(cand, axis=1)
        else:
            arg = [c[:, None] for c in cand]
        J = [ctx.rng.permutation(n) for n in F.n]
        one_sided = ctx.coin(0.4)
        pts, ind = F.bases.magic_points(arg, *((J,) if one_sided else ()))
        for k, b in enumerate(F.f):
            i = [int(v) for v in np.ravel(ind[k])]
            V = b.ref(cand[k], 0)
            ctx.equal("families:points", np.ravel(pts[k]), cand[k][i])
            ctx.check("families:distinct", len(set(i)) == F.n[k])
            if b.tol <= 1e-7:
                if one_sided:
                    greedy(ctx, "families:J", V[:, J[k]], i, range(F.n[k]), "left")
                else:
                    check_rows(ctx, "families", V, i)
        return
    idx = F.indices(ctx) if how != "full" else F.full_indices()
    H = tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(idx)) if how != "full" \
        else tensap.FullTensorProductFunctionalBasis(F.bases)
    cand = np.unique(F.points(8 * len(idx) + 5), axis=0)
    cand = cand[ctx.rng.permutation(len(cand))]
    V = F.prod(F.ref1(cand), idx)
    s = np.linalg.svd(V, compute_uv=False)
    if len(cand) < len(idx) or s[-1] <= 1e-5 * s[0]:
        raise Skip()
    if len(idx) == 1:
        ctx.trivial()
    if how == "feature-map":
        pts = interpolation_points_feature_map(H, cand)
        ctx.equal("feature-map:shape", np.shape(pts), (len(idx), F.d))
        ctx.check("feature-map:candidates", all(any(np.array_equal(p, c) for c in cand) for p in pts))
        L = F.prod(F.ref1(pts), idx)
        ctx.check("feature-map:invertible", np.linalg.matrix_rank(L) == len(idx))
        return
    pts, ind, out = H.magic_points(cand)
    ind = [int(i) for i in np.ravel(ind)]
    ctx.equal("product:points", pts, cand[ind])
    ctx.check("product:distinct", len(set(ind)) == len(idx))
    if F.tol < 1e-6:
        check_rows(ctx, "product", V, ind)
    L = V[ind]
    if np.linalg.cond(L) > 1e7:
        raise Skip()
    ctx.close("product:lebesgue", out["lebesgue_constant"], np.max(np.sum(np.abs(V @ np.linalg.inv(L)), 1)), rtol=1e-4)
    c = ctx.rng.standard_normal(len(idx))
    f = H.interpolate(L @ c, pts)
    ctx.close("product:reproduces", np.ravel(f.eval(cand)), V @ c, rtol=1e-5,
              scale=scale(F.ref1(cand)) * np.sum(np.abs(c)))
