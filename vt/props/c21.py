"""Principal component analysis of tensors and functions given by point evaluations."""
import contextlib
import io

import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip
from vt.props.c08 import dense
from vt.tbtmon import check_rep

P = Prop("C21", "Principal component analysis interpolates and finds the sampled subspaces",
         "tensors of order 2 to 5 of low or full rank, with noise, and functions of tensor-product spaces, given by "
         "evaluations; random trees, active nodes and numberings, Tucker, tensor train, HOPCA; prescribed precisions "
         "and ranks, scalar or one per node, sampling factors, adaptive sampling, both subsamplings. The evaluation "
         "function records every call. Reference: dense singular value decompositions of the recorded "
         "evaluations. Non-trivial: at least one truncated dimension.")


class Entries:
    """Evaluation of a tensor at indices, recording the calls."""

    def __init__(self, ctx, T, form):
        self.ctx, self.T, self.form, self.calls = ctx, T, form, []

    def __call__(self, i):
        i = np.asarray(i)
        self.ctx.check("evaluations:shape", i.ndim == 2 and i.shape[1] == self.T.ndim, "indices of shape %s" % (i.shape,))
        ok = np.all(i == np.round(i)) and np.all(i >= 0) and np.all(i < np.array(self.T.shape))
        self.ctx.check("evaluations:range", ok, "indices %s" % i[:5])
        i = i.astype(int)
        self.calls.append(i)
        return self.T[tuple(i.T)]

    def rows(self):
        return np.concatenate(self.calls)


class Case:
    def __init__(self, ctx, dmin=2, dmax=4, smax=5, tm=None):
        rng = ctx.rng
        self.ctx = ctx
        self.d = d = tm.d if tm else ctx.randint(dmin, dmax)
        self.shape = [ctx.randint(2 if ctx.coin(0.9) else 1, smax) for _ in range(d)]
        self.rank = ctx.randint(1, 3)
        self.kind = ctx.choice(["canonical", "canonical", "network", "full"])
        if self.kind == "canonical":
            T = np.zeros(self.shape)
            for _ in range(self.rank):
                t = np.ones(())
                for n in self.shape:
                    t = np.multiply.outer(t, rng.standard_normal(n))
                T = T + t
        elif self.kind == "network":
            T = gen.random_tbt(ctx, tm=gen.random_tree_model(ctx, d), shape=self.shape, rmax=3).dense.reshape(self.shape)
        else:
            T = rng.standard_normal(self.shape)
        T = T / max(np.linalg.norm(T), 1e-300) * 10.0 ** (ctx.randint(-2, 2) if ctx.coin(0.8) else ctx.randint(-10, 8))
        self.noise = ctx.choice([0, 0, 1e-4, 1e-2])
        self.T = T + self.noise * np.linalg.norm(T) / np.sqrt(T.size) * rng.standard_normal(T.shape)
        self.fun = Entries(ctx, self.T, None)
        self.factor = ctx.choice([1, 1, 2, 3, 10, 1.5])
        self.adaptive = ctx.coin(0.3)
        self.sub = ctx.choice(["eim", "eim", "eim", "random"])
        ctx.case(shape=self.shape, kind=self.kind, rank=self.rank, noise=self.noise, factor=self.factor,
                 adaptive=self.adaptive, subsampling=self.sub)
        if max(self.shape) < 2:
            ctx.trivial()

    def solver(self, s):
        s.display = self.ctx.coin(0.2)
        s.pca_sampling_factor = self.factor
        s.pca_adaptive_sampling = self.adaptive
        if hasattr(s, "subsampling"):
            s.subsampling = self.sub
        return s

    def options(self, s, n, scale=1.0):
        """Precisions or ranks, one for all or n of them; effective values, in the same order."""
        ctx = self.ctx
        self.many = n is not None and ctx.coin(0.4)
        if ctx.coin(0.6):
            tols = [ctx.choice([1e-12, 1e-10, 1e-6, 1e-3, 0.1, 0.5]) for _ in range(n or 1)]
            if self.many:
                s.tol = ctx.choice([list, np.array])(tols)
                eff = tols
            else:
                s.tol = ctx.choice([float, lambda x: [x], lambda x: np.array([x])])(tols[0])
                eff = tols[0] * scale
            self.mode = "precision"
        else:
            s.tol = np.inf
            ranks = [ctx.randint(1, 4) for _ in range(n or 1)]
            if self.many:
                s.max_rank = ctx.choice([list, np.array])(ranks)
                eff = ranks
            else:
                s.max_rank = ctx.choice([int, lambda x: [x]])(ranks[0])
                eff = ranks[0]
            self.mode = "rank"
        ctx.case(mode=self.mode, values=eff)
        return eff


def freeze(s):
    return {k: gen.freeze(v) for k, v in vars(s).items()}


def run(ctx, s, method, *args, generic=False):
    before = freeze(s)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = getattr(s, method)(*args)
    except np.linalg.LinAlgError:
        if s.subsampling != "random" or generic:
            raise
        raise Skip("singular random subsampling")
    after = freeze(s)
    for k in before:
        ctx.check("solver:kept", before[k] == after[k], "%s changed %s" % (method, k))
    return out


def judge_components(ctx, pc, A, value, factor, adaptive, what):
    """pc: principal components of the columns of A for a precision (<1) or a rank."""
    n, N = A.shape
    sv = np.linalg.svd(A, compute_uv=False)
    nrm = np.sqrt(np.sum(sv ** 2))
    r = pc.shape[1]
    ctx.equal("components:rows", pc.shape[0], n)
    ctx.close("components:orthonormal", pc.T @ pc, np.eye(r), rtol=1e-9)
    err = np.linalg.norm(A - pc @ (pc.T @ A))
    best = np.sqrt(np.sum(sv[r:] ** 2))
    ctx.check("components:optimal", err <= best + 1e-9 * nrm, "%s: error %.3g, best %.3g" % (what, err, best))
    if value < 1:
        ctx.check("components:precision", err <= value * nrm * (1 + 1e-6) + 1e-11 * nrm,
                  "%s: relative error %.3g, tolerance %.3g" % (what, err / max(nrm, 1e-300), value))
        if r > 1:
            ctx.check("components:minimal", np.sqrt(np.sum(sv[r - 1:] ** 2)) >= value * nrm * (1 - 1e-6) - 1e-13 * nrm,
                      "%s: rank %d for tolerance %.3g, singular values %s" % (what, r, value, sv))
        if not adaptive:
            ctx.equal("sampling:number", N, int(np.ceil(factor * n)))
        else:
            ctx.check("sampling:number", 1 <= N <= np.ceil(factor * n), "%d samples for size %d" % (N, n))
            judge_adaptive(ctx, A, value, factor, int(np.ceil(factor * n)), what)
    else:
        ctx.check("components:rank", r <= min(value, n) and (r == min(value, n, N) or sv[r] <= 1e-12 * sv[0]),
                  "%s: rank %d, asked %s; singular values %s" % (what, r, value, sv))
        ctx.equal("sampling:number", N, int(np.ceil(factor * value)))
    return sv


def judge_adaptive(ctx, A, tol, factor, most, what):
    """Samples are added until there are fewer components than samples over the sampling factor, or one vanishes."""
    for K in range(1, A.shape[1] + 1):
        sv = np.linalg.svd(A[:, :K], compute_uv=False)
        t = np.sqrt(np.cumsum(sv[::-1] ** 2)[::-1]) / max(np.linalg.norm(sv), 1e-300)
        if np.any((t > tol / 2 + 1e-17) & (t < tol * 2)) or np.any(t[t < 1e-12] > 1e-16) or sv[0] < 1e-12 or (
                1e-17 < sv[-1] < 1e-13):
            return ctx.op("ambiguous")
        r = max(int(np.sum(t > tol)), 1)
        if r < np.ceil(K / factor):
            return ctx.check("sampling:adaptive", A.shape[1] == K, "%s: %d samples where %d are enough, %s" % (
                what, A.shape[1], K, sv))
    ctx.op("complete")
    ctx.check("sampling:adaptive", A.shape[1] == most, "%s: only %d of %d samples" % (what, A.shape[1], most))


def columns(ctx, T, samples, alpha, rows, what):
    """Values at the samples, one column for each sampled complementary index."""
    ctx.equal("samples:dimension", samples.shape[1], T.ndim)
    S = np.asarray(samples).astype(int)
    n = len(rows)
    ctx.check("samples:number", S.shape[0] % n == 0 and S.shape[0] > 0, "%d samples, %d rows" % (S.shape[0], n))
    S = S.reshape(-1, n, T.ndim)
    rest = np.setdiff1d(np.arange(T.ndim), alpha)
    for b in S:
        ctx.check("samples:product", np.array_equal(b[:, alpha], rows) and (b[:, rest] == b[0, rest]).all(),
                  "%s: samples are not a product grid" % what)
    return np.stack([T[tuple(b.T)] for b in S], 1)


@P.scenario(80)
def hopca(ctx):
    c = Case(ctx)
    s = c.solver(tensap.TensorPrincipalComponentAnalysis())
    value = c.options(s, c.d)
    pcs, outs = run(ctx, s, "hopca", c.fun, list(c.shape) if ctx.coin() else np.array(c.shape))
    ctx.equal("hopca:number", (len(pcs), len(outs)), (c.d, c.d))
    total = 0
    for a in range(c.d):
        v = value[a] if c.many else value
        S = np.asarray(outs[a]["samples"])
        A = columns(ctx, c.T, S, [a], np.arange(c.shape[a]).reshape(-1, 1), "dimension %d" % a)
        sv = judge_components(ctx, pcs[a], A, v, c.factor, c.adaptive, "dimension %d" % a)
        ctx.equal("evaluations:node", outs[a]["number_of_evaluations"], S.shape[0])
        total += S.shape[0]
        ref = np.diag(np.asarray(outs[a]["singular_values"]))
        ctx.close("components:singular-values", ref, sv[:len(ref)], rtol=1e-9, scale=sv[0])
        full = gen.unfold(c.T, [a])
        tsv = np.linalg.svd(full, compute_uv=False)
        rk = np.sum(tsv > 1e-9 * tsv[0])
        if v <= 1e-10 and np.sum(sv > 1e-6 * sv[0]) == rk:
            res = np.linalg.norm(full - pcs[a] @ (pcs[a].T @ full))
            ctx.check("exact:subspace", res <= 1e-6 * np.linalg.norm(full) * tsv[0] / tsv[rk - 1],
                      "the range of the unfolding is not spanned: %.3g" % res)
    ctx.equal("evaluations:recorded", c.fun.rows().shape[0], total)
    ctx.equal("samples:recorded", np.concatenate([np.asarray(o["samples"]).astype(int) for o in outs]), c.fun.rows())


def judge_tree(ctx, c, f, out, tm, active, values, fun=None):
    """Everything a tree-based approximation by interpolation at sampled components must satisfy."""
    T = c.T
    check_rep(ctx, f, "f")
    ctx.equal("tree:adjacency", np.asarray(f.tree.adjacency_matrix), tm.adjacency())
    ctx.equal("tree:dim2ind", np.asarray(f.tree.dim2ind), tm.dim2ind())
    ctx.equal("tree:active", [bool(b) for b in f.is_active_node], [active[n + 1] for n in range(tm.nb)])
    ctx.equal("tree:shape", [int(n) for n in f.shape], c.shape)
    ctx.equal("tree:root-rank", int(f.ranks[tm.root - 1]), 1)
    D = dense(f)
    rows = c.fun.rows()
    ctx.equal("evaluations:total", int(out["number_of_evaluations"]), rows.shape[0])
    basis = {}           # values of the functions of a node on the whole grid of its dimensions
    grids, nested = {}, {}
    full_ranks = True
    cond = 1.0
    for n in sorted(tm.children, key=lambda n: -tm.level(n)):
        if n == tm.root:
            continue
        ch = tm.children[n]
        g = np.asarray(out["alpha_grids"][n - 1]).astype(int)
        b = np.asarray(out["alpha_basis"][n - 1])
        dims = tm.dims(n) if not ch else [k for c_ in ch for k in grids[c_][1]]
        if not ch:
            cand = np.arange(c.shape[dims[0]]).reshape(-1, 1)
            B = np.eye(len(cand))
        else:
            cand = product([grids[k][0] for k in ch])
            B = nested[ch[0]]
            for k in ch[1:]:
                B = np.kron(nested[k], B)
        if active[n]:
            C = np.asarray(f.tensors[n - 1].data)
            C = C.reshape(-1, C.shape[-1], order="F")
            V = columns(ctx, T, out["samples"][n - 1], dims, cand, "node %d" % n)
            A = np.linalg.solve(B, V)
            acc = np.linalg.cond(B)
            cond = max(cond, acc)
            if acc < 1e5:
                judge_components(ctx, C, A, values[n], c.factor, c.adaptive and values[n] < 1, "node %d" % n)
            ctx.equal("evaluations:node", int(out["outputs"][n - 1]["number_of_evaluations"]),
                      np.asarray(out["samples"][n - 1]).shape[0])
            F = B @ C
            pos = []
            for row in g:
                w = np.nonzero((cand == row).all(1))[0]
                ctx.check("grid:candidate", w.size == 1, "node %d: grid point %s is not a candidate" % (n, row))
                pos.append(w[0])
            ctx.check("grid:distinct", len(set(pos)) == len(pos) == C.shape[1], "node %d: grid %s" % (n, pos))
            ctx.close("grid:basis", b, F[pos], rtol=1e-8, scale=np.max(np.abs(F)))
            sv = np.linalg.svd(gen.unfold(T, dims), compute_uv=False)
            rk = int(np.sum(sv > 1e-9 * sv[0]))
            vs = np.linalg.svd(A, compute_uv=False)
            sampled = int(np.sum(vs > 1e-6 * vs[0]))
            if values[n] <= 1e-10 and acc < 1e5:
                ctx.check("exact:sampled-rank", sampled <= C.shape[1],
                          "node %d: rank %d, sampled rank %s" % (n, C.shape[1], vs))
            # the sampled fibers span the range of the unfolding, all of it is kept
            full_ranks = full_ranks and sampled == rk <= C.shape[1]
        else:
            ctx.equal("grid:inactive", g, cand)
        grids[n] = (g, dims)
        nested[n] = b
    ch = tm.children[tm.root]
    dims = [k for c_ in ch for k in grids[c_][1]]
    R = product([grids[k][0] for k in ch])
    inv = [dims.index(k) for k in range(c.d)]
    S = np.asarray(out["samples"][tm.root - 1]).astype(int)
    ctx.equal("samples:root", S, R[:, inv])
    tsize = np.max(np.abs(T)) + 1e-300
    B = nested[ch[0]]
    for k in ch[1:]:
        B = np.kron(nested[k], B)
    cond = max(cond, np.linalg.cond(B))
    if cond < 1e6:
        ctx.close("interpolation:root", D[tuple(S.T)], T[tuple(S.T)], rtol=1e-8 * cond, scale=tsize)
    recorded = np.concatenate([np.asarray(x).astype(int) for x in out["samples"] if x is not None])
    ctx.equal("samples:recorded", sorted(map(tuple, recorded)), sorted(map(tuple, rows)))
    if full_ranks and cond < 1e3 and all(well_ranked(T, tm.dims(n)) for n in tm.children if n != tm.root):
        ctx.op("exact")
        ctx.close("exact:tensor", D, T, rtol=1e-5, scale=tsize)
    return D


def well_ranked(T, dims):
    sv = np.linalg.svd(gen.unfold(T, dims), compute_uv=False)
    k = np.sum(sv > 1e-9 * sv[0])
    return sv[k - 1] > 1e-3 * sv[0]


def product(grids):
    """Product of grids of indices, first fastest."""
    out = np.asarray(grids[0])
    for g in grids[1:]:
        g = np.asarray(g)
        out = np.hstack([np.tile(out, (len(g), 1)), np.repeat(g, len(out), axis=0)])
    return out


@P.scenario(90)
def tree_based(ctx):
    tm = gen.named_tree_model(ctx, ctx.randint(2, 5))
    c = Case(ctx, tm=tm, smax=5 if tm.d < 5 else 3)
    active = gen.random_active(ctx, tm, 0.5)
    nact = sum(active.values()) - 1
    s = c.solver(tensap.TensorPrincipalComponentAnalysis())
    ctx.case(tree=tm.describe(), inactive=[n for n in active if not active[n]])
    if nact == 0 and ctx.coin():
        ctx.trivial()
    value = c.options(s, tm.nb, 1 / np.sqrt(max(nact, 1)))
    values = {n: value[n - 1] if c.many else value for n in tm.children}
    args = [c.fun, c.shape, tm.tree()]
    if not all(active.values()) or ctx.coin():
        a = [active[n + 1] for n in range(tm.nb)]
        args.append(np.array(a))
    frozen = gen.freeze(args[1:])
    if ctx.coin(0.3):       # a tree already used by another tensor
        np.random.seed(ctx.randint(0, 10 ** 6))
        tensap.TreeBasedTensor.randn(args[2], "random", c.shape).full()
    f, out = run(ctx, s, "tree_based_approximation", *args, generic=c.kind == "full")
    ctx.check("arguments:kept", frozen == gen.freeze(args[1:]), "arguments changed")
    judge_tree(ctx, c, f, out, tm, active, values)


@P.scenario(50)
def tucker(ctx):
    c = Case(ctx)
    tm = gen.model_of(tensap.DimensionTree.trivial(c.d))
    s = c.solver(tensap.TensorPrincipalComponentAnalysis())
    value = c.options(s, c.d, 1 / np.sqrt(c.d))
    values = {n: value[tm.dims(n)[0]] if c.many else value for n in tm.leaves}
    f, out = run(ctx, s, "tucker_approximation", c.fun, c.shape, generic=c.kind == "full")
    judge_tree(ctx, c, f, out, tm, {n: True for n in tm.children}, values)


@P.scenario(50)
def tensor_train(ctx):
    c = Case(ctx, dmin=3, dmax=5, smax=4)
    tm = gen.model_of(tensap.DimensionTree.linear(c.d))
    s = c.solver(tensap.TensorPrincipalComponentAnalysis())
    value = c.options(s, c.d - 1, 1 / np.sqrt(c.d - 1))
    active = {n: len(tm.children[n]) > 0 or tm.dims(n) == [0] for n in tm.children}
    values = {n: value[len(tm.dims(n)) - 1] if c.many else value
              for n in tm.children if active[n] and n != tm.root}
    f, out = run(ctx, s, "tt_approximation", c.fun, c.shape, generic=c.kind == "full")
    judge_tree(ctx, c, f, out, tm, active, values)


class Points:
    """Evaluation of a function at points, recording the calls."""

    def __init__(self, ctx, C, bases, grids):
        self.ctx, self.C, self.bases, self.grids, self.calls = ctx, C, bases, grids, []

    def value(self, x):
        return gen.eval_diag_product(self.C, [np.asarray(b.eval(x[:, k])) for k, b in enumerate(self.bases)],
                                     list(range(len(self.bases))))

    def __call__(self, x):
        x = np.asarray(x)
        self.ctx.check("evaluations:shape", x.ndim == 2 and x.shape[1] == len(self.bases), "points %s" % (x.shape,))
        for k, g in enumerate(self.grids):
            gap = np.min(np.abs(x[:, [k]] - np.ravel(g)[None, :]), axis=1)
            self.ctx.check("evaluations:grid", np.all(gap <= 1e-12), "points outside of the grid in dimension %d" % k)
        self.calls.append(x)
        return self.value(x)


@P.scenario(60)
def functions(ctx):
    """Functions of a tensor-product space: the interpolation is exact when the ranks are."""
    rng = ctx.rng
    d = ctx.randint(2, 4)
    bases, law = [], []
    for _ in range(d):
        k = ctx.choice(["uniform", "normal", "canonical"])
        v = tensap.UniformRandomVariable(-1, 1) if k == "uniform" else tensap.NormalRandomVariable()
        p = tensap.CanonicalPolynomials() if k == "canonical" else v.orthonormal_polynomials()
        deg = ctx.randint(0 if ctx.coin(0.1) else 1, 4)
        bases.append(tensap.PolynomialFunctionalBasis(p, range(deg + 1)))
        law.append(k[0] + str(deg))
    shape = [int(b.cardinal()) for b in bases]
    rank = ctx.randint(1, 3)
    C = np.zeros(shape)
    for _ in range(rank):
        t = np.ones(())
        for n in shape:
            t = np.multiply.outer(t, rng.standard_normal(n))
        C = C + t
    fb = tensap.FunctionalBases(bases)
    s = tensap.FunctionalTensorPrincipalComponentAnalysis()
    s.display = ctx.coin(0.2)
    s.bases = fb if ctx.coin(0.7) else list(bases)
    s.pca_sampling_factor = ctx.choice([1, 2, 5])
    s.pca_adaptive_sampling = ctx.coin(0.3)
    untouched = ctx.coin(0.15)
    if untouched:
        s = tensap.FunctionalTensorPrincipalComponentAnalysis()
        s.display, s.bases = False, fb
        for k, v in (("pca_sampling_factor", 1), ("pca_adaptive_sampling", False), ("tol", 1e-8), ("max_rank", np.inf),
                     ("grid", None)):
            ctx.equal("defaults", getattr(s, k), v)
    given = ctx.coin(0.6) or any(x[0] == "c" for x in law)      # points are drawn from the measures otherwise
    if given:
        candidates = [np.sort(rng.uniform(-1, 1, 30)).reshape(-1, 1) for _ in range(d)]
        s.grid = [g.copy() for g in candidates]
        grids = [np.asarray(g) for g in fb.interpolation_points([g.copy() for g in candidates])]
        for k in range(d):
            ctx.check("grid:given", np.all(np.isin(np.ravel(grids[k]), candidates[k])), "")
    else:
        np.random.seed(5)
        grids = [np.asarray(g) for g in fb.interpolation_points()]
        np.random.seed(5)
    fun = Points(ctx, C, bases, grids)
    fmt = ctx.choice(["hopca", "tucker", "tt", "tree", "tree"] if d > 2 else ["hopca", "tucker", "tree"])
    prec = untouched or ctx.coin(0.6)
    if untouched:
        pass
    elif prec:
        s.tol = ctx.choice([1e-12, 1e-9])
    else:
        s.tol, s.max_rank = np.inf, ctx.randint(1, 4)
    ctx.case(bases=law, rank=rank, format=fmt, given=given, factor=s.pca_sampling_factor, precision=prec,
             max_rank=s.max_rank, adaptive=s.pca_adaptive_sampling)
    E = [np.asarray(b.eval(np.ravel(g))) for b, g in zip(bases, grids)]
    cond = max(np.linalg.cond(e) for e in E)
    V = gen.mode_products(C, E, list(range(d)))     # values on the grid
    if fmt == "hopca":
        pcs, outs = run(ctx, s, "hopca", fun)
        ctx.equal("hopca:number", len(pcs), d)
        ctx.equal("evaluations:total", int(sum(o["number_of_evaluations"] for o in outs)),
                  sum(len(x) for x in fun.calls))
        for k in range(d):
            b = pcs[k]
            U = np.asarray(b.eval(np.ravel(grids[k])))
            S = np.asarray(outs[k]["samples"]).astype(int)
            A = columns(ctx, V, S, [k], np.arange(shape[k]).reshape(-1, 1), "dimension %d" % k)
            if cond < 1e5:
                judge_components(ctx, U, A, s.tol if prec else s.max_rank, s.pca_sampling_factor,
                                 s.pca_adaptive_sampling, "dimension %d" % k)
        return
    if fmt == "tucker":
        tm = gen.model_of(tensap.DimensionTree.trivial(d))
        active = {n: True for n in tm.children}
        f, out = run(ctx, s, "tucker_approximation", fun)
    elif fmt == "tt":
        tm = gen.model_of(tensap.DimensionTree.linear(d))
        active = {n: len(tm.children[n]) > 0 or tm.dims(n) == [0] for n in tm.children}
        f, out = run(ctx, s, "tt_approximation", fun)
    else:
        tm = gen.named_tree_model(ctx, d)
        active = gen.random_active(ctx, tm, 0.5)
        f, out = run(ctx, s, "tree_based_approximation", fun, tm.tree(), [active[n + 1] for n in range(tm.nb)])
    ctx.check("result:type", isinstance(f, tensap.FunctionalTensor), type(f).__name__)
    check_rep(ctx, f.tensor, "f")
    ctx.equal("tree:adjacency", np.asarray(f.tensor.tree.adjacency_matrix), tm.adjacency())
    ctx.equal("tree:active", [bool(b) for b in f.tensor.is_active_node], [active[n + 1] for n in range(tm.nb)])
    ctx.equal("tree:shape", [int(n) for n in f.tensor.shape], shape)
    ctx.equal("evaluations:total", int(out["number_of_evaluations"]), sum(len(x) for x in fun.calls))
    D = dense(f.tensor)
    S = np.asarray(out["samples"][tm.root - 1]).astype(int)
    x = np.stack([np.ravel(g)[S[:, k]] for k, g in enumerate(grids)], 1)
    size = np.max(np.abs(V))
    ranks = {n: np.linalg.matrix_rank(gen.unfold(V, tm.dims(n)), tol=1e-9 * np.linalg.norm(V))
             for n in tm.children if active[n] and n != tm.root}
    nodes = [np.linalg.cond(np.asarray(out["alpha_basis"][n - 1])) for n in ranks]
    cond = cond * max(nodes, default=1.0)
    if cond < 1e5:
        y = gen.eval_diag_product(D, [np.asarray(b.eval(x[:, k])) for k, b in enumerate(bases)], list(range(d)))
        ctx.close("interpolation:root", y, fun.value(x), rtol=1e-11 * cond, scale=size)
        ctx.close("result:values", f.eval(x), y, rtol=1e-11 * cond, scale=size)
    for n in ranks:
        r = int(f.tensor.ranks[n - 1])
        if not prec:
            ctx.check("components:rank", r <= s.max_rank, "node %d has rank %d" % (n, r))
    sampled = {}
    for n in ranks:
        dims = tm.dims(n)
        Q = np.asarray(out["samples"][n - 1]).astype(int)
        cols = {}
        for row in Q:
            cols.setdefault(tuple(np.delete(row, dims)), []).append(V[tuple(row)])
        sv = np.linalg.svd(np.array([v[:min(map(len, cols.values()))] for v in cols.values()]), compute_uv=False)
        sampled[n] = int(np.sum(sv > 1e-6 * sv[0]))
    if cond < 1e3 and all(f.tensor.ranks[n - 1] >= ranks[n] == sampled[n] and well_ranked(V, tm.dims(n)) for n in ranks):
        ctx.op("exact")
        ctx.close("exact:function", D, C, rtol=1e-5, scale=np.max(np.abs(C)))
        z = rng.uniform(-1, 1, (4, d))
        ctx.close("exact:values", f.eval(z), fun.value(z), rtol=1e-5, scale=np.max(np.abs(C)) * 10)


@P.scenario(30)
def defaults(ctx):
    """A new solver: precision 1e-8, as many samples as the size of the spaces, no limit on the ranks."""
    tm = gen.named_tree_model(ctx, ctx.randint(2, 4))
    c = Case(ctx, tm=tm)
    c.factor, c.adaptive, c.sub = 1, False, "eim"
    s = tensap.TensorPrincipalComponentAnalysis()
    s.display = False
    nb = sum(1 for n in tm.children if n != tm.root)
    if ctx.coin():
        f, out = run(ctx, s, "tree_based_approximation", c.fun, c.shape, tm.tree())
        judge_tree(ctx, c, f, out, tm, {n: True for n in tm.children}, {n: 1e-8 / np.sqrt(nb) for n in tm.children})
        return
    pcs, outs = run(ctx, s, "hopca", c.fun, c.shape)
    for a in range(c.d):
        A = columns(ctx, c.T, np.asarray(outs[a]["samples"]), [a], np.arange(c.shape[a]).reshape(-1, 1), "dim %d" % a)
        judge_components(ctx, pcs[a], A, 1e-8, 1, False, "dimension %d" % a)


@P.scenario(30)
def refused(ctx):
    """Precisions or ranks in the wrong number, and unknown options, are refused."""
    tm = gen.named_tree_model(ctx, ctx.randint(3, 5))
    d = tm.d
    c = Case(ctx, tm=tm, smax=3)
    s = c.solver(tensap.TensorPrincipalComponentAnalysis())
    s.display = False
    how = ctx.choice(["hopca", "tucker", "tt", "tree"])
    good = {"hopca": d, "tucker": d, "tt": d - 1, "tree": tm.nb}[how]
    wrong = ctx.choice([n for n in range(2, 12) if n != good])
    if how in ("tucker", "tt") and wrong == (d + 1 if how == "tucker" else 2 * d - 1):
        wrong += 1
    which = ctx.choice(["tol", "max_rank"])
    v = ctx.choice([list, np.array])
    if which == "tol":
        s.tol = v([1e-3] * wrong)
    else:
        s.tol, s.max_rank = np.inf, v([2] * wrong)
    ctx.case(method=how, option=which, length=wrong, d=d)
    args = {"hopca": (s.hopca, c.fun, c.shape), "tucker": (s.tucker_approximation, c.fun, c.shape),
            "tt": (s.tt_approximation, c.fun, c.shape),
            "tree": (s.tree_based_approximation, c.fun, c.shape, tm.tree())}[how]
    ctx.raises("refused:" + which, *args)
