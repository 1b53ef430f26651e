import itertools

import numpy as np

import tensap
from vt.core import Prop, Skip
from vt.props.c14 import B1, composite

P = Prop("C15", "Tensor-product bases and functional arrays agree with their 1-D factors",
         "families of 1-4 one-dimensional bases (polynomials of every measure, piecewise polynomials, "
         "B-splines, user-defined, sub-bases; mixed), full products and sparse sets of multi-indices in any "
         "order, scalar, vector and matrix valued coefficients, dimension subsets given as integers, "
         "lists, arrays or booleans. References: products of the factors' independent values "
         "and quadratures, dense least squares. Non-trivial: at least two basis functions; "
         "distinct by bases, indices and output shape.")

PROB = ("poly",)


class Fac:
    def __init__(self, ctx, d=None, kinds=("poly", "poly", "piecewise", "bspline", "user", "sub"), cap=5,
                 accept=lambda b: True):
        self.d = d or ctx.randint(1, 4)
        self.ctx = ctx
        self.f = []
        while len(self.f) < self.d:
            b = B1(ctx, kinds)
            if b.ref(b.x[:1], 0).shape[1] <= cap and accept(b):
                self.f.append(b)
        self.n = [int(b.basis.cardinal()) for b in self.f]
        self.bases = tensap.FunctionalBases([b.basis for b in self.f])
        self.desc = [b.desc for b in self.f]
        self.tol = max(b.tol for b in self.f) * 10

    def points(self, m, integral=0.12):
        x = np.stack([b.pts(m) for b in self.f], axis=1)
        if all(b.kind in ("poly", "monomials", "user") for b in self.f):
            x = self.ctx.integral(x, integral)
        return x

    def ref1(self, x, k=None):
        k = [0] * self.d if k is None else k
        return [b.ref(x[:, i], k[i]) for i, b in enumerate(self.f)]

    def prod(self, vals, ind):
        return np.prod([v[..., ind[:, i]] for i, v in enumerate(vals)], axis=0)

    def full_indices(self):
        return np.array([r[::-1] for r in itertools.product(*[range(n) for n in self.n[::-1]])])

    def indices(self, ctx):
        full = self.full_indices()
        m = ctx.randint(1, min(len(full), 12))
        return full[ctx.rng.permutation(len(full))[:m]]

    def means(self, b):
        root = b
        while root.kind == "sub":
            root = root.under
        mass = np.sum(b.w) if root.kind in ("poly", "monomials") else 1.0
        return b.w @ b.ref(b.x, 0) / mass


def is_prob(b):
    while b.kind == "sub":
        b = b.under
    return b.kind == "poly" and isinstance(b.measure, tensap.ProbabilityMeasure)


def has_mean(b):
    while b.kind == "sub":
        b = b.under
    return b.kind in ("poly", "piecewise")


def scale(vals):
    return max(float(np.prod([max(np.max(np.abs(v)), 1e-3) for v in vals])), 1e-3)


def build(ctx, **kw):
    """A full or sparse tensor-product basis, its index array and factors."""
    F = Fac(ctx, **kw)
    if ctx.coin(0.4) and np.prod(F.n) <= 60:
        kind, ind = "full", F.full_indices()
        arg = F.bases if ctx.coin() else [b.basis for b in F.f]
        H = tensap.FullTensorProductFunctionalBasis(arg)
    else:
        kind, ind = "sparse", F.indices(ctx)
        H = tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(ind))
    return F, kind, ind, H


@P.scenario(120)
def families(ctx):
    F = Fac(ctx)
    d = F.d
    k = [ctx.randint(0, 2) if b.maxder else 0 for b in F.f]
    ctx.case(bases=F.desc, k=k)
    x = F.points(5)
    B = F.bases
    ctx.equal("length", [B.length(), len(B)], [d, d])
    ctx.equal("cardinals", B.cardinals(), F.n)
    ctx.equal("ndim", B.ndim(), [1] * d)
    dims = ctx.rng.permutation(d)[:ctx.randint(1, d)]
    ctx.equal("cardinals:dims", B.cardinals(dims if ctx.coin() else list(dims)), np.array(F.n)[dims])
    arg = x if ctx.coin() else [x[:, i] for i in range(d)]
    ref = F.ref1(x)
    got = B.eval(arg)
    ctx.equal("eval:length", len(got), d)
    for a, r in zip(got, ref):
        ctx.close("eval", a, r, rtol=F.tol, scale=max(np.max(np.abs(r)), 1e-3))
    dd = dims if ctx.coin() else list(int(i) for i in dims)
    got, pts = B.eval(x[:, dims], dd, 2)
    for a, i, y in zip(got, dims, pts):
        ctx.close("eval:dims", a, ref[i], rtol=F.tol, scale=max(np.max(np.abs(ref[i])), 1e-3))
        ctx.close("eval:points", np.ravel(y), x[:, i])
    if all(b.maxder for b in F.f):
        got = B.eval_derivative(k, arg)
        r2 = F.ref1(x, k)
        for a, r, z in zip(got, r2, ref):
            ctx.close("eval_derivative", a, r, rtol=F.tol * 10,
                      scale=max(np.max(np.abs(r)), np.max(np.abs(z)), 1e-3))
        got = B.eval_derivative([k[i] for i in dims], x[:, dims], dd)
        for a, i in zip(got, dims):
            ctx.close("eval_derivative:dims", a, r2[i], rtol=F.tol * 10,
                      scale=max(np.max(np.abs(r2[i])), np.max(np.abs(ref[i])), 1e-3))
    # selections
    keep = B.keep_bases(dims)
    ctx.equal("keep_bases", keep.cardinals(), np.array(F.n)[dims])
    for a, i in zip(keep.eval(x[:, dims]), dims):
        ctx.close("keep_bases:eval", a, ref[i], rtol=F.tol, scale=max(np.max(np.abs(ref[i])), 1e-3))
    if len(dims) < d:
        rest = [i for i in range(d) if i not in dims]
        rem = B.remove_bases(dims)
        for a, i in zip(rem.eval(x[:, rest]), rest):
            ctx.close("remove_bases:eval", a, ref[i], rtol=F.tol, scale=max(np.max(np.abs(ref[i])), 1e-3))
        ctx.equal("remove_bases:measure", rem.measure.ndim(), len(rest))
    perm = ctx.rng.permutation(d)
    tr = B.transpose(perm)
    for a, i in zip(tr.eval(x[:, perm]), perm):
        ctx.close("transpose:eval", a, ref[i], rtol=F.tol, scale=max(np.max(np.abs(ref[i])), 1e-3))
    ctx.equal("untouched", B.cardinals(), F.n)
    ctx.check("eq", bool(B == tensap.FunctionalBases([b.basis for b in F.f])))
    if d > 1:
        ctx.check("eq:length", not bool(B == B.keep_bases(range(d - 1))))
    if d > 1:
        # families that differ by their last or first basis only
        k = ctx.choice([0, d - 1])
        other = list(F.f)
        for _ in range(30):
            c = Fac(ctx, 1, ("poly",)).f[0]
            if not c.basis == other[k].basis and not other[k].basis == c.basis:
                other[k] = c
                break
        if other[k] is not F.f[k]:
            O = tensap.FunctionalBases([b.basis for b in other])
            ctx.check("eq:one-basis", not bool(B == O) and not bool(O == B), "position %d" % k)
            O.measure = B.measure
            ctx.check("eq:one-basis-same-measure", not bool(B == O) and not bool(O == B), "position %d" % k)
    dup = tensap.FunctionalBases.duplicate(F.f[0].basis, 3)
    ctx.equal("duplicate", dup.cardinals(), [F.n[0]] * 3)
    for a in dup.eval(np.tile(x[:, :1], (1, 3))):
        ctx.close("duplicate:eval", a, ref[0], rtol=F.tol, scale=max(np.max(np.abs(ref[0])), 1e-3))
    copy = tensap.FunctionalBases(B)
    ctx.equal("copy", copy.cardinals(), F.n)


@P.scenario(100)
def family_integrals(ctx):
    F = Fac(ctx, kinds=("poly", "poly", "piecewise", "sub"), accept=has_mean)
    d = F.d
    dims = ctx.rng.permutation(d)[:ctx.randint(1, d)]
    ctx.case(bases=F.desc, dims=dims)
    dd = dims if ctx.coin() else list(dims)
    for args, sel in (((), range(d)), ((dd,), dims)):
        for a, i in zip(F.bases.mean(*args), sel):
            b = F.f[i]
            ctx.close("mean", np.ravel(a), F.means(b), rtol=F.tol, scale=np.max(np.abs(b.ref(b.x, 0))))
    polys = all(b.kind == "poly" for b in F.f)
    if polys:
        for args, sel in (((), range(d)), ((dd,), dims)):
            got = F.bases.gram_matrices(*args)
            ctx.equal("gram_matrices:number", len(got), len(list(sel)))
            for a, i in zip(got, sel):
                ctx.close("gram_matrices", np.asarray(a), F.f[i].gram(), rtol=F.tol, scale=1)
        lo, hi = -1.0, float(ctx.choice([0.5, 1.0]))
        RV = tensap.RandomVector([tensap.UniformRandomVariable(lo, hi)] * len(dims))
        y, w = composite([lo, hi], 16)
        w = w / np.sum(w)
        for a, i in zip(F.bases.mean(dd, RV), dims):
            V = F.f[i].ref(y, 0)
            ctx.close("mean:measure", np.ravel(a), w @ V, rtol=F.tol * 10, scale=np.max(np.abs(V)))
    if all(is_prob(b) for b in F.f):
        n = ctx.randint(2, 5)
        got, x = F.bases.random_dims(dd, n, nargout=2)
        got = [got] if len(dims) == 1 else got
        for a, i, y in zip(got, dims, x):
            r = F.f[i].ref(np.ravel(y), 0)
            ctx.close("random_dims", a, r, rtol=F.tol * 10, scale=max(np.max(np.abs(r)), 1))
        RV = F.bases.get_random_vector()
        ctx.equal("get_random_vector", RV.ndim(), d)
        X = [tensap.UniformRandomVariable(0.1 * i, 0.1 * i + 0.05) for i in range(d)]
        mu = tensap.RandomVector(X) if ctx.coin() else tensap.ProductMeasure(X)
        got, x = F.bases.random_dims(dd, n, mu, 2)
        got = [got] if len(dims) == 1 else got
        for a, i, y in zip(got, dims, x):
            y = np.ravel(y)
            ctx.check("random_dims:measure", np.all((y >= 0.1 * i - 1e-12) & (y <= 0.1 * i + 0.05 + 1e-12)))
            r = F.f[i].ref(y, 0)
            ctx.close("random_dims:values", a, r, rtol=F.tol * 10, scale=max(np.max(np.abs(r)), 1))


@P.scenario(60)
def family_more(ctx):
    """Derivatives and Gram matrices of families with other measures, points in every form, random vectors."""
    F = Fac(ctx, kinds=("poly", "poly", "user", "sub", "piecewise"))
    d, B = F.d, F.bases
    x = F.points(6)
    ref = F.ref1(x)
    dims = ctx.rng.permutation(d)[:ctx.randint(1, d)]
    ctx.case(bases=F.desc, dims=dims)
    if all(b.maxder for b in F.f):
        k = [ctx.randint(0, 1) for _ in range(d)]
        r2 = F.ref1(x, k)
        if all(b.kind == "poly" and b.fam.kind in ("uniform", "normal", "lebesgue") and np.array_equal(
                b.ind, np.arange(len(b.ind))) for b in F.f):    # derivatives are projected on the span
            ctx.op("derivative")
            for a, r, z in zip(B.derivative(k).eval(x), r2, ref):
                ctx.close("derivative", a, r, rtol=1e-6, scale=10 * max(np.max(np.abs(r)), np.max(np.abs(z)), 1e-3))
        ctx.equal("derivative:untouched", B.cardinals(), F.n)
        got, pts = B.eval_derivative([k[i] for i in dims], x[:, dims], dims, 2)
        ctx.equal("eval_derivative:points", np.concatenate([np.reshape(p, (-1, 1)) for p in pts], 1), x[:, dims])
        for a, i in zip(got, dims):
            ctx.close("eval_derivative:dims", a, r2[i], rtol=F.tol * 10,
                      scale=max(np.max(np.abs(r2[i])), np.max(np.abs(ref[i])), 1e-3))
    ctx.equal("domain", [list(np.ravel(s)) for s in B.domain()], [list(np.ravel(b.basis.domain())) for b in F.f])
    for name, out, sel in (("keep", B.keep_bases(dims), dims), ("transpose", B.transpose(np.arange(d)[::-1]), range(d)[::-1])):
        ctx.check(name + ":measure", out.measure.ndim() == len(sel) and all(
            m == F.f[i].basis.measure for m, i in zip(out.measure.measures, sel)))
    if all(b.kind == "poly" for b in F.f):
        X = [tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable(),
             tensap.UniformRandomVariable(0, 0.5)]
        Y = [X[ctx.randint(0, 2)] for _ in dims]
        many = ctx.coin()
        got = B.gram_matrices(dims, tensap.RandomVector(Y) if many else Y[0])
        mean = B.mean(dims, tensap.RandomVector(Y) if many else Y[0])
        ctx.equal("gram_matrices:number", len(got), len(dims))
        for j, i in enumerate(dims):
            G = (Y[j] if many else Y[0]).gauss_integration_rule(30)
            p, w = np.ravel(G.points), np.ravel(G.weights)
            V = F.f[i].ref(p, 0)
            ctx.close("gram_matrices:measure", got[j], V.T @ (w[:, None] * V), rtol=1e-7, scale=np.max(np.abs(w @ V ** 2)))
            ctx.close("mean:measure", np.ravel(mean[j]), w @ V, rtol=1e-7, scale=max(np.max(w @ np.abs(V)), 1e-3))
    RV = B.get_random_vector()
    if all(is_prob(b) for b in F.f):
        for X, b in zip(RV.random_variables, F.f):
            ctx.check("get_random_vector:marginals", X == b.basis.measure)
    elif any(not isinstance(b.basis.measure, tensap.ProbabilityMeasure) for b in F.f):
        ctx.check("get_random_vector:none", RV is None)
    # candidate points as a list, an array and a grid
    m = max(F.n) * 2 + 3
    cand = [np.unique(b.pts(m)) for b in F.f]
    m = min(len(c) for c in cand)
    cand = [c[np.sort(ctx.rng.permutation(len(c))[:m])][:, None] for c in cand]
    roots = [b for b in F.f]
    while any(b.kind == "sub" for b in roots):
        roots = [b.under if b.kind == "sub" else b for b in roots]
    if m < max(F.n) or any(b.kind == "piecewise" for b in roots):   # piecewise bases have their own points
        return
    try:
        ref = [b.basis.magic_points(c) for b, c in zip(F.f, cand)]
    except np.linalg.LinAlgError:
        return
    for form in ("list", "array", "grid"):
        arg = {"list": cand, "array": np.hstack(cand), "grid": tensap.FullTensorGrid([c.copy() for c in cand])}[form]
        for a, r, b, c in zip(B.interpolation_points(arg), ref, F.f, cand):
            ctx.equal("interpolation_points:" + form, np.ravel(a), np.ravel(b.basis.interpolation_points(c)))
        pts, ind = B.magic_points(arg)
        for a, i, r, c in zip(pts, ind, ref, cand):
            ctx.equal("magic_points:" + form, np.ravel(a), np.ravel(r[0]))
            ctx.equal("magic_points:" + form, np.ravel(c)[i], np.ravel(r[0]))
    for b, c, r in zip(F.f, cand, ref):
        A = b.ref(np.ravel(c), 0)
        S = A[np.ravel(r[1])]
        if np.linalg.cond(S) < 1e6:
            ctx.close("magic_points:lebesgue", r[2]["lebesgue_constant"],
                      np.max(np.sum(np.abs(A @ np.linalg.inv(S)), 1)), rtol=1e-5)


@P.scenario(160)
def products(ctx):
    F, kind, ind, H = build(ctx)
    d = F.d
    if len(ind) == 1:
        ctx.trivial()
    k = [ctx.randint(0, 2) for _ in range(d)]
    ctx.case(bases=F.desc, kind=kind, ind=ind, k=k)
    ctx.equal("cardinal", int(H.cardinal()), len(ind))
    ctx.equal("ndim", [int(H.ndim()), len(H), H.length()], [d] * 3)
    x = F.points(6)
    vals = F.ref1(x)
    ref = F.prod(vals, ind)
    ctx.close("eval", H.eval(x), ref, rtol=F.tol, scale=scale(vals))
    ctx.close("eval:twice", H.eval(x), ref, rtol=F.tol, scale=scale(vals))
    ctx.close("eval:one", H.eval(x[:1]), ref[:1], rtol=F.tol, scale=scale(vals))
    orth = all(b.basis.is_orthonormal for b in F.f)
    if H.is_orthonormal:
        G = [b.gram() for b in F.f]
        ref_g = np.prod([g[np.ix_(ind[:, i], ind[:, i])] for i, g in enumerate(G)], axis=0)
        ctx.close("is_orthonormal", ref_g, np.eye(len(ind)), rtol=F.tol * 10)
    ctx.equal("is_orthonormal:claim", bool(H.is_orthonormal), bool(orth))
    if kind == "sparse" and all(b.maxder for b in F.f):
        dv = F.ref1(x, k)
        sc = max(scale(dv), scale(vals))
        ctx.close("eval_derivative", H.eval_derivative(k, x), F.prod(dv, ind), rtol=F.tol * 10, scale=sc)
        J = H.eval_jacobian(x)
        ctx.equal("eval_jacobian:shape", J.shape, (6, len(ind), d))
        for i in range(d):
            e = [int(j == i) for j in range(d)]
            dv = F.ref1(x, e)
            ctx.close("eval_jacobian", J[:, :, i], F.prod(dv, ind), rtol=F.tol * 10,
                      scale=max(scale(dv), scale(vals)))
        ctx.close("eval_with_functional_bases_evals", H.eval_with_functional_bases_evals(F.bases.eval(x)), ref,
                  rtol=F.tol, scale=scale(vals))
    perm = ctx.rng.permutation(d)
    T = H.transpose(perm)
    got = T.eval(x[:, perm])
    ctx.check("transpose:measure", T.measure.ndim() == d and all(
        m == F.f[i].basis.measure for m, i in zip(T.measure.measures, perm)))
    if kind == "sparse":
        ctx.close("transpose", got, ref, rtol=F.tol, scale=scale(vals))
    else:
        full = np.array([r[::-1] for r in itertools.product(*[range(F.n[i]) for i in perm[::-1]])])
        ctx.close("transpose", got, np.prod([vals[i][:, full[:, j]] for j, i in enumerate(perm)], axis=0),
                  rtol=F.tol, scale=scale(vals))
    if d > 1:
        dims = np.sort(ctx.rng.permutation(d)[:ctx.randint(1, d - 1)])
        rest = np.array([i for i in range(d) if i not in dims])
        how = ctx.choice(["keep_bases", "remove_bases"])
        if how == "keep_bases" and ctx.coin():
            dims = ctx.rng.permutation(dims)
        S = H.keep_bases(dims if ctx.coin() else list(dims)) if how == "keep_bases" else H.remove_bases(rest)
        if kind == "full":
            sub = np.array([r[::-1] for r in itertools.product(*[range(F.n[i]) for i in dims[::-1]])])
            r = np.prod([vals[i][:, sub[:, j]] for j, i in enumerate(dims)], axis=0)
            ctx.close(how, S.eval(x[:, dims]), r, rtol=F.tol, scale=scale(vals))
        else:
            want = {tuple(v) for v in ind[:, dims]}
            got_i = [tuple(v) for v in np.asarray(S.indices.array)]
            ctx.check(how + ":indices", set(got_i) == want and len(got_i) == len(want))
            sub = np.array(got_i)
            r = np.prod([vals[i][:, sub[:, j]] for j, i in enumerate(dims)], axis=0)
            ctx.close(how, S.eval(x[:, dims]), r, rtol=F.tol, scale=scale(vals))
        ctx.equal(how + ":measure", S.measure.ndim(), len(dims))
    if kind == "sparse":
        p = ctx.choice([1, 2, np.inf])
        A = np.asarray(H.adaptation_path(p))
        nrm = np.linalg.norm(ind, p, axis=1)
        lev = np.unique(nrm)
        ctx.equal("adaptation_path", A, nrm[:, None] <= lev[None, :] + 1e-12)
    same = type(H)(F.bases) if kind == "full" else type(H)(F.bases, tensap.MultiIndices(ind))
    ctx.check("eq", bool(H == same) and not bool(H == F.bases))
    if kind == "sparse":
        other = np.array(ind)
        other[ctx.randint(0, len(ind) - 1), ctx.randint(0, d - 1)] += 1 + np.max(ind)
        ctx.check("eq:indices", not bool(H == type(H)(F.bases, tensap.MultiIndices(other))))
        if len(ind) > 1:
            ctx.check("eq:fewer", not bool(H == type(H)(F.bases, tensap.MultiIndices(ind[:-1]))))


@P.scenario(120)
def product_integrals(ctx):
    F, kind, ind, H = build(ctx, kinds=("poly", "poly", "piecewise", "sub"), accept=has_mean)
    d = F.d
    ctx.case(bases=F.desc, kind=kind, ind=ind)
    m = [F.means(b) for b in F.f]
    sc = scale([b.ref(b.x, 0) for b in F.f])
    ref = np.prod([m[i][ind[:, i]] for i in range(d)], axis=0)
    ctx.close("mean", np.ravel(H.mean()), ref, rtol=F.tol, scale=sc)
    if all(b.kind == "poly" for b in F.f):
        RV = tensap.RandomVector([tensap.UniformRandomVariable(-1, 1 + 0.25 * i) for i in range(d)])
        mm, s2 = [], 1.0
        for i, b in enumerate(F.f):
            y, w = composite([-1, 1 + 0.25 * i], 16)
            V = b.ref(y, 0)
            mm.append(w @ V / np.sum(w))
            s2 *= np.max(np.abs(V))
        ctx.close("mean:measure", np.ravel(H.mean(RV)),
                  np.prod([mm[i][ind[:, i]] for i in range(d)], axis=0), rtol=F.tol * 10, scale=s2)
    polys = all(b.kind in ("poly", "monomials") or b.kind == "sub" and b.under.kind == "poly" for b in F.f)
    if kind == "sparse" and polys:
        G = [b.gram() for b in F.f]
        ref = np.prod([g[np.ix_(ind[:, i], ind[:, i])] for i, g in enumerate(G)], axis=0)
        M = H.gram_matrix()
        M = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
        ctx.close("gram_matrix", M, ref, rtol=F.tol, scale=np.prod([np.max(np.abs(g)) for g in G]))
    dims = ctx.rng.permutation(d)[:ctx.randint(1, d)]
    if d > 1 and ctx.coin(0.3):
        dims = np.sort(dims)


@P.scenario(60)
def stiffness(ctx):
    """H1 semi-norm Gram matrix of sparse products of complete polynomial bases."""
    F = Fac(ctx, d=ctx.randint(1, 3), kinds=("poly",), cap=4,
            accept=lambda b: b.fam.kind in ("uniform", "normal", "lebesgue") and
            np.array_equal(b.ind, np.arange(len(b.ind))))
    ind = F.indices(ctx)
    H = tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(ind))
    ctx.case(bases=F.desc, ind=ind)
    G0, G1 = [], []
    for b in F.f:
        V, D = b.ref(b.x, 0), b.ref(b.x, 1)
        G0.append(V.T @ (b.w[:, None] * V))
        G1.append(D.T @ (b.w[:, None] * D))
    ref = 0
    for j in range(F.d):
        ref = ref + np.prod([(G1 if i == j else G0)[i][np.ix_(ind[:, i], ind[:, i])] for i in range(F.d)], axis=0)
    M = H.gram_matrix_h1_0()
    ctx.close("gram_matrix_h1_0", np.asarray(M), ref, rtol=1e-6, scale=max(np.max(np.abs(ref)), 1))
    k = [ctx.randint(0, 2) for _ in range(F.d)]
    x = F.points(5)
    D = H.derivative(k)
    dv = F.ref1(x, k)
    ctx.close("derivative", D.eval(x), F.prod(dv, ind), rtol=1e-6,
              scale=max(scale(dv), scale(F.ref1(x))) * 10)
    c = ctx.normal(len(ind))
    f = tensap.FunctionalBasisArray(c, H)
    Gk = []
    for b, n in zip(F.f, k):
        V = b.ref(b.x, n)
        Gk.append(V.T @ (b.w[:, None] * V))
    Gk = np.prod([g[np.ix_(ind[:, i], ind[:, i])] for i, g in enumerate(Gk)], axis=0)
    if D.is_orthonormal:
        ctx.close("derivative:is_orthonormal", Gk, np.eye(len(ind)), rtol=1e-6)
    try:
        nrm = f.derivative(k).norm_expectation()
    except NotImplementedError:
        pass
    else:
        ctx.close("array:derivative-norm", np.ravel(nrm), np.sqrt(max(c @ Gk @ c, 0)), rtol=1e-5, atol=1e-6,
                  scale=np.sqrt(np.max(np.abs(Gk))) * np.sum(np.abs(c)), shape=False)
    ctx.close("array:derivative", f.derivative(k).eval(x), (F.prod(dv, ind) @ c)[:, None], rtol=1e-6,
              scale=max(scale(dv), scale(F.ref1(x))) * 10 * np.sum(np.abs(c)))


def outputs(ctx):
    return ctx.choice([[1], [1], [2], [3], [2, 3], [1, 2]])


@P.scenario(160)
def arrays(ctx):
    F, kind, ind, H = build(ctx, d=None)
    sh = outputs(ctx)
    N, q = len(ind), int(np.prod(sh))
    c = ctx.normal([N] + sh)
    x = F.points(5)
    vals = F.ref1(x)
    V = F.prod(vals, ind)
    sc = scale(vals) * np.max(np.abs(c)) * N
    ctx.case(bases=F.desc, kind=kind, ind=ind, shape=sh)
    scalar = sh == [1]
    f = tensap.FunctionalBasisArray(c if not scalar or ctx.coin() else np.ravel(c), H,
                                    None if scalar and ctx.coin() else (sh if len(sh) > 1 or ctx.coin() else sh[0]))
    ref = np.tensordot(V, c, 1)
    ctx.close("eval", f.eval(x), ref, rtol=F.tol, scale=sc)
    if kind == "sparse" and all(b.maxder for b in F.f):
        k = [ctx.randint(0, 2) for _ in range(F.d)]
        dv = F.ref1(x, k)
        s2 = max(scale(dv), scale(vals)) * np.max(np.abs(c)) * N
        ctx.close("eval_derivative", f.eval_derivative(k, x), np.tensordot(F.prod(dv, ind), c, 1),
                  rtol=F.tol * 10, scale=s2)
        g = f.eval_gradient(x)
        for i in range(F.d):
            dv = F.ref1(x, [int(j == i) for j in range(F.d)])
            s2 = max(scale(dv), scale(vals)) * np.max(np.abs(c)) * N
            r = np.tensordot(F.prod(dv, ind), c, 1)
            ctx.close("eval_gradient", g[:, i], r[:, 0] if scalar else r, rtol=F.tol * 10, scale=s2)
    # algebra
    e = ctx.normal([N] + sh)
    g = tensap.FunctionalBasisArray(e, H, sh)
    for name, h, r in (("add", f + g, c + e), ("sub", f - g, c - e), ("neg", -f, -c), ("mul", f * 2.5, 2.5 * c),
                       ("chain", (f + g) - g * 2 - f, -e)):
        ctx.close(name, h.eval(x), np.tensordot(V, r, 1), rtol=F.tol, scale=sc * 4)
    ctx.close("dot", np.ravel(f.dot(g)), [np.sum(c * e)], rtol=1e-10, scale=N * q)
    ctx.close("dot:0", f.dot(g, 0), np.sum(c * e, 0, keepdims=True), rtol=1e-10, scale=N)
    ctx.close("norm", f.norm(), np.linalg.norm(c), rtol=1e-10)
    M = c.reshape(N, -1, order="F")
    for o, r in ((1, np.max(np.sum(np.abs(M), 0))), (np.inf, np.max(np.sum(np.abs(M), 1))),
                 (2, np.linalg.svd(M, compute_uv=False)[0])):
        ctx.close("norm:order", f.norm(o), r, rtol=1e-10)
    ctx.equal("storage", [int(f.storage())], [c.size])
    z = c * (ctx.rng.random(c.shape) < 0.5)
    ctx.equal("sparse_storage", int(tensap.FunctionalBasisArray(z, H, sh).sparse_storage()), int(np.count_nonzero(z)))
    ctx.equal("get_coefficients", np.asarray(f.get_coefficients()), c)
    if len(sh) == 1:
        A = ctx.normal((sh[0], ctx.randint(1, 4)))
        ctx.close("matmul", np.reshape(f.matmul(A).eval(x), (5, -1)), ref @ A, rtol=F.tol, scale=sc * 8)
        A = ctx.rng.standard_normal((sh[0], sh[0])) + 3 * np.eye(sh[0])
        ctx.close("matdiv", f.matdiv(A).eval(x), ref @ np.linalg.inv(A), rtol=F.tol, scale=sc * 8)
        s = f.sub_functional_basis()
        ctx.close("sub_functional_basis", s.eval(x), ref, rtol=F.tol, scale=sc)
    ctx.close("unchanged", f.eval(x), ref, rtol=F.tol, scale=sc)


@P.scenario(140)
def moments(ctx):
    orth = ctx.coin(0.75)
    F, kind, ind, H = build(ctx, d=ctx.randint(1, 3), kinds=("poly",) if orth else ("poly", "piecewise", "sub"),
                            cap=4, accept=is_prob if orth else has_mean)
    sh = outputs(ctx)
    N = len(ind)
    c = ctx.normal([N] + sh)
    f = tensap.FunctionalBasisArray(c, H, sh)
    ctx.case(bases=F.desc, kind=kind, ind=ind, shape=sh)
    m = np.prod([F.means(b)[ind[:, i]] for i, b in enumerate(F.f)], axis=0)
    mean = np.tensordot(m, c, 1)[None]
    sc = N * max(scale([b.ref(b.x, 0) for b in F.f]), 1)
    ctx.close("mean", f.mean(), mean, rtol=F.tol, scale=sc)
    ctx.close("expectation", f.expectation(), mean, rtol=F.tol, scale=sc)
    if all(b.kind == "poly" for b in F.f):
        RV = tensap.RandomVector([tensap.UniformRandomVariable(-1, 1)] * F.d)
        mm = []
        for b in F.f:
            y, w = composite([-1, 1], 16)
            mm.append(w @ b.ref(y, 0) / 2)
        r = np.tensordot(np.prod([mm[i][ind[:, i]] for i in range(F.d)], axis=0), c, 1)[None]
        ctx.close("mean:measure", f.mean(RV), r, rtol=F.tol * 10,
                  scale=N * max(scale([b.ref(composite([-1, 1], 16)[0], 0) for b in F.f]), 1))
    if not orth:
        return
    # second moments by a tensorised quadrature
    G = np.prod([b.gram()[np.ix_(ind[:, i], ind[:, i])] for i, b in enumerate(F.f)], axis=0)
    e = ctx.normal([N] + sh)
    g = tensap.FunctionalBasisArray(e, H, sh)

    def inner(a, b):
        return np.einsum("i...,ij,j...->...", a, G, b)[None]
    ctx.close("dot_product_expectation", f.dot_product_expectation(g), inner(c, e), rtol=F.tol * 10, scale=N)
    ctx.close("norm_expectation", f.norm_expectation(), np.sqrt(inner(c, c)), rtol=F.tol * 10, scale=N)
    ctx.close("variance", f.variance(), inner(c, c) - mean ** 2, rtol=F.tol * 10, scale=sc ** 2)
    if not (kind == "full" and False):
        v = inner(c, c) - mean ** 2
        if np.min(v) > 1e-3:
            ctx.close("std", f.std(), np.sqrt(v), rtol=F.tol * 100, scale=sc)
    n = ctx.randint(1, 4)
    y, x = f.random(n)
    r = np.tensordot(F.prod(F.ref1(x), ind), c, 1)
    ctx.close("random", y, r, rtol=F.tol * 10, scale=scale(F.ref1(x)) * N * 4)
    if kind == "sparse":
        ctx.equal("get_random_vector", f.get_random_vector().ndim(), F.d)


def cond_ref(F, ind, c, dims, means):
    """x_dims -> E(f | x_dims) for sorted dims."""
    rest = [i for i in range(F.d) if i not in dims]
    m = np.prod([means[i][ind[:, i]] for i in rest], axis=0) if rest else np.ones(len(ind))

    def fun(x):
        V = np.prod([F.f[i].ref(x[:, j], 0)[:, ind[:, i]] for j, i in enumerate(dims)], axis=0)
        return np.tensordot(V * m, c, 1)
    return fun


@P.scenario(160)
def conditional_expectations(ctx):
    F, kind, ind, H = build(ctx, d=ctx.randint(1, 4), kinds=("poly",), cap=3, accept=is_prob)
    sh = outputs(ctx)
    d, N = F.d, len(ind)
    c = ctx.normal([N] + sh)
    f = tensap.FunctionalBasisArray(c, H, sh)
    dims = np.sort(ctx.rng.permutation(d)[:ctx.randint(1, d)])
    ctx.case(bases=F.desc, kind=kind, ind=ind, shape=sh, dims=dims)
    form = ctx.choice(["list", "array", "bool", "int"])
    arg = {"list": [int(i) for i in dims], "array": dims, "bool": np.isin(np.arange(d), dims),
           "int": int(dims[0])}[form]
    if form == "int":
        dims = dims[:1]
    rest = [i for i in range(d) if i not in dims]
    means = [F.means(b) for b in F.f]
    extra = ()
    sc = N * 4 * max(scale([b.ref(b.x, 0) for b in F.f]), 1)
    if rest and ctx.coin(0.3):
        extra = (tensap.RandomVector([tensap.UniformRandomVariable(-1, 0.5)] * len(rest)),)
        y, w = composite([-1, 0.5], 16)
        means = [w @ b.ref(y, 0) / np.sum(w) for b in F.f]
        sc *= max(scale([b.ref(y, 0) for b in F.f]), 1)
    g = f.conditional_expectation(arg, *extra)
    x = F.points(5)[:, dims]
    sc *= max(scale([F.f[i].ref(x[:, j], 0) for j, i in enumerate(dims)]), 1)
    ref = cond_ref(F, ind, c, dims, means)(x)
    ctx.close("conditional_expectation", g.eval(x), ref, rtol=F.tol * 10, scale=sc)
    ctx.equal("conditional_expectation:ndim", int(g.basis.ndim()), len(dims))
    ctx.close("conditional_expectation:f-unchanged", f.data, c)
    # variance of conditional expectations by quadrature over the kept variables
    sets = [np.sort(ctx.rng.permutation(d)[:len(dims)]) for _ in range(ctx.randint(1, 3))]
    if ctx.coin(0.5):
        alpha = np.array(sets) if len(sets) > 1 or ctx.coin() else sets[0]
    else:
        sets = [np.flatnonzero(ctx.rng.random(d) < 0.5) for _ in sets]
        alpha = np.array([np.isin(np.arange(d), s) for s in sets])
    means = [F.means(b) for b in F.f]
    mean = np.tensordot(np.prod([means[i][ind[:, i]] for i in range(d)], axis=0), c, 1)
    got = f.variance_conditional_expectation(alpha)
    ctx.equal("variance_conditional_expectation:shape", np.shape(got), [len(sets)] + sh)
    for k, s in enumerate(sets):
        if len(s) == 0:
            ref = 0 * mean
        else:
            if len(s) > 2 and np.prod([F.f[i].x.size for i in s]) > 40000:
                continue
            grid = np.array(list(itertools.product(*[F.f[i].x for i in s])))
            wts = np.prod(np.array(list(itertools.product(*[F.f[i].w for i in s]))), axis=1)
            v = cond_ref(F, ind, c, s, means)(grid)
            ref = np.tensordot(wts, v ** 2, 1) - mean ** 2
        ctx.close("variance_conditional_expectation", got[k], ref, rtol=F.tol * 10,
                  scale=(N * 4 * max(scale([np.sqrt(np.abs(b.gram())) for b in F.f]), 1)) ** 2)


@P.scenario(80)
def projection_between_bases(ctx):
    F = Fac(ctx, d=ctx.randint(1, 3), cap=4)
    ind = F.indices(ctx)
    sh = outputs(ctx)
    c = ctx.normal([len(ind)] + sh)
    f = tensap.FunctionalBasisArray(c, tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(ind)), sh)
    full = F.full_indices()
    target = ctx.choice(["full", "sparse", "smaller"])
    ctx.case(bases=F.desc, ind=ind, target=target)
    if target == "full":
        H, j2 = tensap.FullTensorProductFunctionalBasis(F.bases), full
    else:
        extra = full[ctx.rng.permutation(len(full))[:ctx.randint(1, len(full))]]
        if target == "sparse":
            extra = np.concatenate((ind, extra))
        j2 = np.unique(extra, axis=0)
        j2 = j2[ctx.rng.permutation(len(j2))]
        if len(j2) < len(ind):
            raise Skip()
        H = tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(j2))
    g = f.projection(H)
    kept = np.array([any(np.array_equal(r, s) for s in j2) for r in ind])
    x = F.points(5)
    vals = F.ref1(x)
    ref = np.tensordot(F.prod(vals, ind)[:, kept], c[kept], 1)
    ctx.close("projection", g.eval(x), ref, rtol=F.tol, scale=scale(vals) * len(ind) * 4)
    ctx.equal("projection:cardinal", int(g.basis.cardinal()), len(j2))


def target_function(ctx, d, q):
    a = ctx.rng.uniform(-0.6, 0.6, (d, max(q, 1)))
    return (lambda x: np.cos(x @ a + 1)) if q else (lambda x: np.cos(x @ a + 1)[:, 0])


@P.scenario(100)
def fits(ctx):
    """Interpolation and projections on tensor-product bases."""
    how = ctx.choice(["projection", "least_squares", "tp_projection", "interpolate", "tp_interpolation",
                      "sparse_tp_interpolation", "magic"])
    d = ctx.randint(1, 3)
    F = Fac(ctx, d=d, kinds=("poly", "poly", "piecewise"), cap=4,
            accept=lambda b: is_prob(b) and b.fam.kind != "empirical" if b.kind == "poly" else how != "magic")
    full = F.full_indices()
    ind = F.indices(ctx)
    ctx.case(how=how, bases=F.desc, ind=ind)
    q = ctx.choice([0, 2]) if how in ("projection", "least_squares", "interpolate") else 0
    x = F.points(5)
    vals = F.ref1(x)
    grid = np.array(list(itertools.product(*[b.x for b in F.f])))
    if len(grid) > 15000:
        raise Skip()
    W = np.prod(np.array(list(itertools.product(*[b.w for b in F.f]))), axis=1)
    inside = ctx.coin(0.4)
    if inside:
        ci = ctx.normal((len(ind), max(q, 1)))
        fun = (lambda t: F.prod(F.ref1(np.atleast_2d(t)), ind) @ ci) if q else \
            (lambda t: (F.prod(F.ref1(np.atleast_2d(t)), ind) @ ci)[:, 0])
    else:
        fun = target_function(ctx, d, q)
    S = tensap.SparseTensorProductFunctionalBasis(F.bases, tensap.MultiIndices(ind))
    H = tensap.FullTensorProductFunctionalBasis(F.bases)
    tol = F.tol * 10
    sc = scale(vals) * 20 * len(full)
    Y = fun(grid).reshape(len(grid), -1)
    if how in ("projection", "least_squares"):
        V = F.prod(F.ref1(grid), ind)
        c = V.T @ (W[:, None] * Y)
        G = tensap.IntegrationRule(grid, W) if d > 1 else tensap.IntegrationRule(grid, W)
        name = "projection" if how == "projection" else "least_squares_projection"
        f = getattr(S, name)(fun if ctx.coin() else (Y if q else Y[:, 0]), G)
        ctx.close(name, np.reshape(f.eval(x), (5, -1)), F.prod(vals, ind) @ c, rtol=tol, scale=sc)
        ctx.close(name + ":optimal", V.T @ (W[:, None] * (Y - np.reshape(f.eval(grid), Y.shape))),
                  0 * c, atol=tol * sc * np.sum(W))
    elif how == "tp_projection":
        rules = [tensap.IntegrationRule(b.x[:, None], b.w) for b in F.f]
        I0 = tensap.FullTensorProductIntegrationRule([r.points for r in rules], [r.weights for r in rules])
        u = tensap.UserDefinedFunction(lambda t: fun(np.atleast_2d(t)), d)
        u.evaluation_at_multiple_points = True
        f, out = H.tensor_product_projection(u, I0)
        V = F.prod(F.ref1(grid), full)
        c = V.T @ (W[:, None] * Y)
        ctx.close("tensor_product_projection", np.ravel(f.eval(x)), (F.prod(vals, full) @ c)[:, 0], rtol=tol, scale=sc)
        ctx.equal("tensor_product_projection:evaluations", int(out["number_of_evaluations"]), len(grid))
        # any rule with positive weights: the best approximation in the semi-norm it defines
        pts, wts = [], []
        for b, n in zip(F.f, F.n):
            for _ in range(30):
                p = b.pts(n + ctx.randint(1, 3))
                if np.linalg.cond(b.ref(p, 0)) < 1e3:
                    break
            else:
                raise Skip()
            pts.append(p)
            wts.append(ctx.rng.uniform(0.2, 2, p.size))
        f, out = H.tensor_product_projection(u, tensap.FullTensorProductIntegrationRule([p[:, None] for p in pts], wts))
        X = np.array(list(itertools.product(*pts)))
        w2 = np.prod(np.array(list(itertools.product(*wts))), axis=1)
        V = F.prod(F.ref1(X), full)
        r = fun(X) - np.ravel(f.eval(X))
        ctx.close("tensor_product_projection:optimal", V.T @ (w2 * r), np.zeros(len(full)), rtol=1e-7,
                  scale=np.max(np.abs(V).T @ w2) * max(np.max(np.abs(fun(X))), np.max(np.abs(V)), 1))
        ctx.equal("tensor_product_projection:evaluations", int(out["number_of_evaluations"]), len(X))
    elif how == "interpolate":
        B, idx = (S, ind) if ctx.coin() else (H, full)
        for _ in range(30):
            pts = F.points(len(idx), 0)
            L = F.prod(F.ref1(pts), idx)
            if np.linalg.cond(L) < 1e5:
                break
        else:
            raise Skip()
        f = B.interpolate(fun if ctx.coin() else fun(pts), pts)
        ctx.close("interpolate", np.reshape(f.eval(pts), (len(idx), -1)), fun(pts).reshape(len(idx), -1), rtol=1e-5,
                  scale=scale(F.ref1(pts)))
        ref = F.prod(vals, idx) @ np.linalg.solve(L, fun(pts).reshape(len(idx), -1))
        ctx.close("interpolate:values", np.reshape(f.eval(x), (5, -1)), ref, rtol=1e-5,
                  scale=max(np.max(np.abs(ref)), scale(vals), 1))
    elif how == "tp_interpolation":
        pts = []
        for b, n in zip(F.f, F.n):
            for _ in range(30):
                p = b.pts(n)
                if np.linalg.cond(b.ref(p, 0)) < 1e3:
                    break
            else:
                raise Skip()
            pts.append(p)
        own = ctx.coin(0.5) or any(b.kind == "piecewise" for b in F.f)
        args = () if own else ([p[:, None] for p in pts],)
        asf = ctx.choice(["function", "tensor"]) if not own else "function"
        src = tensap.FunctionalBases if ctx.coin(0.3) else None
        obj = F.bases if src else H
        if own and any(b.kind == "poly" and b.fam.kind == "discrete" for b in F.f):
            raise Skip()
        if asf == "tensor":
            g = F.bases.interpolation_points([p[:, None] for p in pts])
            T = fun(np.array([r[::-1] for r in itertools.product(*[np.ravel(t) for t in g[::-1]])]))
            arg = tensap.FullTensor(T, d, F.n)
        else:
            arg = fun
        f, out = obj.tensor_product_interpolation(arg, *args)
        g = [np.ravel(t) for t in out["grid"].grids]
        ctx.equal("tp_interpolation:grid", [t.size for t in g], F.n)
        if not own:
            for a, p in zip(g, pts):
                ctx.close("tp_interpolation:points", np.sort(a), np.sort(p))
        L = [b.ref(t, 0) for b, t in zip(F.f, g)]
        if max(np.linalg.cond(l) for l in L) > 1e4:
            raise Skip()
        X = np.array([r[::-1] for r in itertools.product(*g[::-1])])
        ctx.close("tp_interpolation:reproduces", np.ravel(f.eval(X)), fun(X), rtol=1e-5,
                  scale=scale([l for l in L]))
        if inside:
            ctx.close("tp_interpolation:exact", np.ravel(f.eval(x)), fun(x), rtol=1e-5,
                      scale=sc * max(np.linalg.cond(l) for l in L))
        if asf == "function":
            ctx.equal("tp_interpolation:evaluations", int(out["number_of_evaluations"]), int(np.prod(F.n)))
    elif how == "sparse_tp_interpolation":
        m = tensap.MultiIndices(ind).envelope(np.zeros(len(ind))) if False else None
        mx = tensap.MultiIndices.with_bounded_norm(d, 1, ctx.randint(0, min(F.n) - 1))
        S = tensap.SparseTensorProductFunctionalBasis(F.bases, mx)
        idx = np.asarray(mx.array)
        if any(b.kind == "piecewise" or not np.array_equal(b.ind, np.arange(len(b.ind))) for b in F.f):
            raise Skip()
        if any(b.fam.kind == "discrete" and b.fam.x.size < n for b, n in zip(F.f, F.n)):
            raise Skip()
        cand = [b.pts(30)[:, None] for b in F.f]
        cf = ctx.normal(len(idx))
        fun2 = lambda t: F.prod(F.ref1(t), idx) @ cf
        f, out = S.tensor_product_interpolation(fun2, cand)
        ctx.equal("sparse_tp_interpolation:evaluations", int(out["number_of_evaluations"]), len(idx))
        ctx.close("sparse_tp_interpolation:exact", np.ravel(f.eval(x)), fun2(x), rtol=1e-4,
                  scale=sc * max(1, np.max(np.abs(cf))))
    else:
        for b in F.f:
            if b.fam.kind == "discrete":
                raise Skip()
        B, idx = (S, ind) if ctx.coin() else (H, full)
        cand = F.points(8 * len(idx) + 5, 0)
        V = F.prod(F.ref1(cand), idx)
        if np.linalg.cond(V) > 1e5:
            raise Skip()
        pts, loc, out = B.magic_points(cand)
        ctx.equal("magic_points:number", len(np.unique(loc)), len(idx))
        ctx.close("magic_points:points", pts, cand[np.ravel(loc)])
        L = F.prod(F.ref1(pts), idx)
        leb = np.max(np.sum(np.abs(V @ np.linalg.inv(L)), axis=1))
        ctx.close("magic_points:lebesgue", out["lebesgue_constant"], leb, rtol=1e-5)


@P.scenario(60)
def rules(ctx):
    """Tensor product rules used by projections, and default interpolation points."""
    d = ctx.randint(1, 2)
    F = Fac(ctx, d=d, kinds=("poly",), cap=4, accept=lambda b: is_prob(b) and b.fam.kind in ("uniform", "normal"))
    full = F.full_indices()
    H = tensap.FullTensorProductFunctionalBasis(F.bases)
    ctx.case(bases=F.desc)
    fun = target_function(ctx, d, 0)
    calls = []

    def rec(t):
        calls.append(np.array(t))
        return fun(t)
    f = H.interpolate(rec)
    pts = calls[-1]
    L = F.prod(F.ref1(pts), full)
    if np.linalg.cond(L) > 1e5:
        raise Skip()
    ctx.close("interpolate:default-points", np.ravel(f.eval(pts)), fun(pts), rtol=1e-6, scale=scale(F.ref1(pts)))
    points, grid = H.interpolation_points([b.pts(25)[:, None] for b in F.f])
    ref = np.array([r[::-1] for r in itertools.product(*[np.ravel(g) for g in grid[::-1]])])
    ctx.close("interpolation_points:grid", points, ref)
    O = H.orthonormalize()
    x = F.points(4)
    ctx.close("orthonormalize", np.abs(O.eval(x)), np.abs(F.prod(F.ref1(x), full)), rtol=1e-5,
              scale=scale(F.ref1(x)))


@P.scenario(80)
def other_law(ctx):
    """Moments of functional arrays under another law than the one of their bases."""
    one = ctx.coin(0.25)
    if one:
        b = B1(ctx, ("poly",))
        if not is_prob(b) or b.ref(b.x[:1], 0).shape[1] < 2:
            raise Skip()
        facs, d, H = [b], 1, b.basis
        ind = np.arange(b.ref(b.x[:1], 0).shape[1])[:, None]
    else:
        F, kind, ind, H = build(ctx, d=ctx.randint(1, 3), kinds=("poly",), cap=4, accept=is_prob)
        facs, d = F.f, F.d
    sh = outputs(ctx)
    N = len(ind)
    c, e = ctx.normal([N] + sh), ctx.normal([N] + sh)
    f = tensap.FunctionalBasisArray(c, H, sh)
    g = tensap.FunctionalBasisArray(e, H, sh)
    lim = [sorted(ctx.rng.uniform(-1.5, 1.5, 2)) for _ in range(d)]
    same = ctx.coin()
    if same:
        lim = lim[:1] * d
    Xs = [tensap.UniformRandomVariable(*t) for t in lim]
    law = Xs[0] if one or (same and ctx.coin()) else tensap.RandomVector(Xs)
    ctx.case(bases=[b.desc for b in facs], ind=ind, shape=sh, law=type(law).__name__)
    G, m, sc = 1.0, 1.0, 1.0
    for i, b in enumerate(facs):
        y, w = composite(lim[i], 24)
        V = b.ref(y, 0)[:, ind[:, i]]
        w = w / np.sum(w)
        G = G * (V.T @ (w[:, None] * V))
        m = m * (w @ V)
        sc *= max(np.max(np.abs(V)), 1.0)
    sc *= 4 * N
    tol = 10 * max(b.tol for b in facs)

    def inner(u, v):
        return np.einsum("i...,ij,j...->...", u, G, v)[None]
    mean = np.tensordot(m, c, 1)[None]
    ctx.close("law:mean", f.mean(law), mean, rtol=tol, scale=sc)
    ctx.close("law:dot_product_expectation", f.dot_product_expectation(g, None, law), inner(c, e), rtol=tol, scale=sc ** 2)
    ctx.close("law:variance", f.variance(law), inner(c, c) - mean ** 2, rtol=tol, scale=sc ** 2)
    q = inner(c, c)
    if np.min(q) > 1e-4 * sc ** 2:
        ctx.close("law:norm", f.norm_expectation(law), np.sqrt(q), rtol=tol * 100, scale=sc)
    if np.min(q - mean ** 2) > 1e-4 * sc ** 2:
        ctx.close("law:std", f.std(law), np.sqrt(q - mean ** 2), rtol=tol * 100, scale=sc)
    x = tensap.FunctionalBasisArray(c, H, sh)
    ctx.check("law:unchanged", np.array_equal(x.data, f.data) and H == f.basis)
