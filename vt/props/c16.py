import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip
from vt.props.c15 import Fac, has_mean, is_prob, scale
from vt.props.c08 import dense
from vt.props.c14 import composite
from vt.tbtmon import check_rep

P = Prop("C16", "Functional tensors agree with their coefficients and basis functions",
         "functional tensors in dimension 1-4 over mixed one-dimensional bases, coefficients in full, canonical, "
         "tree-based (random trees, active nodes, ranks, root ranks), diagonal and sparse format, with extra "
         "non-functional dimensions in any position for full coefficients; dimension subsets as integers, lists, "
         "arrays, booleans. Reference: dense coefficients contracted with the factors' independent values and "
         "quadratures. Non-trivial: more than one coefficient; distinct by format, shapes, bases and dimensions.")

FORMATS = ["full", "full", "canonical", "tbt", "tbt", "sparse", "diagonal"]


class FT:
    """A functional tensor with its dense coefficients and factor references."""

    def __init__(self, ctx, d=None, kinds=("poly", "poly", "piecewise", "bspline", "user", "sub"), cap=4,
                 accept=lambda b: True, formats=FORMATS, extra=0.25, F=None):
        fmt = ctx.choice(formats)
        if F is None:
            if d is None:
                d = ctx.randint(1, 4)
            if fmt == "tbt":
                d = max(d, 2)
            if fmt == "diagonal":
                n = ctx.randint(1, 3)
                F = Fac(ctx, d, kinds, cap, lambda b: accept(b) and b.ref(b.x[:1], 0).shape[1] == n)
            else:
                F = Fac(ctx, d, kinds, cap, accept)
        elif fmt == "diagonal" and len(set(F.n)) > 1 or fmt == "tbt" and F.d == 1:
            fmt = "full"
        self.F, self.d, self.fmt = F, F.d, fmt
        d = F.d
        self.fdims = list(range(d))
        self.extra = []
        self.net = None
        if fmt == "full":
            if ctx.coin(extra):
                self.extra = [ctx.randint(1, 3) for _ in range(ctx.randint(1, 2))]
            order = d + len(self.extra)
            self.fdims = sorted(int(i) for i in ctx.rng.permutation(order)[:d])
            sh, k, e = [], 0, 0
            for i in range(order):
                if i in self.fdims:
                    sh.append(F.n[k])
                    k += 1
                else:
                    sh.append(self.extra[e])
                    e += 1
            self.c = ctx.normal(sh)
            self.t = tensap.FullTensor(self.c.copy())
        elif fmt == "canonical":
            r = ctx.randint(1, 4)
            U = [ctx.normal((n, r)) for n in F.n]
            w = ctx.normal(r)
            self.c = np.zeros(F.n)
            for a in range(r):
                z = w[a]
                for u in U:
                    z = np.multiply.outer(z, u[:, a])
                self.c = self.c + z
            self.t = tensap.CanonicalTensor([u.copy() for u in U], w.copy())
        elif fmt == "tbt":
            rr = ctx.choice([1, 1, 1, 2, 3])
            self.net = gen.random_tbt(ctx, d=d, shape=F.n, root_rank=rr)
            self.c = self.net.dense
            self.t = self.net.build()
            if rr > 1:
                self.extra = [rr]
        elif fmt == "sparse":
            ind = F.indices(ctx)
            v = ctx.normal(len(ind))
            self.c = np.zeros(F.n)
            self.c[tuple(ind.T)] = v
            self.t = tensap.SparseTensor(v, tensap.MultiIndices(ind), list(F.n))
        else:
            v = ctx.normal(F.n[0])
            self.c = np.zeros(F.n)
            self.c[tuple([np.arange(F.n[0])] * d)] = v
            self.t = tensap.DiagonalTensor(v, d)
        self.native = fmt != "full" or self.fdims == list(range(self.c.ndim))
        form = ctx.choice([list, np.array])
        args = () if fmt != "full" or self.native and ctx.coin() else (form(self.fdims),)
        self.f = tensap.FunctionalTensor(self.t, F.bases, *args)
        self.mag = self.net.mag * self.c.size if self.net is not None else np.sum(np.abs(self.c)) + 1e-3
        ctx.case(bases=F.desc, format=fmt, shape=self.c.shape, fdims=self.fdims,
                 net=self.net.describe() if self.net else None)
        if self.c.size == 1:
            ctx.trivial()

    def tens(self, vals, c=None):
        """Sum over the coefficients, row by row of the factor values."""
        return gen.eval_diag_product(self.c if c is None else c, vals, self.fdims)

    def grid(self, vals):
        return gen.mode_products(self.c, vals, self.fdims)

    def plain(self):
        return self.c.ndim == self.d and self.fdims == list(range(self.d))


def val(t):
    return dense(t)


def twin(ctx, T):
    """Another functional tensor over the same bases, same format and same shape."""
    U = FT(ctx, F=T.F, formats=["canonical" if T.fmt == "canonical" else "full"], extra=0)
    U.fdims, U.extra, U.fmt = T.fdims, T.extra, T.fmt
    rng = ctx.rng
    if T.fmt == "full":
        U.c = ctx.normal(T.c.shape)
        U.t = tensap.FullTensor(U.c.copy())
    elif T.fmt == "tbt":
        U.net = gen.random_tbt(ctx, tm=T.net.tm, shape=T.F.n, root_rank=T.net.root_rank, active=T.net.active)
        U.c, U.t = U.net.dense, U.net.build()
    elif T.fmt == "sparse":
        ind = T.F.indices(ctx)
        v = rng.standard_normal(len(ind))
        U.c = np.zeros(T.F.n)
        U.c[tuple(ind.T)] = v
        U.t = tensap.SparseTensor(v, tensap.MultiIndices(ind), list(T.F.n))
    elif T.fmt == "diagonal":
        v = rng.standard_normal(T.F.n[0])
        U.c = np.zeros(T.F.n)
        U.c[tuple([np.arange(T.F.n[0])] * T.d)] = v
        U.t = tensap.DiagonalTensor(v, T.d)
    U.mag = U.net.mag * U.c.size if U.net is not None else np.sum(np.abs(U.c)) + 1e-3
    U.f = tensap.FunctionalTensor(U.t, T.F.bases, T.fdims)
    ctx.case(format=T.fmt, shape=T.c.shape, fdims=T.fdims, net=T.net.describe() if T.net else None)
    return U


def kept(ctx, T, x, vals):
    ctx.close("unchanged", val(T.f.eval(x)), T.tens(vals), rtol=T.F.tol, scale=scale(vals) * T.mag)


@P.scenario(220)
def evaluation(ctx):
    T = FT(ctx)
    F, f = T.F, T.f
    n = ctx.choice([1, 2, 5, 7])
    x = F.points(n)
    vals = F.ref1(x)
    ref = T.tens(vals)
    sc = scale(vals) * T.mag
    if n == 1 and T.fmt == "full" and T.extra:
        ref = ref[0]
    got = f.eval(x) if T.extra or ctx.coin() else f(x)
    ctx.close("eval:" + T.fmt, val(got), ref, rtol=F.tol, scale=sc)
    e = tensap.FunctionalTensor(T.t, F.bases.eval(x), T.fdims)
    ctx.check("evaluated-bases", e.evaluated_bases)
    ctx.close("eval:evaluated-bases", val(e.eval(None)), ref, rtol=F.tol, scale=sc)
    ctx.close("eval_with_bases_evals", val(f.eval_with_bases_evals(F.bases.eval(x))), ref, rtol=F.tol, scale=sc)
    if all(b.maxder for b in F.f):
        k = [ctx.randint(0, 2) for _ in range(T.d)]
        dv = F.ref1(x, k)
        s2 = max(scale(dv), scale(vals)) * T.mag
        r = T.tens(dv)
        r = r.reshape(ref.shape)
        ctx.close("eval_derivative", val(f.eval_derivative(k, x)), r, rtol=F.tol * 10, scale=s2)
        if T.fmt in ("full", "canonical", "tbt", "diagonal", "sparse") and not T.extra:
            g = np.asarray(f.eval_gradient(x))
            ctx.equal("eval_gradient:shape", g.shape, (n, T.d))
            for i in range(T.d):
                dv = F.ref1(x, [int(j == i) for j in range(T.d)])
                ctx.close("eval_gradient", g[:, i], T.tens(dv), rtol=F.tol * 10,
                          scale=max(scale(dv), scale(vals)) * T.mag)
    ctx.close("eval:again", val(f.eval(x)), ref, rtol=F.tol, scale=sc)
    ctx.close("coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)


@P.scenario(140)
def on_grids(ctx):
    T = FT(ctx)
    F, f, d = T.F, T.f, T.d
    m = [ctx.randint(1, 4) for _ in range(d)]
    xs = [b.points(k) for b, k in zip(F.f, m)]
    vals = [b.ref(x, 0) for b, x in zip(F.f, xs)]
    sc = scale(vals) * T.mag
    arg = [x[:, None] for x in xs] if ctx.coin() else xs
    if T.plain():
        got = f.eval_on_grid(arg)
        ctx.close("eval_on_grid:" + T.fmt, val(got), T.grid(vals), rtol=F.tol, scale=sc)
        if T.fmt == "tbt":
            check_rep(ctx, got)
    elif T.fmt == "tbt" and T.extra:
        got = f.eval_on_grid(arg)
        ctx.close("eval_on_grid:root-rank", val(got), T.grid(vals), rtol=F.tol, scale=sc)
    else:
        got = f.eval_on_grid(arg)
        ctx.close("eval_on_grid:extra", val(got), T.grid(vals), rtol=F.tol, scale=sc)
    if d > 1:
        # some of the variables only
        dims = np.sort(ctx.rng.permutation(d)[:ctx.randint(1, d - 1)])
        rest = [i for i in range(d) if i not in dims]
        g = f.eval_on_grid([arg[i] for i in dims], dims if ctx.coin() else [int(i) for i in dims])
        y = np.stack([F.f[i].points(3) for i in rest], axis=1)
        ctx.equal("eval_on_grid:partial-fdims", list(g.fdims), [T.fdims[i] for i in rest])
        ref = gen.mode_products(T.c, [vals[i] for i in dims], [T.fdims[i] for i in dims])
        ctx.close("eval_on_grid:partial-coefficients", val(g.tensor), ref, rtol=F.tol, scale=sc)
        w = [F.f[i].ref(y[:, j], 0) for j, i in enumerate(rest)]
        if T.fmt in ("full", "canonical"):
            r = gen.eval_diag_product(ref, w, [T.fdims[i] for i in rest])
            if T.fmt != "full":
                r = np.moveaxis(r, 0, rest[0])
            h = g.eval(y)
            ctx.close("eval_on_grid:partial-eval", val(getattr(h, "tensor", h)), r, rtol=F.tol, scale=sc * scale(w))
    if T.plain() and T.fmt in ("full", "canonical", "tbt"):
        G = tensap.FullTensorGrid([x[:, None] for x in xs])
        if d > 1:
            got = f.eval_on_tensor_grid(G)
            ctx.close("eval_on_tensor_grid", val(got), T.grid(vals), rtol=F.tol, scale=sc)
    x = F.points(3)
    ctx.close("coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)


@P.scenario(140)
def partial_evaluation(ctx):
    T = FT(ctx, d=ctx.randint(2, 4), formats=["full", "full", "canonical"])
    F, f, d = T.F, T.f, T.d
    dims = np.sort(ctx.rng.permutation(d)[:ctx.randint(1, d - 1)])
    rest = [i for i in range(d) if i not in dims]
    n = ctx.choice([1, 2, 4])
    x = F.points(n)[:, dims]
    ctx.case(dims=dims, n=n)
    v = [F.f[i].ref(x[:, j], 0) for j, i in enumerate(dims)]
    g = f.eval(x, dims if ctx.coin() else [int(i) for i in dims])
    fd = [T.fdims[i] for i in dims]
    coef = gen.eval_diag_product(T.c, v, fd)      # samples first
    remaining = [k for k in range(T.c.ndim) if k not in fd]
    order = list(remaining)
    first = 0 if T.fmt == "full" else fd[0]      # position of the samples
    if n > 1:
        coef = np.moveaxis(coef, 0, first)
        order.insert(first, "x")
    else:
        coef = coef[0]
    sc = scale(v) * T.mag
    ctx.close("partial:coefficients", val(g.tensor), coef, rtol=F.tol, scale=sc)
    ctx.equal("partial:fdims", list(g.fdims), [order.index(T.fdims[i]) for i in rest])
    ctx.equal("partial:bases", g.bases.cardinals(), [F.n[i] for i in rest])
    # evaluating the rest at as many points gives all the pairs
    m = ctx.choice([2, 3])
    y = np.stack([F.f[i].points(m) for i in rest], axis=1)
    w = [F.f[i].ref(y[:, j], 0) for j, i in enumerate(rest)]
    pos = [order.index(T.fdims[i]) for i in rest]
    r = gen.eval_diag_product(coef, w, pos)
    if T.fmt != "full":
        r = np.moveaxis(r, 0, pos[0])
    h = g.eval(y)
    ctx.close("partial:eval-rest", val(getattr(h, "tensor", h)), r, rtol=F.tol, scale=sc * scale(w))
    ctx.close("coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)
    ctx.equal("fdims-unchanged", list(f.fdims), T.fdims)


@P.scenario(120)
def means(ctx):
    T = FT(ctx, kinds=("poly", "poly", "piecewise", "sub"), accept=has_mean)
    F, f, d = T.F, T.f, T.d
    m = [F.means(b) for b in F.f]
    args = ()
    sc = T.mag * max(scale([b.ref(b.x, 0) for b in F.f]), 1)
    if all(b.kind == "poly" for b in F.f) and ctx.coin(0.4):
        args = (tensap.RandomVector([tensap.UniformRandomVariable(-1, 0.5)] * d),)
        y, w = composite([-1, 0.5], 16)
        m = [w @ b.ref(y, 0) / np.sum(w) for b in F.f]
        sc = T.mag * max(scale([b.ref(y, 0) for b in F.f]), 1)
    ref = T.tens([v[None] for v in m])[0]
    got = f.mean(*args)
    ctx.close("mean:" + T.fmt, val(got), ref, rtol=F.tol * 10, scale=sc)
    ctx.close("expectation", val(f.expectation(*args)), ref, rtol=F.tol * 10, scale=sc)
    ctx.close("coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)


def smooth(b):
    """Every degree exists and the degrees are small enough for an exact product."""
    return b.fam.kind in ("uniform", "normal", "lebesgue") and max(b.ind) <= 4


def quad_inner(F, c, e):
    G = [b.gram() for b in F.f]
    return float(np.sum(gen.mode_products(c, G, range(F.d)) * e))


@P.scenario(160)
def second_moments(ctx):
    prob = ctx.coin(0.7)
    T = FT(ctx, kinds=("poly",), accept=is_prob if prob else lambda b: b.tol < 1e-6, extra=0,
           formats=["full", "canonical", "tbt", "diagonal"])
    F, f, d = T.F, T.f, T.d
    if T.extra:
        raise Skip("vector-valued")
    sc = T.mag ** 2 * max(np.prod([np.max(np.abs(b.gram())) for b in F.f]), 1)
    ref = quad_inner(F, T.c, T.c)
    if ref < 1e-6 * sc:
        raise Skip("cancellation")
    ctx.close("norm:" + T.fmt, f.norm(), np.sqrt(ref), rtol=F.tol * 10, scale=np.sqrt(sc))
    U = twin(ctx, T)
    s2 = T.mag * U.mag * sc / T.mag ** 2
    ctx.close("dot_product_expectation", f.dot_product_expectation(U.f), quad_inner(F, T.c, U.c),
              rtol=F.tol * 10, scale=s2)
    if prob:
        m = float(T.tens([F.means(b)[None] for b in F.f])[0])
        ctx.close("variance", f.variance(), ref - m ** 2, rtol=F.tol * 10, scale=sc)
        if ref - m ** 2 > 1e-2 * sc:
            ctx.close("std", f.std(), np.sqrt(ref - m ** 2), rtol=F.tol * 10, scale=np.sqrt(sc))
    if ctx.coin(0.5):  # with respect to another law
        ends = [(-1.0, 0.5), (0.0, 2.0), (-0.5, 1.5)]
        ends = [ctx.choice(ends) for _ in range(d)]
        X = tensap.RandomVector([tensap.UniformRandomVariable(*e) for e in ends])
        G, M = [], []
        for b, e in zip(F.f, ends):
            y, w = composite(list(e), 20)
            V, w = b.ref(y, 0), w / np.sum(w)
            G.append(V.T @ (w[:, None] * V))
            M.append(w @ V)
        sc = max(np.prod([np.max(np.abs(g)) for g in G]), 1)
        other = lambda x, y: float(np.sum(gen.mode_products(x, G, range(d)) * y))
        ctx.close("other-law:dot_product_expectation", f.dot_product_expectation(U.f, None, X), other(T.c, U.c),
                  rtol=F.tol * 100, scale=sc * T.mag * U.mag)
        ref = other(T.c, T.c)
        if ref > 1e-6 * sc * T.mag ** 2:
            ctx.close("other-law:norm", f.norm(X), np.sqrt(ref), rtol=F.tol * 100, scale=np.sqrt(sc) * T.mag)
        m = float(T.tens([v[None] for v in M])[0])
        ctx.close("other-law:variance", f.variance(X), ref - m ** 2, rtol=F.tol * 100, scale=sc * T.mag ** 2)
    ctx.close("coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)


@P.scenario(160)
def conditional_expectations(ctx):
    T = FT(ctx, kinds=("poly",), accept=is_prob, cap=3, extra=0,
           formats=["full", "canonical", "tbt", "tbt"])
    F, f, d = T.F, T.f, T.d
    if T.extra:
        raise Skip("vector-valued")
    dims = np.sort(ctx.rng.permutation(d)[:ctx.randint(1, d)])
    if T.fmt == "tbt" and len(dims) == 1 and d > 1:
        dims = np.sort(ctx.rng.permutation(d)[:2])
    form = ctx.choice(["list", "array", "bool", "int"])
    if form == "int" and len(dims) > 1:
        form = "list"
    arg = {"list": [int(i) for i in dims], "array": dims, "bool": np.isin(np.arange(d), dims),
           "int": int(dims[0])}[form]
    if form in ("list", "array") and len(dims) > 1 and ctx.coin(0.5):
        # the dimensions designate a set: their order is irrelevant
        perm = ctx.rng.permutation(len(dims))
        arg = dims[perm] if form == "array" else [int(i) for i in dims[perm]]
    rest = [i for i in range(d) if i not in dims]
    ctx.case(dims=dims, form=form)
    m = [F.means(b) for b in F.f]
    extra = ()
    sc = T.mag * max(scale([b.ref(b.x, 0) for b in F.f]), 1)
    if rest and ctx.coin(0.3):
        extra = (tensap.RandomVector([tensap.UniformRandomVariable(-1, 0.5)] * len(rest)),)
        y, w = composite([-1, 0.5], 16)
        m = [w @ b.ref(y, 0) / np.sum(w) for b in F.f]
        sc *= max(scale([b.ref(y, 0) for b in F.f]), 1)
    g = f.conditional_expectation(arg, *extra)
    c = gen.mode_products(T.c, [m[i][None] for i in rest], rest)
    c = c.reshape([F.n[i] for i in dims])
    x = F.points(4)[:, dims]
    v = [F.f[i].ref(x[:, j], 0) for j, i in enumerate(dims)]
    ref = gen.eval_diag_product(c, v, range(len(dims)))
    ctx.close("conditional_expectation:" + T.fmt, np.ravel(val(g.eval(x))), ref, rtol=F.tol * 10,
              scale=sc * max(scale(v), 1))
    ctx.equal("conditional_expectation:dim", int(g.dim), len(dims))
    ctx.equal("conditional_expectation:measure", g.measure.ndim(), len(dims))
    mean = float(T.tens([F.means(b)[None] for b in F.f])[0])
    ctx.close("conditional_expectation:none", f.conditional_expectation([]), mean, rtol=F.tol * 10, scale=sc)
    # variances of conditional expectations
    k = len(dims)
    sets = [np.sort(ctx.rng.permutation(d)[:k]) for _ in range(ctx.randint(1, 3))]
    if T.fmt == "tbt" and k == 1:
        return
    if ctx.coin(0.5):
        sets = [s[ctx.rng.permutation(k)] for s in sets]
        alpha = np.array(sets) if len(sets) > 1 or ctx.coin() else sets[0]
    else:
        alpha = np.array([np.isin(np.arange(d), s) for s in sets])
    got = f.variance_conditional_expectation(alpha)
    ctx.equal("variance_conditional_expectation:shape", np.shape(got), (len(sets),))
    m = [F.means(b) for b in F.f]
    for j, s in enumerate(sets):
        rest = [i for i in range(d) if i not in s]
        s = np.sort(s)
        c = gen.mode_products(T.c, [m[i][None] for i in rest], rest).reshape([F.n[i] for i in s])
        G = [F.f[i].gram() for i in s]
        ref = np.sum(gen.mode_products(c, G, range(len(s))) * c) - mean ** 2
        ctx.close("variance_conditional_expectation", got[j], ref, rtol=F.tol * 10,
                  scale=T.mag ** 2 * max(np.prod([np.max(np.abs(b.gram())) for b in F.f]), 1))


@P.scenario(160)
def algebra(ctx):
    poly = ctx.coin()
    F = Fac(ctx, ctx.randint(1, 4), cap=3, **(dict(kinds=("poly",), accept=smooth) if poly else {}))
    T = FT(ctx, F=F, extra=0.2)
    f, d = T.f, T.d
    x = F.points(4)
    vals = F.ref1(x)
    a = T.tens(vals)
    sc = scale(vals) * T.mag
    U = twin(ctx, T)
    ctx.case(format=T.fmt, shape=T.c.shape)
    if T.fmt != "diagonal":
        b = U.tens(vals)
        s = f + U.f
        if T.fmt == "tbt":
            check_rep(ctx, s.tensor, "sum")
        got = val(s.eval(x))
        r = a + b
        ctx.close("add:" + T.fmt, got, r, rtol=F.tol, scale=sc + scale(vals) * U.mag)
    if T.fmt in ("full", "tbt"):
        s = f * 2.5
        r = 2.5 * (a)
        ctx.close("scale:" + T.fmt, val(s.eval(x)), r, rtol=F.tol, scale=3 * sc)
        ctx.close("scale:coefficients-unchanged", val(f.tensor), T.c, rtol=1e-12, scale=T.mag)
    if poly and T.fmt in ("full", "tbt") and T.c.ndim == d + (T.fmt == "tbt") * len(T.extra):
        # product of functions: values multiply
        p = f * U.f
        if T.fmt == "tbt":
            check_rep(ctx, p.tensor, "product")
        b = U.tens(vals)
        ctx.close("product:" + T.fmt + (":root-rank" if T.extra else ""), val(p.eval(x)), a * b, rtol=1e-6,
                  scale=sc * scale(vals) * U.mag)
        ctx.equal("product:cardinals", p.bases.cardinals(), np.array(F.n) ** 2)
    if T.fmt != "diagonal" and ctx.coin(0.4):
        # functions over other bases: a sum is either refused or the sum of the functions
        k = ctx.randint(0, d - 1)
        one = None
        for _ in range(30):
            one = Fac(ctx, 1, kinds=("poly",), cap=3, accept=smooth)
            if one.n[0] == F.n[k]:
                break
        fs = list(F.f)
        fs[k] = one.f[0]
        B = tensap.FunctionalBases([b.basis for b in fs])
        if one.n[0] == F.n[k] and not one.f[0].basis == F.f[k].basis:
            y = np.stack([np.ravel(v) for v in x], axis=1) if isinstance(x, list) else np.asarray(x)
            ctx.check("bases:eq", not bool(F.bases == B) and not bool(B == F.bases))
            g = tensap.FunctionalTensor(U.f.tensor, B, U.fdims)
            try:
                s = f + g
            except NotImplementedError:
                s = None
                ctx.op("add-refused")
            if s is not None:
                gv = [b.ref(y[:, i], 0) for i, b in enumerate(fs)]
                ctx.close("add:other-bases", val(s.eval(x)), a + U.tens(gv), rtol=F.tol, scale=sc + scale(gv) * U.mag)
    # storage
    if T.fmt == "full":
        ctx.equal("storage", int(f.storage()), T.c.size)
    elif T.fmt == "tbt":
        ctx.equal("storage", int(f.storage()), sum(np.size(c) for c in T.net.cores.values()))
    r = a
    ctx.close("unchanged", val(f.eval(x)), r, rtol=F.tol, scale=sc)
    copy = tensap.FunctionalTensor(f, F.bases, T.fdims)
    ctx.close("constructor", val(copy.eval(x)), r, rtol=F.tol, scale=sc)


@P.scenario(100)
def derivatives(ctx):
    T = FT(ctx, kinds=("poly",), accept=lambda b: b.fam.kind in ("uniform", "normal", "lebesgue") and
           np.array_equal(b.ind, np.arange(len(b.ind))), extra=0)
    F, f = T.F, T.f
    k = [ctx.randint(0, 2) for _ in range(T.d)]
    ctx.case(k=k)
    g = f.derivative(k)
    x = F.points(5)
    dv = F.ref1(x, k)
    sc = max(scale(dv), scale(F.ref1(x))) * T.mag * 10
    ctx.close("derivative:" + T.fmt, val(g.eval(x)), T.tens(dv), rtol=1e-6, scale=sc)
    kept(ctx, T, x, F.ref1(x))


@P.scenario(100)
def sampling(ctx):
    T = FT(ctx, kinds=("poly",), accept=is_prob, extra=0.2)
    F, f, d = T.F, T.f, T.d
    n = ctx.randint(2, 5)
    args = ()
    X = None
    if ctx.coin(0.4):
        X = [tensap.UniformRandomVariable(0.1 * i, 0.1 * i + 0.05) for i in range(d)]
        args = (tensap.RandomVector(X),)
    y, x = f.random(n, *args, nargout=2)
    x = np.stack([np.ravel(z) for z in x], axis=1) if isinstance(x, list) else np.asarray(x).reshape(n, d)
    if X is not None:
        for i in range(d):
            ctx.check("random:measure", np.all((x[:, i] >= 0.1 * i - 1e-12) & (x[:, i] <= 0.1 * i + 0.05 + 1e-12)))
    vals = F.ref1(x)
    ref = T.tens(vals)
    ctx.close("random:" + T.fmt, val(y), ref, rtol=F.tol * 10, scale=max(scale(vals), 1) * T.mag)
    ctx.equal("get_random_vector", f.get_random_vector().ndim(), d)
