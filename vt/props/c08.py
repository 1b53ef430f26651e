import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import arr

P = Prop("C08", "Canonical, diagonal and sparse tensors agree with their dense counterparts",
         "canonical tensors (order 1-5, rank 1-4), diagonal tensors (order 1-5, rank 1-4) and "
         "sparse tensors (order 1-4, from zero to all entries non-zero), with unit modes; "
         "dimension subsets in any order; compared with dense numpy. Non-trivial: at least one "
         "comparison; distinct by format, shape, rank, operation and dimensions.")


def dense(t):
    if isinstance(t, tensap.SparseTensor):
        sh = [int(n) for n in np.ravel(t.shape)]
        x = np.zeros(sh)
        ind = np.reshape(np.asarray(t.indices.array, dtype=int), (-1, len(sh)))
        data = np.ravel(t.data)
        if data.size != ind.shape[0]:
            raise AssertionError("%d values for %d multi-indices" % (data.size, ind.shape[0]))
        for i, v in zip(ind, data):
            x[tuple(i)] += v
        return x
    if isinstance(t, (tensap.CanonicalTensor, tensap.DiagonalTensor)):
        return np.asarray(t.full().data)
    if hasattr(t, "toarray"):
        return t.toarray()
    return arr(t)


def subset(ctx, d, kmin=1, kmax=None):
    return [int(x) for x in ctx.rng.permutation(d)[: ctx.randint(kmin, kmax or d)]]


def given(ctx, dims):
    return np.array(dims) if ctx.coin() else list(dims)


def vecprod(x, vs, dims):
    for v, k in sorted(zip(vs, dims), key=lambda p: -p[1]):
        x = np.tensordot(x, v, (k, 0))
    return x


def consistent(ctx, t, ref, name):
    """Announced order and shape are those of the values."""
    if hasattr(t, "order") and hasattr(t, "shape"):
        ctx.equal(name + ":shape", [int(n) for n in np.ravel(t.shape)], list(ref.shape))
        ctx.equal(name + ":order", int(t.order), ref.ndim)
        ctx.equal(name + ":ndim", int(t.ndim), ref.ndim)
    if isinstance(t, tensap.CanonicalTensor):
        k = t.representation_rank()
        ctx.equal(name + ":space", [list(np.shape(m)) for m in t.space], [[n, k] for n in ref.shape])
        ctx.equal(name + ":core", [int(n) for n in t.core.shape], [int(k)] * ref.ndim)
        ctx.equal(name + ":core-order", int(t.core.order), ref.ndim)
        ctx.equal(name + ":core-size", int(np.size(t.core.data)), int(k))


def result(ctx, name, got, ref, scale, rtol=1e-10):
    ref = np.asarray(ref)
    g = np.asarray(dense(got), dtype=float)
    if ref.ndim == 0:
        g = np.squeeze(g)
    ctx.close(name, g, ref, rtol, scale=scale)
    consistent(ctx, got, ref, name) if ref.ndim else None


# ---------------------------------------------------------------- canonical
class Can:
    def __init__(self, ctx, shape=None, rank=None, unit_core=None):
        d = ctx.randint(1, 5) if shape is None else len(shape)
        self.shape = shape or [1 if ctx.coin(0.15) else ctx.randint(1, 4) for _ in range(d)]
        self.rank = rank or ctx.randint(1, 4)
        f = ctx.choice([ctx.rng.standard_normal, lambda s: ctx.rng.random(s) + 0.2,
                        lambda s: ctx.rng.integers(-3, 4, s)])
        self.space = [f((n, self.rank)) for n in self.shape]
        self.core = np.ones(self.rank) if unit_core else f(self.rank)
        if ctx.coin(0.12):  # small or large magnitudes
            k = ctx.randint(0, len(self.shape) - 1)
            self.space[k] = self.space[k] * 10.0 ** ctx.randint(-9, 9)
        self.dense = self.eval(self.core, self.space)
        self.mag = max(float(np.max(self.eval(np.abs(self.core), [np.abs(s) for s in self.space]))),
                       1e-300)
        self.magnorm = self.mag * np.sqrt(self.dense.size)

    @staticmethod
    def eval(core, space):
        d = len(space)
        ops = [core, [d]]
        for k, s in enumerate(space):
            ops += [s, [k, d]]
        return np.einsum(*ops, list(range(d)))

    def build(self):
        return tensap.CanonicalTensor([s.copy() for s in self.space], self.core.copy())

    def describe(self):
        return {"shape": self.shape, "rank": self.rank}


@P.scenario(500)
def canonical_algebra(ctx):
    a = Can(ctx)
    d = len(a.shape)
    t = a.build()
    op = ctx.choice(["full", "add", "sub", "neg", "dot", "norm", "orth", "storage", "expr"])
    ctx.case(op=op, **a.describe())
    ctx.op("canonical-" + op)
    if op == "full":
        result(ctx, "full", t, a.dense, a.mag)
        ctx.close("numpy", t.numpy(), a.dense, 1e-10, scale=a.mag)
        ctx.equal("representation_rank", t.representation_rank(), a.rank)
    elif op in ("add", "sub", "dot", "expr"):
        b = Can(ctx, shape=a.shape)
        u = b.build()
        if op == "add":
            result(ctx, op, t + u, a.dense + b.dense, a.mag + b.mag)
        elif op == "sub":
            result(ctx, op, t - u, a.dense - b.dense, a.mag + b.mag)
        elif op == "dot":
            ctx.close("dot", t.dot(u), np.sum(a.dense * b.dense), 1e-10,
                      scale=a.magnorm * b.magnorm)
            ctx.close("dot-sym", u.dot(t), np.sum(a.dense * b.dense), 1e-10,
                      scale=a.magnorm * b.magnorm)
        else:
            e = t - u
            result(ctx, "expr", e + t + (-u), 2 * (a.dense - b.dense), 4 * (a.mag + b.mag))
            ctx.close("norm-diff", e.norm(), np.linalg.norm(a.dense - b.dense), 1e-6,
                      scale=a.magnorm + b.magnorm)
        result(ctx, op + ":operand", t, a.dense, a.mag)
        result(ctx, op + ":operand2", u, b.dense, b.mag)
    elif op == "neg":
        result(ctx, op, -t, -a.dense, a.mag)
    elif op == "norm":
        ctx.close("norm", t.norm(), np.linalg.norm(a.dense), 1e-6, scale=a.magnorm)
        ctx.close("norm-dot", t.dot(t), np.sum(a.dense ** 2), 1e-10, scale=a.magnorm ** 2)
    elif op == "orth":
        o = t.orth()
        ctx.close("orth", o.full().data, a.dense, 1e-10, scale=a.mag * 10)
        for s in o.space:
            ctx.close("orth-space", s.T @ s, np.eye(s.shape[1]), 0, 1e-10)
    else:
        ctx.equal("storage", int(t.storage()), a.rank * (1 + sum(a.shape)))
        ctx.equal("sparse_storage", int(t.sparse_storage()),
                  np.count_nonzero(a.core) + sum(np.count_nonzero(s) for s in a.space))


@P.scenario(700)
def canonical_contractions(ctx):
    op = ctx.choice(["matrix", "matrix-some", "vector", "vector-some", "sum", "sum-some",
                     "squeeze", "eval_diag", "eval_diag-some", "product-diag"])
    d = ctx.randint(1, 5)
    shape = None
    if op == "squeeze":
        shape = [1 if ctx.coin(0.5) else ctx.randint(2, 4) for _ in range(d)]
    elif op.startswith("eval_diag"):
        d = max(d, 2)
        shape = [ctx.randint(1, 4)] * d
    a = Can(ctx, shape=shape)
    d = len(a.shape)
    t = a.build()
    dims = subset(ctx, d) if op.endswith("some") else list(range(d))
    if op == "eval_diag-some":
        dims = subset(ctx, d, 2)
        m = a.shape[0]
        a = Can(ctx, shape=[m if k in dims else ctx.randint(1, 4) for k in range(d)])
        t = a.build()
    ctx.case(op=op, dims=dims, **a.describe())
    ctx.op("canonical-" + op)
    if op.startswith("matrix"):
        ms = [ctx.rng.standard_normal((ctx.randint(1, 4), a.shape[k])) for k in dims]
        got = (t.tensor_matrix_product(list(ms)) if op == "matrix"
               else t.tensor_matrix_product(list(ms), given(ctx, dims)))
        mag = a.mag * np.prod([np.sum(np.abs(m), 1).max() + 1 for m in ms])
        result(ctx, op, got, gen.mode_products(a.dense, ms, dims), mag)
    elif op.startswith("vector"):
        vs = [ctx.rng.standard_normal(a.shape[k]) for k in dims]
        got = (t.tensor_vector_product(list(vs)) if op == "vector"
               else t.tensor_vector_product(list(vs), given(ctx, dims)))
        mag = a.mag * np.prod([np.sum(np.abs(v)) + 1 for v in vs])
        result(ctx, op, got, vecprod(a.dense, vs, dims), mag)
    elif op.startswith("sum"):
        got = t.reduce_sum() if op == "sum" else t.reduce_sum(given(ctx, dims))
        result(ctx, op, got, np.sum(a.dense, tuple(dims)), a.mag * a.dense.size)
    elif op == "squeeze":
        ones = [k for k in range(d) if a.shape[k] == 1]
        if not ones:
            raise Skip("nothing to squeeze")
        if ctx.coin():
            result(ctx, op, t.squeeze(), np.squeeze(a.dense), a.mag)
        else:
            ones = [ones[int(i)] for i in ctx.rng.permutation(len(ones))[: ctx.randint(1, len(ones))]]
            result(ctx, op, t.squeeze(given(ctx, ones)), np.squeeze(a.dense, tuple(ones)), a.mag)
    elif op == "eval_diag":
        n = a.shape[0]
        got = t.eval_diag()
        result(ctx, op, got, a.dense[tuple([np.arange(n)] * d)], a.mag)
        result(ctx, op + "-again", t.eval_diag(), a.dense[tuple([np.arange(n)] * d)], a.mag)
    elif op == "eval_diag-some":
        n = a.shape[dims[0]]
        got = t.eval_diag(given(ctx, dims))
        rest = [k for k in range(d) if k not in dims]
        ref = np.transpose(a.dense, dims + rest)[tuple([np.arange(n)] * len(dims))]
        # the diagonal takes the place of the first of the dimensions
        pos = sum(k < min(dims) for k in rest)
        result(ctx, op, got, np.moveaxis(ref, 0, pos), a.mag)
    else:
        n = ctx.randint(1, 5)
        ms = [ctx.rng.standard_normal((n, s)) for s in a.shape]
        mag = a.mag * np.prod([np.sum(np.abs(m), 1).max() + 1 for m in ms])
        got = t.tensor_matrix_product_eval_diag([m.copy() for m in ms])
        result(ctx, op, got, gen.eval_diag_product(a.dense, ms, range(d)), mag)
    result(ctx, op + ":operand", t, a.dense, a.mag)


@P.scenario(250)
def canonical_to_tree(ctx):
    d = ctx.randint(2, 5)
    tm = gen.named_tree_model(ctx, d)
    a = Can(ctx, shape=[ctx.randint(1, 4)] * d if ctx.coin(0.4)
            else [ctx.randint(1, 4) for _ in range(d)])
    active = gen.random_active(ctx, tm)
    ctx.case(tree=tm.describe(), inactive=[n for n in active if not active[n]], **a.describe())
    ctx.op("canonical.tree_based_tensor")
    if all(active.values()) and ctx.coin():
        got = a.build().tree_based_tensor(tm.tree())
    else:
        got = a.build().tree_based_tensor(tm.tree(), np.array([active[n + 1] for n in range(tm.nb)]))
        ctx.equal("active", np.asarray(got.is_active_node, dtype=bool),
                  [active[n + 1] for n in range(tm.nb)])
    tbtmon.check_rep(ctx, got, "tree_based_tensor")
    ctx.close("tree_based_tensor", gen.dense_of(got), a.dense, 1e-10, scale=a.mag)


@P.scenario(120)
def canonical_factories(ctx):
    kind = ctx.choice(["zeros", "ones", "rand", "randn", "create"])
    r, shape = ctx.randint(1, 4), [ctx.randint(1, 4) for _ in range(ctx.randint(1, 5))]
    ctx.case(kind=kind, rank=r, shape=shape)
    ctx.op("canonical." + kind)
    if kind == "create":
        t = tensap.CanonicalTensor.create(lambda s: np.full(s, 0.5), r, shape)
    else:
        t = getattr(tensap.CanonicalTensor, kind)(r, shape)
    ctx.equal("shape", list(t.shape), shape)
    ctx.equal("order", t.order, len(shape))
    ctx.equal("rank", t.representation_rank(), r)
    ref = {"zeros": 0.0, "ones": float(r), "create": r * 0.5 ** len(shape)}.get(kind)
    x = t.full().data
    if ref is not None:
        ctx.close("values", x, np.full(shape, ref), 1e-12)
    if kind == "rand":
        for s in t.space:
            ctx.check("range", np.all((s >= 0) & (s <= 1)) and (s.size < 3 or np.ptp(s) > 0))


# ---------------------------------------------------------------- diagonal
def diag_dense(v, d):
    x = np.zeros([len(v)] * d)
    x[tuple([np.arange(len(v))] * d)] = v
    return x


@P.scenario(600)
def diagonal(ctx):
    d, r = ctx.randint(1, 5), ctx.randint(1, 4)
    v = ctx.rng.standard_normal(r) * ctx.rng.integers(0, 2, r) if ctx.coin(0.3) else \
        ctx.rng.standard_normal(r)
    w = ctx.rng.standard_normal(r)
    x, y = diag_dense(v, d), diag_dense(w, d)
    t, u = tensap.DiagonalTensor(v.copy(), d), tensap.DiagonalTensor(w.copy(), d)
    op = ctx.choice(["full", "add", "sub", "mul", "neg", "dot", "norm", "sparse", "cat", "kron",
                     "vectors", "matrices", "diag-matrices", "metric", "tree", "eval_diag",
                     "eval_diag-some", "indices", "product-diag", "tensordot", "except-dim",
                     "sub_tensor", "copy", "storage", "transpose", "update", "factories"])
    ctx.case(op=op, d=d, r=r)
    ctx.op("diagonal-" + op)
    if op == "full":
        result(ctx, op, t, x, 1)
        ctx.close("numpy", t.numpy(), x, 0)
    elif op == "add":
        result(ctx, op, t + u, x + y, 1)
    elif op == "sub":
        result(ctx, op, t - u, x - y, 1)
    elif op == "mul":
        result(ctx, op, t * u, x * y, 1)
    elif op == "neg":
        result(ctx, op, -t, -x, 1)
    elif op == "dot":
        ctx.close(op, t.dot(u), np.sum(x * y), 1e-12, scale=1)
    elif op == "norm":
        ctx.close(op, t.norm(), np.linalg.norm(x), 1e-12, scale=1)
    elif op == "sparse":
        result(ctx, op, t.sparse(), x, 1)
    elif op in ("cat", "kron"):
        w2 = ctx.rng.standard_normal(ctx.randint(1, 3))
        y2 = diag_dense(w2, d)
        u2 = tensap.DiagonalTensor(w2, d)
        ref = gen.cat_dense(x, y2) if op == "cat" else gen.kron_dense(x, y2)
        result(ctx, op, getattr(t, op)(u2), ref, 1)
    elif op == "vectors":
        vs = [ctx.rng.standard_normal(r) for _ in range(d)]
        got = t.tensor_vector_product([z.copy() for z in vs] if ctx.coin() else np.column_stack(vs))
        result(ctx, op, got, vecprod(x, vs, range(d)), 1)
    elif op == "matrices":
        dims = list(range(d)) if ctx.coin(0.4) else subset(ctx, d)
        ms = [ctx.rng.standard_normal((ctx.randint(1, 4), r)) for _ in dims]
        ctx.case(op=op, d=d, r=r, dims=dims)
        got = (t.tensor_matrix_product(list(ms)) if dims == list(range(d))
               else t.tensor_matrix_product(list(ms), given(ctx, dims)))
        result(ctx, op, got, gen.mode_products(x, ms, dims), 10)
    elif op == "diag-matrices":
        vs = [ctx.rng.standard_normal(r) for _ in range(d)]
        result(ctx, op, t.tensor_diagonal_matrix_product(list(vs)),
               gen.mode_products(x, [np.diag(z) for z in vs], range(d)), 1)
    elif op in ("metric", "except-dim"):
        w2 = ctx.rng.standard_normal(ctx.randint(1, 4))
        u2 = tensap.DiagonalTensor(w2, d)
        ms = [ctx.rng.standard_normal((r, len(w2))) for _ in range(d)]
        if op == "metric":
            ref = np.sum(x * gen.mode_products(diag_dense(w2, d), ms, range(d)))
            ctx.close(op, t.dot_with_rank_one_metric(u2, list(ms)), ref, 1e-10, scale=10)
        else:
            if d < 2:
                raise Skip("order one")
            k = ctx.randint(0, d - 1)
            z = diag_dense(w2, d)
            for j in range(d):
                if j != k:
                    z = gen.mode_product(z, ms[j], j)
            rest = [j for j in range(d) if j != k]
            ref = np.tensordot(x, z, (rest, rest))
            got = t.tensordot_matrix_product_except_dim(u2, list(ms), k)
            ctx.close(op, arr(got), ref, 1e-10, scale=10)
    elif op == "tree":
        if d < 2:
            raise Skip("order one")
        tm = gen.named_tree_model(ctx, d)
        active = gen.random_active(ctx, tm)
        if ctx.coin(0.3):
            got = t.tree_based_tensor()
            ctx.equal("default-active", np.asarray(got.is_active_node, dtype=bool),
                      ~np.asarray(got.tree.is_leaf, dtype=bool))
        else:
            got = t.tree_based_tensor(tm.tree(), np.array([active[n + 1] for n in range(tm.nb)]))
            ctx.equal("tree", np.asarray(got.tree.adjacency_matrix), tm.adjacency())
            ctx.equal("active", np.asarray(got.is_active_node, dtype=bool),
                      [active[n + 1] for n in range(tm.nb)])
        tbtmon.check_rep(ctx, got, "tree_based_tensor")
        ctx.close(op, gen.dense_of(got), x, 1e-12, scale=1)
    elif op == "eval_diag":
        ctx.close(op, arr(t.eval_diag()), v, 0)
    elif op == "eval_diag-some":
        if d < 2:
            raise Skip("order one")
        dims = subset(ctx, d, 2)
        ctx.case(op=op, d=d, r=r, dims=dims)
        got = t.eval_diag(given(ctx, dims))
        result(ctx, op, got, diag_dense(v, d - len(dims) + 1), 1)
    elif op == "indices":
        n = ctx.randint(1, 5)
        ind = ctx.rng.integers(0, r, (n, d))
        if ctx.coin():
            ind[0] = ind[0, 0]
        ctx.close(op, arr(t.eval_at_indices(ind.copy())), x[tuple(ind.T)], 0)
    elif op == "product-diag":
        if d < 2:
            raise Skip("order one")
        n = ctx.randint(1, 5)
        ms = [ctx.rng.standard_normal((n, r)) for _ in range(d)]
        result(ctx, op, t.tensor_matrix_product_eval_diag(list(ms)),
               gen.eval_diag_product(x, ms, range(d)), 10)
    elif op == "tensordot":
        k = ctx.randint(0, d - 1)
        got = t.tensordot(u, k, k)
        result(ctx, op, got, np.tensordot(x, y, (k, k)), 1)
    elif op == "sub_tensor":
        idx = [ctx.rng.integers(0, r, ctx.randint(1, 4)).tolist() for _ in range(d)]
        result(ctx, op, t.sub_tensor(*idx), x[np.ix_(*idx)], 1)
    elif op == "copy":
        c = tensap.DiagonalTensor(t)
        result(ctx, op, c, x, 1)
        c.data[0] += 1
    elif op == "update":
        c = tensap.DiagonalTensor(t)
        w2 = ctx.rng.standard_normal(ctx.randint(1, 4))
        c.data, c.order = w2, ctx.randint(1, 4)
        c.update_attributes()
        result(ctx, op, c, diag_dense(w2, c.order), 1)
    elif op == "factories":
        for kind, val in (("zeros", 0), ("ones", 1), ("rand", None), ("randn", None)):
            c = getattr(tensap.DiagonalTensor, kind)(r, d)
            consistent(ctx, c, np.zeros([r] * d), kind)
            if val is not None:
                ctx.close(kind, c.full().data, diag_dense(np.full(r, val), d), 0)
            elif kind == "rand":
                ctx.check("rand:range", np.all((c.data >= 0) & (c.data <= 1)))
            elif r > 1:
                ctx.check("randn:spread", np.ptp(c.data) > 0)
        c = tensap.DiagonalTensor.create(lambda n: np.arange(n) + 0.5, r, d)
        result(ctx, "create", c, diag_dense(np.arange(r) + 0.5, d), 1)
    elif op == "storage":
        ctx.equal("storage", int(t.storage()), r)
        ctx.equal("sparse_storage", int(t.sparse_storage()), np.count_nonzero(v))
    else:
        perm = ctx.rng.permutation(d)
        result(ctx, op, t.transpose(perm), x, 1)
        result(ctx, op, t.itranspose(perm), x, 1)
    result(ctx, op + ":operand", t, x, 1)
    ctx.equal("operand-shape", list(t.shape), [r] * d)


# ---------------------------------------------------------------- sparse
def sparse(ctx, shape=None, dmax=4, density=None):
    if shape is None:
        d = ctx.randint(1, dmax)
        shape = [1 if ctx.coin(0.1) else ctx.randint(1, 5) for _ in range(d)]
    x = ctx.rng.standard_normal(shape)
    if density is None:
        density = ctx.choice([0.0, 0.1, 0.3, 0.3, 0.6, 1.0, "one"])
    if density == "one":
        m = np.zeros(x.size)
        m[ctx.randint(0, x.size - 1)] = 1
        x = x * m.reshape(shape)
    else:
        x = x * (ctx.rng.random(shape) < density)
    return x


def build(ctx, x):
    how = ctx.choice(["array", "list", "indices", "indices", "full"])
    if how == "array":
        return tensap.SparseTensor(x.copy())
    if how == "list":
        return tensap.SparseTensor(x.tolist())
    if how == "full":
        return tensap.FullTensor(x.copy()).sparse()
    ind = np.argwhere(x != 0)
    ind = ind[ctx.rng.permutation(ind.shape[0])]
    return tensap.SparseTensor(x[tuple(ind.T)], tensap.MultiIndices(ind), np.array(x.shape))


@P.scenario(1000)
def sparse_tensors(ctx):
    op = ctx.choice(["full", "add", "mul", "dot", "norm", "vectors", "vectors-some", "matrices",
                     "matrices-some", "diag-matrices", "transpose", "reshape", "indices",
                     "diag-matrices-some", "product-diag", "eval_diag", "metric", "counts",
                     "matrix-form", "copy"])
    if op == "eval_diag":
        x = sparse(ctx, [ctx.randint(1, 4)] * ctx.randint(2, 4))
    elif op == "matrix-form":
        x = sparse(ctx, [ctx.randint(1, 4), ctx.randint(1, 4)])
    else:
        x = sparse(ctx)
    d = x.ndim
    nnz = int(np.count_nonzero(x))
    if nnz == 0:
        # an empty set of multi-indices does not record its dimension: only
        # the conversions of the null tensor are specified
        op = ctx.choice(["full", "norm", "counts"])
    t = build(ctx, x)
    dims = subset(ctx, d) if op.endswith("some") else list(range(d))
    ctx.case(op=op, shape=x.shape, nnz=nnz, dims=dims)
    ctx.op("sparse-" + op)
    if op == "full":
        ctx.close(op, t.full().data, x, 0)
        result(ctx, op, t, x, 1)
    elif op == "copy":
        result(ctx, op, tensap.SparseTensor(t), x, 1)
    elif op in ("add", "mul", "dot"):
        y = sparse(ctx, list(x.shape), density=ctx.choice([0.3, 0.6, 1.0]))
        if not np.any(y):
            raise Skip("null operand")
        if op == "mul" and not np.any(x * y):
            raise Skip("null product")
        u = build(ctx, y)
        if op != "add" and ctx.coin(0.3):
            # the other operand is converted
            if len(set(x.shape)) == 1 and ctx.coin(0.7):
                v = ctx.rng.standard_normal(x.shape[0])
                y = diag_dense(v, d)
                if op == "mul" and not np.any(x * y):
                    raise Skip("null product")
                u = tensap.DiagonalTensor(v, d)
            else:
                u = tensap.FullTensor(y.copy())
        if op == "add":
            result(ctx, op, t + u, x + y, 1)
        elif op == "mul":
            result(ctx, op, t * u, x * y, 1)
        else:
            ctx.close(op, t.dot(u), np.sum(x * y), 1e-12, scale=1)
        result(ctx, op + ":operand2", u, y, 1)
    elif op == "norm":
        ctx.close(op, t.norm(), np.linalg.norm(x), 1e-12, scale=1e-300)
    elif op.startswith("vectors"):
        vs = [ctx.rng.standard_normal(x.shape[k]) for k in dims]
        if ctx.coin(0.2):
            vs[0] = vs[0] * ctx.rng.integers(0, 2, vs[0].size)
        ref = vecprod(x, vs, dims)
        if op == "vectors":
            got = t.tensor_vector_product(list(vs))
        elif len(dims) == 1 and ctx.coin():
            got = t.tensor_vector_product(vs[0], dims[0])
        else:
            got = t.tensor_vector_product(list(vs), given(ctx, dims))
        result(ctx, op, got, ref, 1)
    elif op.startswith("matrices") or op.startswith("diag-matrices"):
        if op.startswith("diag-matrices"):
            vs = [ctx.rng.standard_normal(x.shape[k]) for k in dims]
            ms = [np.diag(v) for v in vs]
            a = list(vs)
            if len(set(x.shape[k] for k in dims)) == 1 and ctx.coin():
                a = np.column_stack(vs)
            got = (t.tensor_diagonal_matrix_product(a) if op == "diag-matrices"
                   else t.tensor_diagonal_matrix_product(a, given(ctx, dims)))
        elif len(dims) == 1 and op.endswith("some") and ctx.coin():
            ms = [ctx.rng.standard_normal((ctx.randint(1, 4), x.shape[dims[0]]))]
            got = t.tensor_matrix_product(ms[0], dims[0])
        else:
            ms = [ctx.rng.standard_normal((ctx.randint(1, 4), x.shape[k])) for k in dims]
            got = (t.tensor_matrix_product(list(ms)) if op == "matrices"
                   else t.tensor_matrix_product(list(ms), given(ctx, dims)))
        result(ctx, op, got, gen.mode_products(x, ms, dims), 10)
    elif op == "transpose":
        perm = ctx.rng.permutation(d)
        result(ctx, op, t.transpose(perm), np.transpose(x, perm), 1)
        result(ctx, "itranspose", t.transpose(perm).itranspose(perm), x, 1)
    elif op == "reshape":
        n = x.size
        divs = [k for k in range(1, n + 1) if n % k == 0]
        a = ctx.choice(divs)
        sh = [a, n // a]
        if ctx.coin():
            b = ctx.choice([k for k in divs if (n // a) % k == 0])
            sh = [a, b, n // a // b]
        result(ctx, op, t.reshape(sh), x.reshape(sh, order="F"), 1)
    elif op == "indices":
        n = ctx.randint(1, 6)
        ind = np.column_stack([ctx.rng.integers(0, s, n) for s in x.shape])
        if ctx.coin() and nnz:
            ind[0] = np.argwhere(x != 0)[0]
        kw = {"dims": given(ctx, list(range(d)))} if ctx.coin(0.2) else {}
        got = t.eval_at_indices(tensap.MultiIndices(ind) if ctx.coin() else ind.copy(), **kw)
        ctx.close(op, np.ravel(dense(got)), x[tuple(ind.T)], 0)
    elif op == "product-diag":
        n = ctx.randint(1, 5)
        ms = [ctx.rng.standard_normal((n, s)) for s in x.shape]
        if ctx.coin(0.2):
            ms[0] = np.round(3 * ms[0]).astype(int)
        got = t.tensor_matrix_product_eval_diag(list(ms))
        ctx.close(op, np.ravel(dense(got)), gen.eval_diag_product(x, ms, range(d)), 1e-10, scale=10)
    elif op == "eval_diag":
        got = t.eval_diag(given(ctx, list(range(d)))) if ctx.coin(0.2) else t.eval_diag()
        ctx.close(op, np.ravel(dense(got)), x[tuple([np.arange(x.shape[0])] * d)], 0)
    elif op == "metric":
        y = sparse(ctx, [ctx.randint(1, 4) for _ in range(d)], density=0.6)
        if not np.any(y):
            raise Skip("null operand")
        ms = [ctx.rng.standard_normal((x.shape[k], y.shape[k])) for k in range(d)]
        got = t.dot_with_rank_one_metric(build(ctx, y), ms)
        ctx.close(op, got, np.sum(x * gen.mode_products(y, ms, range(d))), 1e-10, scale=10)
    elif op == "counts":
        for f in ("storage", "sparse_storage", "count_non_zero"):
            ctx.equal(f, int(getattr(t, f)()), nnz)
        ctx.equal("size", int(t.size), x.size)
        if nnz:
            consistent(ctx, t, x, "counts")
    else:
        ctx.close(op, t.numpy().toarray(), x, 0)
    if nnz:
        result(ctx, op + ":operand", t, x, 1)
