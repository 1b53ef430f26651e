import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import arr, dense_of, random_tbt

P = Prop("C02", "Contractions and evaluations of tree-based tensors agree with the dense tensor",
         "random trees, active sets, shapes (with unit modes), ranks and root ranks; products "
         "with rectangular matrices/diagonals/vectors on random dimension subsets in random "
         "order, sub-tensors with repeated and unordered indices, evaluations at index lists, "
         "diagonals. Non-trivial: at least one comparison of a non-empty result; distinct by "
         "tree, shape, ranks, operation and dimensions.")


def some_dims(ctx, d, kmin=1, kmax=None):
    k = ctx.randint(kmin, kmax or d)
    return [int(x) for x in ctx.rng.permutation(d)[:k]]


def maybe_list(ctx, dims):
    """dims as a list or an array, as callers write them."""
    return np.array(dims) if ctx.coin() else list(dims)


def same(ctx, name, got, ref, scale):
    """A tree tensor, a full tensor, an array or a number equal to ref."""
    if isinstance(got, tensap.TreeBasedTensor):
        tbtmon.check_rep(ctx, got, name)
        ctx.close(name, dense_of(got), ref, 1e-10, scale=scale)
        ctx.close(name + ":full", got.full().data, ref, 1e-10, scale=scale)
    else:
        ctx.close(name, arr(got), ref, 1e-10, scale=scale)


def same_up_to_position(ctx, name, got, ref, scale):
    """ref has the evaluation index first; the library documents the result up
    to a permutation, i.e. up to the position of that index."""
    g = arr(got)
    if isinstance(got, tensap.TreeBasedTensor):
        tbtmon.check_rep(ctx, got, name)
        ctx.close(name + ":full", got.full().data, g, 1e-10, scale=scale)
    for p in range(ref.ndim):
        r = np.moveaxis(ref, 0, p)
        if r.shape == g.shape and np.max(np.abs(r - g)) <= 1e-10 * scale:
            ctx.check(name, True)
            return
    ctx.fail(name, "not equal to the dense evaluation for any position of the evaluation "
             "index (shape %s, expected up to position %s)" % (g.shape, ref.shape))


@P.scenario(700)
def matrix_products(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2]))
    d = a.tm.d
    t = a.build()
    if ctx.coin(0.25):
        t = t.orth()
    kind = ctx.choice(["all", "some", "one", "diag-all", "diag-some"])
    dims = list(range(d)) if kind.endswith("all") else some_dims(ctx, d)
    if kind == "one":
        dims = dims[:1]
    ctx.case(kind=kind, dims=dims, **a.describe())
    ctx.op(kind)
    if kind.startswith("diag"):
        vs = [ctx.rng.standard_normal(a.shape[k]) for k in dims]
        ms = [np.diag(v) for v in vs]
        if kind == "diag-all":
            got = t.tensor_diagonal_matrix_product([v for v in vs])
        else:
            got = t.tensor_diagonal_matrix_product([v for v in vs], maybe_list(ctx, dims))
    else:
        ms = [ctx.rng.standard_normal((ctx.randint(1, 4), a.shape[k])) for k in dims]
        if kind == "all":
            got = t.tensor_matrix_product(list(ms))
        elif kind == "one" and ctx.coin():
            got = t.tensor_matrix_product(ms[0], dims[0])
        else:
            got = t.tensor_matrix_product(list(ms), maybe_list(ctx, dims))
    ref = gen.mode_products(a.dense, ms, dims)
    mag = a.mag * np.prod([np.sum(np.abs(m), 1).max() + 1 for m in ms])
    same(ctx, kind, got, ref, mag)
    if a.root_rank == 1:
        ctx.close("norm-after", got.norm(), np.linalg.norm(ref), 1e-7,
                  scale=mag * np.sqrt(ref.size))


@P.scenario(700)
def vector_products(ctx):
    a = random_tbt(ctx)
    d = a.tm.d
    t = a.build()
    kind = ctx.choice(["all", "some", "one", "sum-all", "sum-some"])
    dims = list(range(d)) if kind.endswith("all") else some_dims(ctx, d)
    if kind == "one":
        dims = dims[:1]
    ctx.case(kind=kind, dims=dims, **a.describe())
    ctx.op(kind)
    if kind.startswith("sum"):
        vs = [np.ones(a.shape[k]) for k in dims]
        got = t.reduce_sum() if kind == "sum-all" else t.reduce_sum(maybe_list(ctx, dims))
    else:
        vs = [ctx.rng.standard_normal(a.shape[k]) for k in dims]
        if kind == "all":
            got = t.tensor_vector_product(list(vs))
        elif kind == "one" and ctx.coin():
            got = t.tensor_vector_product(vs[0], dims[0])
        else:
            got = t.tensor_vector_product(list(vs), maybe_list(ctx, dims))
    ref = a.dense
    for v, k in sorted(zip(vs, dims), key=lambda p: -p[1]):
        ref = np.tensordot(ref, v, (k, 0))
    mag = a.mag * np.prod([np.sum(np.abs(v)) + 1 for v in vs])
    g = arr(got)
    if ref.ndim == 0:
        g = np.squeeze(g)
        ctx.close(kind, g, ref, 1e-10, scale=mag)
    else:
        same(ctx, kind, got, ref, mag)


@P.scenario(400)
def squeeze(ctx):
    d = ctx.randint(2, 6)
    shape = [1 if ctx.coin(0.45) else ctx.randint(2, 4) for _ in range(d)]
    a = random_tbt(ctx, d=d, shape=shape)
    ones = [k for k in range(d) if shape[k] == 1]
    t = a.build()
    kind = ctx.choice(["default", "some"])
    dims = ones if kind == "default" or not ones else [
        ones[int(i)] for i in ctx.rng.permutation(len(ones))[: ctx.randint(1, len(ones))]]
    ctx.case(kind=kind, dims=dims, **a.describe())
    ctx.op("squeeze-" + kind)
    if kind == "default" or not ones:
        got = t.squeeze()
    else:
        got = t.squeeze(maybe_list(ctx, dims))
    ref = np.squeeze(a.dense, tuple(dims))
    if ref.ndim == 0:
        ctx.close("squeeze", np.squeeze(arr(got)), ref, 1e-10, scale=a.mag)
    else:
        same(ctx, "squeeze", got, ref, a.mag)


@P.scenario(500)
def sub_tensor(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2]))
    d = a.tm.d
    t = a.build()
    if ctx.coin(0.25):
        t = t.orth()
    idx, full = [], []
    for k in range(d):
        if ctx.coin(0.35):
            idx.append(":")
            full.append(np.arange(a.shape[k]))
        else:
            i = ctx.rng.integers(0, a.shape[k], ctx.randint(1, 5))
            idx.append(i.tolist() if ctx.coin() else i)
            full.append(i)
    ctx.case(idx=[list(map(int, f)) for f in full], **a.describe())
    ctx.op("sub_tensor")
    got = t.sub_tensor(*idx)
    ref = a.dense[np.ix_(*(full + ([np.arange(a.root_rank)] if a.root_rank > 1 else [])))]
    same(ctx, "sub_tensor", got, ref, a.mag)


@P.scenario(700)
def evaluations(ctx):
    a = random_tbt(ctx)
    d = a.tm.d
    t = a.build()
    n = ctx.randint(1, 6)
    kind = ctx.choice(["all", "all", "one", "node"])
    if kind == "all":
        ind = np.column_stack([ctx.rng.integers(0, a.shape[k], n) for k in range(d)])
        ctx.case(kind=kind, ind=ind.tolist(), **a.describe())
        ctx.op("eval_at_indices-all")
        got = t.eval_at_indices(ind)
        ctx.close("eval_at_indices", np.reshape(arr(got), -1), a.dense[tuple(ind.T)],
                  1e-10, scale=a.mag)
        return
    if kind == "one":
        dims = [ctx.randint(0, d - 1)]
        i = ctx.rng.integers(0, a.shape[dims[0]], n)
        ctx.case(kind=kind, dims=dims, ind=i.tolist(), **a.describe())
        ctx.op("eval_at_indices-one")
        got = t.eval_at_indices(i.reshape(-1, 1), dims)
        ref = np.moveaxis(np.take(a.dense, i, dims[0]), dims[0], 0)
        same_up_to_position(ctx, "eval_at_indices-one", got, ref, a.mag)
        return
    # partial evaluations along the dimensions of an internal node
    nodes = [m for m in a.tm.internal if m != a.tm.root]
    if not nodes:
        raise Skip("no internal node")
    alpha = ctx.choice(nodes)
    dims = sorted(a.tm.dims(alpha))
    if ctx.coin(0.3):
        dims = [dims[int(i)] for i in ctx.rng.permutation(len(dims))]
    if n == 1 and ctx.coin(0.7):
        dims = some_dims(ctx, d, 2)  # one index: any dimensions
    ind = np.column_stack([ctx.rng.integers(0, a.shape[k], n) for k in dims])
    ctx.case(kind=kind, dims=dims, ind=ind.tolist(), **a.describe())
    ctx.op("eval_at_indices-node")
    got = t.eval_at_indices(ind, dims)
    sl = [slice(None)] * d
    rest = [k for k in range(d) if k not in dims]
    x = np.transpose(a.dense, dims + rest)
    ref = x[tuple(ind.T)]
    same_up_to_position(ctx, "eval_at_indices-node", got, ref, a.mag)
    # the operand still evaluates as before
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


def diagonal_frames(a):
    """Diagonals of the functions of each active node, by recursion over the tree."""
    out = {}

    def rec(m):
        c = np.asarray(a.cores[m], dtype=float)
        if m in a.tm.leaf_dim:
            out[m] = c
            return
        ops = [c, list(range(c.ndim))]
        k = c.ndim
        for j, ch in enumerate(a.tm.children[m]):
            if a.active[ch]:
                rec(ch)
                ops += [out[ch], [k, j]]
            else:
                ops += [np.eye(c.shape[j]), [k, j]]
        out[m] = np.einsum(*ops, [k] + list(range(len(a.tm.children[m]), c.ndim)))

    rec(a.tm.root)
    return out


@P.scenario(500)
def diagonal(ctx):
    d = ctx.randint(2, 5)
    n = ctx.randint(2, 4)
    rr = ctx.choice([1, 1, 1, 2])
    a = random_tbt(ctx, d=d, shape=[n] * d, root_rank=rr)
    t = a.build()
    ctx.case(**a.describe())
    ctx.op("eval_diag")
    got = t.eval_diag()
    ref = a.dense[tuple([np.arange(n)] * d)]
    ctx.close("eval_diag", arr(got), ref, 1e-10, scale=a.mag)
    # the diagonals of the frames of all the nodes
    diag, frames = t.eval_diag(nargout=2)
    ctx.close("eval_diag:two-outputs", arr(diag), ref, 1e-10, scale=a.mag)
    ctx.equal("eval_diag:nodes", len(frames), a.tm.nb)
    exp = diagonal_frames(a)
    for m in a.tm.internal:
        e = exp[m]
        ctx.close("eval_diag:frame", arr(frames[m - 1]).reshape(e.shape), e, 1e-10, scale=max(1, np.max(np.abs(e))))
    nodes = [m for m in a.tm.internal if m != a.tm.root]
    if rr == 1 and nodes:
        dims = sorted(a.tm.dims(ctx.choice(nodes)))
        ctx.op("eval_diag-node")
        got = t.eval_diag(dims)
        rest = [k for k in range(d) if k not in dims]
        ref = np.transpose(a.dense, dims + rest)[tuple([np.arange(n)] * len(dims))]
        same_up_to_position(ctx, "eval_diag-node", got, ref, a.mag)
        ctx.close("eval_diag-again", arr(t.eval_diag()), a.dense[tuple([np.arange(n)] * d)],
                  1e-10, scale=a.mag)


@P.scenario(700)
def product_diagonal(ctx):
    """Values at samples: rows of matrices (basis evaluations) contracted at once."""
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2]), dmax=6)
    d = a.tm.d
    t = a.build()
    if ctx.coin(0.2):
        t = t.orth()
    n = ctx.randint(1, 6)
    ms = [ctx.rng.standard_normal((n, s)) for s in a.shape]
    ctx.case(n=n, **a.describe())
    ctx.op("tensor_matrix_product_eval_diag")
    got = t.tensor_matrix_product_eval_diag(list(ms))
    ref = gen.eval_diag_product(a.dense, ms, range(d))
    mag = a.mag * np.prod([np.sum(np.abs(m), 1).max() + 1 for m in ms])
    g = arr(got)
    if a.root_rank == 1:
        g = g.reshape(-1)
    ctx.close("tensor_matrix_product_eval_diag", g, ref, 1e-10, scale=mag)
