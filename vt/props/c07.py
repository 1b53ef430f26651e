import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip
from vt.gen import arr, unfold

P = Prop("C07", "Full tensor operations agree with numpy",
         "full tensors of order 1-5 with unit and unequal modes, real/integer data, random "
         "dimension subsets in random order given as lists, arrays or integers. Non-trivial: "
         "tensor with at least two entries; distinct by shape, operation and dimensions.")


def tensor(ctx, dmin=1, dmax=5, smax=4, shape=None):
    d = ctx.randint(dmin, dmax)
    if shape is None:
        shape = [ctx.randint(1, smax) if ctx.coin(0.25) else ctx.randint(2, smax)
                 for _ in range(d)]
    if ctx.coin(0.2):
        x = ctx.rng.integers(-4, 5, shape)
        if ctx.coin():
            x = x.astype(float)
    else:
        x = ctx.rng.standard_normal(shape)
    if x.ndim > 1 and ctx.coin(0.2):
        x = np.asfortranarray(x)
    if x.ndim > 1 and ctx.coin(0.2):  # a non-contiguous view
        x = np.transpose(np.array(np.transpose(x)))[..., ::-1]
    # small or large magnitudes, the same for every tensor of the case (powers of two: same roundings)
    if not hasattr(ctx, "unit"):
        ctx.unit = 2.0 ** ctx.choice([-40, -28, 28]) if ctx.coin(0.12) else 1
    return x * ctx.unit if ctx.unit != 1 else x


def dims_of(ctx, d, kmin=1, kmax=None):
    k = ctx.randint(kmin, d if kmax is None else kmax)
    return [int(v) for v in ctx.rng.permutation(d)[:k]]


def given(ctx, dims):
    if len(dims) == 1 and ctx.coin(0.4):
        return dims[0]
    return np.array(dims) if ctx.coin() else list(dims)


def result(ctx, name, got, ref, tol=1e-11, scale=1.0, deg=1):
    """got == ref; deg is the degree of homogeneity in the tensors of the case."""
    ctx.op(name)
    u = float(getattr(ctx, "unit", 1)) ** deg
    ref = np.asarray(ref) / u
    if isinstance(got, tensap.FullTensor):
        ctx.check(name + ":attributes", got.order == np.ndim(got.data) == got.ndim
                  and list(got.shape) == list(np.shape(got.data)))
    s = max(scale, float(np.max(np.abs(ref))) if ref.size else 1.0)
    ctx.close(name, arr(got) / u, ref, tol, scale=s)


@P.scenario(500)
def arithmetic(ctx):
    x = tensor(ctx)
    y = tensor(ctx, shape=x.shape)
    c = float(ctx.choice([2.0, -0.5, 3]))
    t, u = tensap.FullTensor(x), tensap.FullTensor(y)
    op = ctx.choice(["+", "-", "*", "/", "neg", "pow", "c*", "*c", "c+", "c-", "+c", "-c", "/c",
                     "had", "dot", "norm", "eq", "array", "np+"])
    ctx.case(op=op, shape=x.shape)
    if op == "+":
        result(ctx, op, t + u, x + y)
    elif op == "-":
        result(ctx, op, t - u, x - y)
    elif op == "*":
        result(ctx, op, t * u, x * y, deg=2)
    elif op == "/":
        z = np.abs(y) + 1
        result(ctx, op, t / tensap.FullTensor(z), x / z, deg=0)
    elif op == "neg":
        result(ctx, op, -t, -x)
    elif op == "pow":
        result(ctx, op, t ** 2, x ** 2, deg=2)
    elif op == "c*":
        result(ctx, op, c * t, c * x)
    elif op == "*c":
        result(ctx, op, t * c, c * x)
    elif op == "c+":
        result(ctx, op, c + t, c + x, deg=int(ctx.unit > 1))
    elif op == "c-":
        result(ctx, op, c - t, c - x, deg=int(ctx.unit > 1))
    elif op == "+c":
        result(ctx, op, t + c, x + c, deg=int(ctx.unit > 1))
    elif op == "-c":
        result(ctx, op, t - c, x - c, deg=int(ctx.unit > 1))
    elif op == "/c":
        result(ctx, op, t / c, x / c)
    elif op == "np+":
        result(ctx, op, t + y, x + y)
    elif op == "had":
        result(ctx, op, t.hadamard_product(u), x * y, deg=2)
    elif op == "dot":
        result(ctx, op, t.dot(u), np.sum(x * y), deg=2)
    elif op == "norm":
        result(ctx, op, t.norm(), np.sqrt(np.sum(x ** 2)))
    elif op == "eq":
        ctx.op(op)
        ctx.check("eq", bool(t == tensap.FullTensor(np.array(x))))
        z = np.array(x)
        z.flat[ctx.randint(0, z.size - 1)] += 1
        ctx.check("neq", not bool(t == tensap.FullTensor(z)))
        z = np.array(x)
        k = ctx.randint(0, z.size - 1)
        z.flat[k] = z.flat[k] * (1 + 1e-9) + 1e-15
        ctx.equal("nearly-eq", bool(t == tensap.FullTensor(z)), bool(np.array_equal(x, z)))
    else:
        result(ctx, "numpy", t.numpy(), x)
        result(ctx, "full", t.full(), x)
        ctx.check("storage", t.storage() == x.size)
        ctx.check("sparse_storage", t.sparse_storage() == np.count_nonzero(x))
        y = x * ctx.rng.integers(0, 2, x.shape) * 10.0 ** ctx.rng.integers(-40, 3, x.shape)
        s = tensap.FullTensor(y).sparse()
        z = np.zeros(x.shape)
        if np.any(y):
            z[tuple(np.reshape(s.indices.array, (-1, x.ndim)).astype(int).T)] = np.ravel(s.data)
        ctx.check("sparse", np.array_equal(z, y) and s.storage() == np.count_nonzero(y))
        k = tuple(ctx.randint(0, n - 1) for n in x.shape)
        ctx.check("getitem", t[k] == x[k])


@P.scenario(500)
def shaping(ctx):
    x = tensor(ctx)
    d = x.ndim
    t = tensap.FullTensor(x)
    op = ctx.choice(["reshape", "transpose", "itranspose", "squeeze", "squeeze-dims",
                     "matricize", "matricize2", "matricize-last", "constructor", "cat",
                     "cat-dims", "kron"])
    ctx.case(op=op, shape=x.shape)
    if op == "reshape":
        sh = [int(v) for v in ctx.rng.permutation(x.shape)]
        if ctx.coin():
            sh = [x.size]
        result(ctx, op, t.reshape(sh), x.reshape(sh, order="F"))
    elif op == "transpose":
        p = [int(v) for v in ctx.rng.permutation(d)]
        ctx.case(p=p)
        result(ctx, op, t.transpose(p), np.transpose(x, p))
        result(ctx, "itranspose", t.transpose(p).itranspose(p), x)
    elif op == "itranspose":
        p = [int(v) for v in ctx.rng.permutation(d)]
        ctx.case(p=p)
        y = np.empty([x.shape[p.index(k)] for k in range(d)])
        y = np.transpose(x, [p.index(k) for k in range(d)])
        result(ctx, op, t.itranspose(p), y)
    elif op == "squeeze":
        result(ctx, op, t.squeeze(), np.squeeze(x))
    elif op == "squeeze-dims":
        ones = [k for k in range(d) if x.shape[k] == 1]
        if not ones:
            raise Skip("no unit dimension")
        ds = [ones[int(v)] for v in ctx.rng.permutation(len(ones))[: ctx.randint(1, len(ones))]]
        ctx.case(dims=ds)
        result(ctx, op, t.squeeze(given(ctx, ds)), np.squeeze(x, tuple(ds)))
    elif op == "matricize":
        ds = dims_of(ctx, d, 1)
        ctx.case(dims=ds)
        result(ctx, op, t.matricize(given(ctx, ds)), unfold(x, ds))
    elif op == "matricize2":
        p = [int(v) for v in ctx.rng.permutation(d)]
        k = ctx.randint(0, d)
        ctx.case(p=p, k=k)
        y = np.transpose(x, p)
        n = int(np.prod(y.shape[:k]))
        if k == 0 or k == d:
            raise Skip("empty side")
        result(ctx, op, t.matricize(p[:k], p[k:]), y.reshape(n, -1, order="F"))
    elif op == "matricize-last":
        result(ctx, op, t.matricize(-1), unfold(x, [d - 1]))
    elif op == "constructor":
        result(ctx, "copy", tensap.FullTensor(t), x)
        result(ctx, "order", tensap.FullTensor(x, d + 2), x[..., None, None])
        result(ctx, "shape", tensap.FullTensor(x, shape=[x.size, 1]),
               x.reshape([x.size, 1], order="F"))
        sh = [int(v) for v in ctx.rng.permutation(x.shape)]
        y = np.reshape(x, -1)
        result(ctx, "shape-vector", tensap.FullTensor(y.copy(), shape=sh), y.reshape(sh, order="F"))
        y = ctx.rng.integers(-4, 5, 6).reshape(2, 3)
        result(ctx, "list", tensap.FullTensor(y.tolist()), y, deg=0)
    elif op == "cat":
        y = tensor(ctx, shape=[ctx.randint(1, 3) for _ in range(d)])
        ctx.case(other=y.shape)
        result(ctx, op, t.cat(tensap.FullTensor(y)), gen.cat_dense(x, y))
    elif op == "cat-dims":
        ds = dims_of(ctx, d)
        sh = [ctx.randint(1, 3) if k in ds else x.shape[k] for k in range(d)]
        y = tensor(ctx, shape=sh)
        ctx.case(dims=ds, other=sh)
        full = np.zeros([x.shape[k] + (sh[k] if k in ds else 0) for k in range(d)])
        full[tuple(slice(0, n) for n in x.shape)] = x
        full[tuple(slice(x.shape[k], None) if k in ds else slice(None) for k in range(d))] = y
        result(ctx, op, t.cat(tensap.FullTensor(y), given(ctx, ds)), full)
    else:
        y = tensor(ctx, dmax=3, smax=3)
        if x.size * y.size > 20000:
            raise Skip("large")
        m = max(d, y.ndim)
        xx = x.reshape(list(x.shape) + [1] * (m - d))
        yy = y.reshape(list(y.shape) + [1] * (m - y.ndim))
        ctx.case(other=y.shape)
        result(ctx, op, t.kron(tensap.FullTensor(y)), gen.kron_dense(xx, yy), deg=2)


@P.scenario(400)
def evaluations(ctx):
    x = tensor(ctx)
    d = x.ndim
    t = tensap.FullTensor(x)
    op = ctx.choice(["all", "all", "partial", "partial", "one", "sub", "diag", "diag-dims"])
    n = ctx.randint(1, 5)
    if op.startswith("diag"):
        if d == 1:
            raise Skip("order one")
        m = ctx.randint(1, 4)
        ds = dims_of(ctx, d, 2)
        sh = [m if (k in ds or op == "diag") else x.shape[k] for k in range(d)]
        x = tensor(ctx, shape=sh)
        t = tensap.FullTensor(x)
        i = np.arange(m)
        if op == "diag":
            ctx.case(op=op, shape=sh)
            result(ctx, op, t.eval_diag(), x[tuple([i] * d)])
            return
        ctx.case(op=op, shape=sh, dims=ds)
        got = t.eval_diag(np.array(ds) if ctx.coin() else list(ds))
        rest = [k for k in range(d) if k not in ds]
        ref = np.transpose(x, ds + rest)[tuple([i] * len(ds))]
        position(ctx, op, got, ref, ds)
        return
    if op == "sub":
        idx, full = [], []
        for k in range(d):
            if ctx.coin(0.35):
                idx.append(":")
                full.append(np.arange(x.shape[k]))
            else:
                i = ctx.rng.integers(0, x.shape[k], ctx.randint(1, 5))
                idx.append(int(i[0]) if ctx.coin(0.2) and i.size == 1 else i.tolist())
                full.append(i)
        ctx.case(op=op, shape=x.shape, idx=[f.tolist() for f in full])
        result(ctx, op, t.sub_tensor(*idx), x[np.ix_(*full)])
        return
    ds = list(range(d)) if op == "all" else dims_of(ctx, d, 1, 1 if op == "one" else None)
    if len(ds) == d and op != "all":
        ds = sorted(ds)
    ind = np.column_stack([ctx.rng.integers(0, x.shape[k], n) for k in ds])
    ctx.case(op=op, shape=x.shape, dims=ds, ind=ind.tolist())
    if op == "all":
        result(ctx, op, t.eval_at_indices(ind), x[tuple(ind.T)])
        return
    if n == len(ds):
        ind = np.vstack([ind, ind[:1]])  # a square array of indices is ambiguous
    got = t.eval_at_indices(ind, given(ctx, ds))
    rest = [k for k in range(d) if k not in ds]
    ref = np.transpose(x, ds + rest)[tuple(ind.T)]
    position(ctx, op, got, ref, ds)


def position(ctx, name, got, ref, dims):
    """The evaluation index takes the place of the first of the dimensions."""
    result(ctx, name, got, np.moveaxis(ref, 0, min(dims)), 1e-12)


@P.scenario(600)
def contractions(ctx):
    x = tensor(ctx)
    d = x.ndim
    t = tensap.FullTensor(x)
    op = ctx.choice(["matrix", "vector", "diagmat", "matrix-diag", "tensordot", "outer",
                     "metric", "except", "sum", "mean", "sum-dims", "mean-dims", "matrix-dims",
                     "vector-dims", "diagmat-dims", "matrix-diag-dims"])
    ds = dims_of(ctx, d) if op.endswith("-dims") else list(range(d))
    ctx.case(op=op, shape=x.shape, dims=ds)
    n = ctx.randint(1, 4)
    if op.startswith("matrix-diag"):
        ms = [ctx.rng.standard_normal((n, x.shape[k])) for k in ds]
        got = t.tensor_matrix_product_eval_diag(list(ms)) if not op.endswith("dims") else \
            t.tensor_matrix_product_eval_diag(list(ms), np.array(ds) if ctx.coin() else ds)
        ref = gen.eval_diag_product(x, ms, ds)
        result(ctx, op, got, ref, scale=30)
    elif op.startswith("matrix"):
        ms = [ctx.rng.standard_normal((ctx.randint(1, 4), x.shape[k])) for k in ds]
        ref = gen.mode_products(x, ms, ds)
        if op == "matrix":
            got = t.tensor_matrix_product(list(ms))
        elif len(ds) == 1 and ctx.coin():
            got = t.tensor_matrix_product(ms[0], ds[0])
        else:
            got = t.tensor_matrix_product(list(ms), given(ctx, ds))
        result(ctx, op, got, ref, scale=30)
    elif op.startswith("vector") or op.startswith("diagmat"):
        vs = [ctx.rng.standard_normal(x.shape[k]) for k in ds]
        if ctx.coin(0.15):
            vs[0] = np.zeros(x.shape[ds[0]])
        f = t.tensor_vector_product if op.startswith("vector") else \
            t.tensor_diagonal_matrix_product
        if not op.endswith("dims"):
            got = f(list(vs))
        elif len(ds) == 1 and ctx.coin():
            got = f(vs[0], ds[0])
        else:
            got = f(list(vs), given(ctx, ds))
        if op.startswith("vector"):
            ref = x
            for v, k in sorted(zip(vs, ds), key=lambda p: -p[1]):
                ref = np.tensordot(ref, v, (k, 0))
        else:
            ref = gen.mode_products(x, [np.diag(v) for v in vs], ds)
        result(ctx, op, got, ref, scale=30)
    elif op == "tensordot":
        k = ctx.randint(1, min(d, 2))
        d1 = dims_of(ctx, d, k, k)
        y = tensor(ctx, dmin=k, dmax=max(k, 3))
        d2 = dims_of(ctx, y.ndim, k, k)
        sh = list(y.shape)
        for i, j in zip(d1, d2):
            sh[j] = x.shape[i]
        y = tensor(ctx, shape=sh)
        ctx.case(d1=d1, d2=d2, other=sh)
        one = k == 1 and ctx.coin()
        got = t.tensordot(tensap.FullTensor(y), d1[0] if one else d1, d2[0] if one else d2)
        result(ctx, op, got, np.tensordot(x, y, (d1, d2)), scale=30, deg=2)
    elif op == "outer":
        y = tensor(ctx, dmax=2)
        result(ctx, op, t.tensordot(tensap.FullTensor(y), 0), np.multiply.outer(x, y), deg=2)
    elif op == "metric":
        y = tensor(ctx, shape=x.shape)
        ms = [ctx.rng.standard_normal((k, k)) for k in x.shape]
        ref = np.sum(x * gen.mode_products(y, ms, range(d)))
        result(ctx, op, t.dot_with_rank_one_metric(tensap.FullTensor(y), ms), ref, scale=1e3, deg=2)
    elif op == "except":
        if d == 1:
            raise Skip("order one")
        k = ctx.randint(0, d - 1)
        ysh = [ctx.randint(1, 4) for _ in range(d)]
        y = tensor(ctx, shape=ysh)
        ms = [ctx.rng.standard_normal((x.shape[j], ysh[j])) for j in range(d)]
        rest = [j for j in range(d) if j != k]
        ref = np.tensordot(x, gen.mode_products(y, [ms[j] for j in rest], rest), (rest, rest))
        ctx.case(k=k, other=ysh)
        got = t.tensordot_matrix_product_except_dim(tensap.FullTensor(y), list(ms), k)
        result(ctx, op, got, ref, scale=1e3, deg=2)
    else:
        f = np.sum if op.startswith("sum") else np.mean
        g = t.reduce_sum if op.startswith("sum") else t.reduce_mean
        if op.endswith("dims"):
            result(ctx, op, g(given(ctx, ds)), f(x, axis=tuple(ds), keepdims=True))
        else:
            result(ctx, op, g(), f(x, keepdims=True))


@P.scenario(300)
def diagonals_of_products(ctx):
    """Diagonals (one or several) of contractions and outer products: einsum."""
    d1, d2 = ctx.randint(2, 4), ctx.randint(2, 4)
    m = ctx.randint(1, 3)
    p1 = [int(v) for v in ctx.rng.permutation(d1)]
    p2 = [int(v) for v in ctx.rng.permutation(d2)]
    diag = ctx.coin()
    nc = ctx.randint(0, 1)
    nd = ctx.randint(1, min(d1, d2) - nc) if diag else 1
    c1, c2 = p1[:nc], p2[:nc]
    g1, g2 = p1[nc:nc + nd], p2[nc:nc + nd]
    sh1 = [ctx.randint(1, 4) for _ in range(d1)]
    sh2 = [ctx.randint(1, 4) for _ in range(d2)]
    for a, b in zip(c1, c2):
        sh2[b] = sh1[a]
    for a, b in zip(g1, g2):
        sh1[a] = sh2[b] = m + (a if diag else 0)
    x, y = ctx.rng.standard_normal(sh1), ctx.rng.standard_normal(sh2)
    i1 = list(range(d1))
    i2 = list(range(d1, d1 + d2))
    for a, b in zip(g1, g2):
        i2[b] = a
    for a, b in zip(c1, c2):
        i2[b] = a
    out = [v for v in i1 if v not in c1] + [v for v in i2 if v >= d1]
    ref = np.einsum(x, i1, y, i2, out)
    ctx.case(sh1=sh1, sh2=sh2, c1=c1, c2=c2, g1=g1, g2=g2, diag=diag)
    t, u = tensap.FullTensor(x), tensap.FullTensor(y)
    if nc == 0 and ctx.coin():
        got = t.outer_product_eval_diag(u, g1, g2, diag)
        result(ctx, "outer_product_eval_diag", got, ref, scale=10)
    elif nc == 0:
        got = t.tensordot_eval_diag(u, None, None, g1, g2, diag)
        result(ctx, "tensordot_eval_diag-none", got, ref, scale=10)
    else:
        got = t.tensordot_eval_diag(u, c1, c2, g1, g2, diag)
        result(ctx, "tensordot_eval_diag", got, ref, scale=10)


@P.scenario(80)
def factories(ctx):
    sh = [ctx.randint(1, 4) for _ in range(ctx.randint(1, 4))]
    ctx.case(shape=sh)
    F = tensap.FullTensor
    result(ctx, "zeros", F.zeros(sh), np.zeros(sh))
    result(ctx, "ones", F.ones(sh), np.ones(sh))
    result(ctx, "create", F.create(lambda s: np.arange(np.prod(s)).reshape(s), sh),
           np.arange(np.prod(sh)).reshape(sh))
    for k in ("randn", "rand"):
        r = getattr(F, k)(sh)
        ctx.check(k, list(r.shape) == sh and np.all(np.isfinite(r.data)))
    v = ctx.rng.standard_normal(ctx.randint(1, 4))
    d = ctx.randint(1, 4)
    ref = np.zeros([v.size] * d)
    for i in range(v.size):
        ref[tuple([i] * d)] = v[i]
    result(ctx, "diag", F.diag(v, d), ref)
