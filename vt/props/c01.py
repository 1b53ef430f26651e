import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import arr, dense_of, random_tbt

P = Prop("C01", "Tree-based tensor arithmetic agrees with dense arithmetic",
         "random dimension trees (named families and random shapes/numberings), active-node "
         "sets, shapes with and without unit modes, ranks, root rank 1 or more; every case "
         "compares the library with an independent einsum of the cores. Non-trivial: at least "
         "one comparison of a tensor with two or more entries; distinct by tree/shape/ranks/op.")


def same_format(ctx, a, root_rank=None):
    """Another tensor on the same tree, shape and active nodes."""
    return random_tbt(ctx, tm=a.tm, shape=a.shape, active=a.active,
                      root_rank=a.root_rank if root_rank is None else root_rank)


def other_active(ctx, a):
    """The active nodes of a, or (one time in three) others."""
    return gen.random_active(ctx, a.tm) if ctx.coin(0.35) else a.active


def result(ctx, name, got, ref, scale, rtol=1e-10):
    ctx.op(name)
    tbtmon.check_rep(ctx, got, name)
    ctx.close(name, dense_of(got), ref, rtol, scale=scale)
    ctx.close(name + ":full", got.full().data, ref, rtol, scale=scale)


@P.scenario(400)
def conversion(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2, 3]), dmax=6)
    ctx.case(**a.describe())
    t = a.build()
    ctx.op("TreeBasedTensor")
    tbtmon.check_rep(ctx, t, "constructor")
    ctx.close("full", t.full().data, a.dense, 1e-11)
    ctx.close("numpy", t.numpy(), a.dense, 1e-11)
    ctx.equal("shape", np.asarray(t.shape), np.asarray(a.shape))
    ctx.check("order", t.order == a.tm.d and t.ndim == a.tm.d)
    ctx.equal("ranks", np.asarray(t.ranks),
              np.asarray([a.ranks[n + 1] for n in range(a.tm.nb)]))
    ctx.equal("active", np.asarray(t.active_nodes),
              np.asarray([n for n in sorted(a.active) if a.active[n]]))
    ctx.equal("active_dims", np.sort(np.asarray(t.active_dims)),
              np.asarray(sorted(a.tm.leaf_dim[n] for n in a.tm.leaves if a.active[n]), dtype=int))
    ctx.equal("non_active_dims", np.sort(np.asarray(t.non_active_dims)), np.asarray(
        sorted(a.tm.leaf_dim[n] for n in a.tm.leaves if not a.active[n]), dtype=int))
    ctx.check("storage", t.storage() == sum(np.size(c) for c in a.cores.values()))
    ctx.check("sparse_storage",
              t.sparse_storage() == sum(np.count_nonzero(c) for c in a.cores.values()))
    ctx.check("sparse_leaves_storage", t.sparse_leaves_storage() == sum(
        np.count_nonzero(c) if n in a.tm.leaf_dim else np.size(c)
        for n, c in a.cores.items()))
    # conversion twice (a conversion must not spoil the object)
    ctx.close("full-again", t.full().data, a.dense, 1e-11)


@P.scenario(120)
def from_full(ctx):
    d = ctx.randint(1, 5)
    x = ctx.rng.standard_normal([ctx.randint(1, 4) for _ in range(d)])
    if d == 1 and x.size < 2:
        raise Skip("order-one singleton")
    ctx.case(shape=x.shape)
    t = tensap.FullTensor(x).tree_based_tensor()
    ctx.op("FullTensor.tree_based_tensor")
    ctx.check("order", t.order == d)
    ctx.close("tree_based_tensor", t.full().data, x, 1e-13)


@P.scenario(120)
def factories(ctx):
    tm = gen.named_tree_model(ctx, ctx.randint(2, 5))
    shape = [ctx.randint(1, 4) for _ in range(tm.d)]
    act = gen.random_active(ctx, tm)
    ranks = {n: ctx.randint(1, 3) if act[n] else 0 for n in tm.children}
    ranks[tm.root] = ctx.choice([1, 1, 2])
    rl = [ranks[n + 1] for n in range(tm.nb)]
    al = [act[n + 1] for n in range(tm.nb)]
    ctx.case(tree=tm.describe(), shape=shape, ranks=rl, active=al)
    kind = ctx.choice(["ones", "zeros", "randn", "rand"])
    t = getattr(tensap.TreeBasedTensor, kind)(tm.tree(), rl, shape, al)
    ctx.op(kind)
    tbtmon.check_rep(ctx, t, kind)
    ctx.equal("shape", np.asarray(t.shape), np.asarray(shape))
    ctx.equal("ranks", np.asarray(t.ranks), np.asarray(rl))
    ctx.equal("active", np.asarray(t.is_active_node), np.asarray(al))
    cores = {}
    if kind in ("ones", "zeros"):
        f = np.ones if kind == "ones" else np.zeros
        for n in tm.children:
            if act[n]:
                cores[n] = f(gen.core_shape(tm, shape, ranks, act, n))
        ctx.close(kind, t.full().data, gen.contract(tm, act, cores), 1e-13)
    else:
        ctx.close(kind, t.full().data, dense_of(t), 1e-11)


@P.scenario(60)
def tensor_train(ctx):
    d = ctx.randint(2, 6)
    n = [ctx.randint(1, 4) for _ in range(d)]
    r = [ctx.randint(1, 3) for _ in range(d - 1)]
    cores = []
    for k in range(d):
        sh = [n[0], r[0]] if k == 0 else ([r[k - 1], n[k]] + ([r[k]] if k < d - 1 else []))
        cores.append(ctx.rng.standard_normal(sh))
    ctx.case(shape=n, ranks=r)
    ref = cores[0]
    for k in range(1, d):
        ref = np.tensordot(ref, cores[k], (-1, 0))
    t = [tensap.FullTensor(c) for c in cores]
    if ctx.coin():
        result(ctx, "tensor_train", tensap.TreeBasedTensor.tensor_train(t), ref, np.max(np.abs(ref)) + 1)
    else:
        # core k belongs to dimension dims[k]
        dims = ctx.rng.permutation(d)
        ctx.case(shape=n, ranks=r, dims=dims)
        arg = np.array(t + [None], dtype=object)[:-1] if ctx.coin() else t
        got = tensap.TreeBasedTensor.tensor_train(arg, dims if ctx.coin() else dims.tolist())
        result(ctx, "tensor_train:dims", got, np.transpose(ref, np.argsort(dims)), np.max(np.abs(ref)) + 1)


@P.scenario(120)
def defaults(ctx):
    """Factories whose ranks, shape and active nodes are left to them; copies."""
    tm = gen.named_tree_model(ctx, ctx.randint(2, 5))
    tree = tm.tree()
    kind = ctx.choice(["ones", "zeros", "rand", "randn"])
    rk = ctx.choice(["none", "random", "scalar", "list"])
    ranks = {"none": None, "random": "random", "scalar": ctx.randint(1, 3),
             "list": [ctx.randint(1, 3) for _ in range(tm.nb)]}[rk]
    sk = ctx.choice(["none", "random", "list"])
    shape = {"none": None, "random": "random", "list": [ctx.randint(1, 4) for _ in range(tm.d)]}[sk]
    ak = ctx.choice(["none", "random", "list"])
    act = gen.random_active(ctx, tm)
    active = {"none": None, "random": "random", "list": [act[n + 1] for n in range(tm.nb)]}[ak]
    ctx.case(kind=kind, ranks=ranks, shape=shape, active=active, tree=tm.describe())
    ctx.op("%s:%s:%s:%s" % (kind, rk, sk, ak))
    t = getattr(tensap.TreeBasedTensor, kind)(tree, ranks, shape, active)
    tbtmon.check_rep(ctx, t, "factory")
    m = gen.model_of(t.tree)
    ctx.check("tree", m.parent == tm.parent and m.leaf_dim == tm.leaf_dim)
    on = [bool(v) for v in t.is_active_node]
    ctx.check("active:internal", all(on[n - 1] for n in tm.internal))
    if ak != "random":
        ctx.equal("active", on, [True] * tm.nb if ak == "none" else active)
    got = [int(v) for v in t.ranks]
    for n in tm.children:
        if on[n - 1]:
            exp = ranks if rk == "scalar" else ranks[n - 1] if rk == "list" else None
            if exp is not None:
                ctx.equal("rank", got[n - 1], exp, "node %d" % n)
            elif n == tm.root:
                ctx.equal("rank", got[n - 1], 1, "root")
            else:
                ctx.check("rank:random", 1 <= got[n - 1] <= 5)
    if sk == "list":
        ctx.equal("shape", [int(v) for v in t.shape], shape)
    elif sk == "random":
        ctx.check("shape:random", all(1 <= v <= 10 for v in t.shape))
    elif rk in ("scalar", "list"):
        ctx.equal("shape:ranks", [int(v) for v in t.shape],
                  [ranks if rk == "scalar" else ranks[int(n) - 1] for n in tm.dim2ind()])
    if t.order and np.prod(t.shape.astype(float)) * got[tm.root - 1] > 20000:
        raise Skip("large")
    x = dense_of(t)
    if kind == "zeros":
        ctx.close("zeros", x, np.zeros(x.shape), 0)
    elif kind == "ones":
        edges = np.prod([float(got[n - 1]) for n in tm.children if on[n - 1] and n != tm.root])
        ctx.close("ones", x, np.full(x.shape, edges), 1e-12)
    else:
        ctx.check(kind, np.all(np.isfinite(x)) and (kind == "randn" or np.all(x >= 0)))
    u = tensap.TreeBasedTensor(t)
    ctx.check("copy", u is not t and np.array_equal(u.ranks, t.ranks) and np.array_equal(u.shape, t.shape)
              and int(u.order) == t.order and np.array_equal(u.is_active_node, t.is_active_node))
    ctx.close("copy:value", dense_of(u), x, 0)
    v = t.orth()
    u = tensap.TreeBasedTensor(v)
    ctx.close("copy:norm", u.norm(), np.linalg.norm(x), 1e-9, scale=max(np.linalg.norm(x), 1e-300))
    if got[tm.root - 1] == 1:
        ctx.close("copy:sum", dense_of(u + t), 2 * x, 1e-9, scale=np.max(np.abs(x)) + 1e-300)


@P.scenario(700)
def arithmetic(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2, 3, 4]))
    op = ctx.choice(["add", "sub", "neg", "mul", "rmul", "div", "hadamard", "hadamard2", "add",
                     "kron", "cat", "add-active"])
    ctx.case(op=op, **a.describe())
    t = a.build()
    if ctx.coin(0.3):
        ctx.op("orth-first")
        t = t.orth()
    elif ctx.coin(0.15):
        nodes = [n for n in a.active if a.active[n]]
        t = t.orth_at_node(ctx.choice(nodes))
        if t.ranks[t.tree.root - 1] != a.root_rank:
            raise Skip("degenerate")
    if op in ("add", "sub"):
        b = same_format(ctx, a)
        u = b.build()
        ref = a.dense + b.dense if op == "add" else a.dense - b.dense
        got = t + u if op == "add" else t - u
        ctx.op(op)
        tbtmon.check_rep(ctx, got, op)
        s = a.mag + b.mag
        ctx.close(op, dense_of(got), ref, 1e-10, scale=s)
        ctx.close(op + ":full", got.full().data, ref, 1e-10, scale=s)
        if a.root_rank == 1:
            ctx.close(op + ":norm", got.norm(), np.linalg.norm(ref), 1e-7,
                      scale=a.magnorm + b.magnorm)
    elif op == "add-active":
        act = gen.random_active(ctx, a.tm)
        b = random_tbt(ctx, tm=a.tm, shape=a.shape, active=act, root_rank=a.root_rank)
        got = t + b.build()
        s = a.mag + b.mag
        ctx.op(op)
        tbtmon.check_rep(ctx, got, op)
        ctx.close(op, dense_of(got), a.dense + b.dense, 1e-10, scale=s)
    elif op == "neg":
        result(ctx, op, -t, -a.dense, a.mag)
        ctx.close("neg:norm", (-t).norm(), np.linalg.norm(a.dense), 1e-7, scale=a.magnorm)
    elif op in ("mul", "rmul", "div"):
        c = float(ctx.choice([2.5, -3.0, 0.125, -1e-3, 1e4]))
        if op == "mul":
            got, ref = t * c, a.dense * c
        elif op == "rmul":
            got, ref = c * t, a.dense * c
        else:
            got, ref = t / c, a.dense / c
        f = abs(c) if op != "div" else 1 / abs(c)
        result(ctx, op, got, ref, a.mag * f)
        ctx.close(op + ":norm", got.norm(), np.linalg.norm(ref), 1e-7, scale=a.magnorm * f)
    elif op in ("hadamard", "hadamard2"):
        b = random_tbt(ctx, tm=a.tm, shape=a.shape, active=other_active(ctx, a),
                       root_rank=a.root_rank)
        u = b.build()
        got = t * u if op == "hadamard" else t.hadamard_product(u)
        result(ctx, op, got, a.dense * b.dense, a.mag * b.mag)
    elif op == "kron":
        if a.root_rank != 1:
            raise Skip("vector valued")
        b = random_tbt(ctx, tm=a.tm, active=other_active(ctx, a), smax=3, rmax=2)
        ref = gen.kron_dense(a.dense, b.dense)
        if ref.size > 200000:
            raise Skip("too large")
        result(ctx, op, t.kron(b.build()), ref, a.mag * b.mag)
    elif op == "cat":
        if a.root_rank != 1:
            raise Skip("vector valued")
        b = random_tbt(ctx, tm=a.tm, active=other_active(ctx, a))
        result(ctx, op, t.cat(b.build()), gen.cat_dense(a.dense, b.dense), a.mag + b.mag)


@P.scenario(250)
def products(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2, 3]))
    rr = a.root_rank
    b = random_tbt(ctx, tm=a.tm, shape=a.shape, active=other_active(ctx, a), root_rank=rr)
    ctx.case(b=b.describe(), **a.describe())
    t, u = a.build(), b.build()
    if ctx.coin(0.3):
        t = t.orth()
    s = a.magnorm * b.magnorm
    if rr == 1:
        ctx.op("dot")
        ctx.close("dot", t.dot(u), np.sum(a.dense * b.dense), 1e-10, scale=s)
        ctx.close("dot-self", t.dot(t), np.sum(a.dense ** 2), 1e-10, scale=a.magnorm ** 2)
    else:
        ctx.op("dot-vector-valued")
        ref = np.tensordot(a.dense, b.dense, (range(a.tm.d), range(a.tm.d)))
        ctx.close("dot-vector-valued", t.dot(u), ref, 1e-10, scale=s)
    ctx.op("norm")
    ctx.close("norm", t.norm(), np.linalg.norm(a.dense), 1e-8, scale=a.magnorm)
    ms = [ctx.rng.standard_normal((n, n)) for n in a.shape]
    y = gen.mode_products(b.dense, ms, range(a.tm.d))
    got = t.dot_with_rank_one_metric(u, ms)
    ctx.op("dot_with_rank_one_metric")
    if rr == 1:
        ref = np.sum(a.dense * y)
    else:
        ref = np.tensordot(a.dense, y, (range(a.tm.d), range(a.tm.d)))
    ctx.close("dot_with_rank_one_metric", got, ref, 1e-11,
              scale=s * 10.0 ** a.tm.d)


@P.scenario(120)
def vector_valued(ctx):
    """Matrix times a vector-valued tensor: contraction of the output dimension."""
    a = random_tbt(ctx, root_rank=ctx.randint(1, 4))
    t = a.build()
    bad = ctx.choice([k for k in range(1, 6) if k != a.root_rank or k == 1])
    ctx.raises("matrix-of-other-size", t.__rmul__, ctx.rng.standard_normal((ctx.randint(2, 4), bad)))
    if a.root_rank == 1:
        return
    m = ctx.rng.standard_normal((ctx.randint(2, 4), a.root_rank))
    ctx.case(m=m.shape, **a.describe())
    got = a.build().__rmul__(m)
    result(ctx, "matrix-times-tensor", got, gen.mode_product(a.dense, m, a.tm.d),
           a.mag * np.max(np.abs(m)) * a.root_rank)


@P.scenario(250)
def expressions(ctx):
    """Sequences of operations; the dense value is carried along."""
    a = random_tbt(ctx, dmax=4, rmax=2)
    t, x = a.build(), a.dense
    m = a.mag
    log = []
    for _ in range(ctx.randint(2, 5)):
        if t.storage() > 4000:
            break
        op = ctx.choice(["+", "-", "*", "c", "neg", "orth", "orthn", "self+", "self*", "/"])
        log.append(op)
        if op == "self+":
            t, x, m = t + t, x + x, 2 * m
        elif op == "self*":
            t, x, m = t * t, x * x, m * m
        elif op in "+-*":
            b = random_tbt(ctx, tm=a.tm, shape=a.shape, active=a.active, rmax=2)
            u, y = b.build(), b.dense
            if op == "+":
                t, x, m = t + u, x + y, m + b.mag
            elif op == "-":
                t, x, m = t - u, x - y, m + b.mag
            else:
                t, x, m = t * u, x * y, m * b.mag
        elif op == "c":
            c = float(ctx.rng.standard_normal())
            t, x, m = c * t, c * x, abs(c) * m
        elif op == "/":
            t, x, m = t / 3.0, x / 3.0, m / 3
        elif op == "neg":
            t, x = -t, -x
        elif op == "orth":
            t = t.orth()
        elif op == "orthn":
            nodes = [n for n in a.active if a.active[n]]
            n = ctx.choice(nodes)
            t = t.orth_at_node(n)
    ctx.case(log="".join(log), **a.describe())
    tbtmon.check_rep(ctx, t, "expression " + ",".join(log))
    ctx.close("expression", dense_of(t), x, 1e-9, scale=m)
    ctx.close("expression:norm", t.norm(), np.linalg.norm(x), 1e-7, scale=m * np.sqrt(x.size))


@P.scenario(400)
def other_trees(ctx):
    """Sums of tensors whose trees differ, or are numbered otherwise, are either
    rejected or right; they never mix the cores of different nodes."""
    a = random_tbt(ctx, d=ctx.randint(2, 5))
    if ctx.coin():
        perm = [int(v) + 1 for v in ctx.rng.permutation(a.tm.nb)]
        tm = gen.TreeModel({perm[n - 1]: sorted(perm[c - 1] for c in cs)
                            for n, cs in a.tm.children.items()},
                           {perm[n - 1]: k for n, k in a.tm.leaf_dim.items()})
    else:
        tm = gen.named_tree_model(ctx, a.tm.d)
    b = random_tbt(ctx, tm=tm, shape=a.shape, rmax=2)
    op = ctx.choice(["add", "sub", "dot", "metric", "hadamard", "kron", "cat"])
    ctx.case(op=op, a=a.describe(), b=b.describe())
    ctx.op(op + "-other-tree")
    t, u = a.build(), b.build()
    ms = [ctx.rng.standard_normal((n, n)) for n in a.shape]
    try:
        if op == "add":
            got = t + u
        elif op == "sub":
            got = t - u
        elif op == "dot":
            got = t.dot(u)
        elif op == "metric":
            got = t.dot_with_rank_one_metric(u, ms)
        elif op == "hadamard":
            got = t * u
        else:
            got = getattr(t, op)(u)
    except Exception:
        ctx.check("rejected", True)
        return
    if op in ("dot", "metric"):
        y = b.dense if op == "dot" else gen.mode_products(b.dense, ms, range(a.tm.d))
        ctx.close(op, got, np.sum(a.dense * y), 1e-9,
                  scale=a.magnorm * b.magnorm * 10.0 ** a.tm.d)
        return
    ref = {"add": lambda: a.dense + b.dense, "sub": lambda: a.dense - b.dense,
           "hadamard": lambda: a.dense * b.dense,
           "kron": lambda: gen.kron_dense(a.dense, b.dense),
           "cat": lambda: gen.cat_dense(a.dense, b.dense)}[op]()
    s = a.mag * b.mag if op in ("hadamard", "kron") else a.mag + b.mag
    ctx.close(op, dense_of(got), ref, 1e-10, scale=s)
