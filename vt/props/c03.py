import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import dense_of, random_tbt

P = Prop("C03", "Changing the representation of a tree-based tensor preserves its value",
         "random trees (also with unary nodes where relevant), active sets, ranks (admissible "
         "or not), root ranks; one or a sequence of orthogonalisations, root changes, node and "
         "leaf permutations, (in)activations, removals of unique children, storage "
         "optimisations. Non-trivial: the dense value is non-zero; distinct by tree, shape, "
         "ranks and operations.")


def preserved(ctx, name, t, a, ref=None, tol=0.0, rtol=1e-7):
    """Same value as the dense reference up to tol * norm (a requested
    truncation) plus rounding of an orthogonalisation-based algorithm."""
    ref = a.dense if ref is None else ref
    tbtmon.check_rep(ctx, t, name)
    got = dense_of(t)
    ctx.check(name + ":shape", got.shape == ref.shape,
              "shape %s, expected %s" % (got.shape, ref.shape))
    err = np.linalg.norm(got - ref)
    bound = tol * np.linalg.norm(ref) * (1 + 1e-6) + rtol * a.magnorm
    ctx.check(name, err <= bound, "error %.3g exceeds %.3g" % (err, bound))
    ctx.close(name + ":full", t.full().data, got, 1e-9, scale=a.mag)


@P.scenario(500)
def orthogonalise(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2, 3]), admissible=ctx.coin(0.6))
    t = a.build()
    kind = ctx.choice(["orth", "node", "twice", "node-after-orth"])
    nodes = [n for n in sorted(a.active) if a.active[n]]
    n = ctx.choice(nodes)
    ctx.case(kind=kind, node=n, **a.describe())
    ctx.op(kind)
    if kind == "orth":
        u = t.orth()
        ctx.check("is_orth", u.is_orth and u.orth_node == a.tm.root)
    elif kind == "twice":
        u = t.orth().orth()
        ctx.check("is_orth", u.is_orth and u.orth_node == a.tm.root)
    elif kind == "node":
        u = t.orth_at_node(n)
    else:
        u = t.orth().orth_at_node(n)
    preserved(ctx, kind, u, a, rtol=1e-10 if kind in ("orth", "twice") else 1e-6)
    ctx.close("norm", u.norm(), np.linalg.norm(a.dense), 1e-6, scale=a.magnorm)
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


@P.scenario(400)
def change_root(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2, 3]))
    t = a.build()
    n = ctx.choice([n for n in sorted(a.active) if a.active[n]])
    ctx.case(node=n, **a.describe())
    ctx.op("change_root")
    u = t.change_root(n)
    ctx.check("root", int(u.tree.root) == n)
    preserved(ctx, "change_root", u, a, rtol=1e-11)
    if a.root_rank == 1 or n != a.tm.root:
        ctx.check("order", u.order == a.dense.ndim)
        ctx.close("norm", u.norm(), np.linalg.norm(a.dense), 1e-7, scale=a.magnorm)
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


def swappable(tm):
    out = []

    def desc(n):
        return {n}.union(*[desc(c) for c in tm.children[n]])
    for x in tm.children:
        for y in tm.children:
            if x < y and x != tm.root and y != tm.root and x not in desc(y) \
                    and y not in desc(x):
                out.append((x, y))
    return out


def swap(parent, x, y):
    q = dict(parent)
    q[x], q[y] = parent[y], parent[x]
    return q


@P.scenario(400)
def permute_nodes(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2]), dmax=6, smax=3,
                   admissible=ctx.coin(0.6))
    pairs = swappable(a.tm)
    if not pairs:
        raise Skip("nothing to permute")
    t = a.build()
    x, y = ctx.choice(pairs)
    if ctx.coin():
        x, y = y, x
    tol = ctx.choice([None, 1e-12, 1e-3, 0.1, 0.4])
    ctx.case(nodes=[x, y], tol=tol, **a.describe())
    ctx.op("permute_nodes")
    u = t.permute_nodes([x, y]) if tol is None else t.permute_nodes([x, y], tol)
    preserved(ctx, "permute_nodes", u, a, tol=tol or 0.0, rtol=1e-6)
    if a.tm.parent[x] != a.tm.parent[y]:
        exp = swap(a.tm.parent, x, y)
        ctx.check("swapped", gen.model_of(u.tree).parent == exp,
                  "parents %s, expected %s" % (gen.model_of(u.tree).parent, exp))
    ctx.equal("dim2ind", u.tree.dim2ind, a.tm.dim2ind())
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


@P.scenario(120)
def permutation_costs(ctx):
    """Cost of exchanging two nodes: the number of entries of the tensor obtained by contracting the
    cores met on the way from one to the other; nothing for siblings and nodes that cannot be
    exchanged, which are refused."""
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 1, 2]), dmax=7, smax=3)
    t, tm = a.build(), a.tm
    ctx.case(**a.describe())
    ctx.op("nodes_permutation_cost")

    def asc(n):
        out = []
        while n in tm.parent:
            n = tm.parent[n]
            out.append(n)
        return out
    size = {n: a.ranks[n] if a.active[n] else a.shape[tm.leaf_dim[n]] for n in tm.children}
    size[tm.root] = a.root_rank
    for x in [int(v) + 1 for v in ctx.rng.permutation(tm.nb)[:3]]:
        exp = np.zeros(tm.nb)
        for y in tm.children:
            if y == x or y in asc(x) or x in asc(y) or tm.parent[x] == tm.parent[y]:
                continue
            top = [n for n in asc(x) if n in asc(y)][0]
            path = {n for n in asc(x) + asc(y) if n == top or top in asc(n)}
            exp[y - 1] = size[top] * np.prod([size[c] for n in path for c in tm.children[n] if c not in path])
        if x != tm.root:
            ctx.equal("cost", t.nodes_permutation_cost(x), exp, "node %d" % x)
        up = asc(x)
        if up:
            y = ctx.choice(up)
            ctx.raises("ascendant", t.permute_nodes, [x, y])
            ctx.raises("descendant", t.permute_nodes, [y, x])


@P.scenario(500)
def permutation_tolerance(ctx):
    """Permutations of tensors whose spectra have tails of the size of the tolerance."""
    d = ctx.randint(3, 7)
    tm = gen.named_tree_model(ctx, d)
    pairs = swappable(tm)
    if not pairs:
        raise Skip("nothing to permute")
    shape = [ctx.choice([2, 3] if d < 6 else [2])] * d
    tol = ctx.choice([1e-3, 1e-2, 0.1, 0.3])
    low = None
    gammas = [n for n in tm.children if n != tm.root and any(
        tm.parent[p[0]] != tm.parent[p[1]] and set(tm.dims(p[0]) + tm.dims(p[1])) < set(tm.dims(n)) for p in pairs)]
    if gammas and ctx.coin(0.5):  # one dominating direction below an inner node, whose tails matter
        g = ctx.choice(gammas)
        low = [p for p in pairs if tm.parent[p[0]] != tm.parent[p[1]]
               and set(tm.dims(p[0]) + tm.dims(p[1])) < set(tm.dims(g))]
        ins = sorted(tm.dims(g))
        out = [k for k in range(d) if k not in ins]
        if len(ins) <= 4:  # leading directions in a corner, the tail of the dominating one outside of it
            for k in ins:
                shape[k] = 3
        m = int(np.prod([shape[k] for k in out]))
        shapes = [shape[k] for k in ins]
        r = min(m, 2 ** len(ins) if shapes[0] == 3 else 1, ctx.choice([2, 4, 8]))
        # tails up to those allowed if the r directions had the same weight
        eps = tol * ctx.choice([1, 0.5 * np.sqrt(r), 0.8 * np.sqrt(r), 0.9 * np.sqrt(r)]) / np.sqrt(ctx.randint(1, 4))
        corner = np.zeros([2] * len(ins) + [r]) if r == 1 else ctx.rng.standard_normal([2] * len(ins) + [r])
        corner[..., 0] = 0
        corner[(0,) * len(ins)] = 0
        corner = np.linalg.qr(corner.reshape(-1, r)[:, 1:])[0] if r > 1 else np.zeros((2 ** len(ins), 0))
        U = np.zeros(shapes + [r])
        U[tuple(slice(0, 2) for _ in ins) + (slice(1, r),)] = corner.reshape([2] * len(ins) + [r - 1])
        U[(0,) * len(ins) + (0,)] = 1
        U[(min(shapes) - 1,) * len(ins) + (0,)] = eps
        for k in range(len(ins)):
            q, _ = np.linalg.qr(ctx.rng.standard_normal((shapes[k], shapes[k])))
            U = gen.mode_product(U, q, k)
        V = np.linalg.qr(ctx.rng.standard_normal((m, r)))[0]
        weights = np.concatenate(([1.0], np.full(r - 1, ctx.choice([1e-6, 1e-4]))))
        x = (U.reshape(-1, r) * weights) @ V.T
        x = np.transpose(x.reshape([shape[k] for k in ins + out]), np.argsort(ins + out))
        x = x / np.linalg.norm(x)
    elif ctx.coin():  # dense spectra, with one node whose singular values differ by orders of magnitude
        a = random_tbt(ctx, tm=tm, shape=shape, rmax=4, dist="normal", scaled=False, p_all=1.0)
        inner = [n for n in tm.children if tm.children[n] and n != tm.root]
        if inner:
            n = ctx.choice(inner)
            a.cores[n] = a.cores[n] * np.logspace(0, -ctx.choice([0, 1, 2, 3]), a.ranks[n])
        x = gen.contract(tm, a.active, a.cores)
        x = x / np.linalg.norm(x)
    else:
        x = gen.graded_tensor(ctx, shape, tol, ctx.choice([1, 1, 2, 4]))
    t = tensap.Truncator(0, np.inf).hsvd(tensap.FullTensor(x), tm.tree())
    ctx.close("exact", dense_of(t), x, 1e-12)
    kind = ctx.choice(["nodes", "leaves", "optimize_dimension_tree", "optimize_leaves_permutations"])
    ctx.op("tolerance-" + kind)
    if kind == "nodes":
        apart = [p for p in pairs if tm.parent[p[0]] != tm.parent[p[1]]]
        low = low or [p for p in apart if any(  # a common ascendant below the root
            n != tm.root and set(tm.dims(p[0]) + tm.dims(p[1])) < set(tm.dims(n)) for n in tm.children)]
        arg = list(ctx.choice(low if low and ctx.coin(0.7) else apart or pairs))
        u = t.permute_nodes(arg, tol)
    elif kind == "leaves":
        arg = ctx.rng.permutation(d).tolist()
        u = t.permute_leaves(arg, tol)
    else:
        arg = ctx.randint(1, 6)
        u = getattr(t, kind)(tol, arg)
    ctx.case(kind=kind, arg=arg, tree=tm.describe(), shape=shape, tol=tol)
    err = np.linalg.norm(dense_of(u) - x) / np.linalg.norm(x)
    ctx.check("tolerance:" + kind, err <= tol * (1 + 1e-6) + 1e-7,
              "relative error %.3g, tolerance %.3g" % (err, tol))
    ctx.equal("dim2ind", u.tree.dim2ind, tm.dim2ind())


@P.scenario(250)
def permute_leaves(ctx):
    a = random_tbt(ctx, dmax=6, smax=3, admissible=ctx.coin(0.6))
    t = a.build()
    perm = ctx.rng.permutation(a.tm.d)
    tol = ctx.choice([None, 1e-12, 1e-3, 0.1])
    given = perm.tolist() if ctx.coin() else np.array(perm)
    ctx.case(perm=perm, tol=tol, **a.describe())
    ctx.op("permute_leaves")
    u = t.permute_leaves(given) if tol is None else t.permute_leaves(given, tol)
    preserved(ctx, "permute_leaves", u, a, tol=tol or 0.0, rtol=1e-6)
    # leaf perm[k] takes the place of leaf k
    tm = gen.model_of(u.tree)
    d2i = a.tm.dim2ind()
    pos = [a.tm.parent.get(int(d2i[k])) for k in range(a.tm.d)]
    new = [tm.parent.get(int(u.tree.dim2ind[k])) for k in range(a.tm.d)]
    ctx.check("leaf-set", sorted(map(str, pos)) == sorted(map(str, new)))
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


@P.scenario(300)
def activation(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2]))
    t = a.build()
    leaves = [int(x) for x in ctx.rng.permutation(a.tm.leaves)]
    leaves = leaves[: ctx.randint(1, len(leaves))]
    if a.tm.nb == 1:
        raise Skip("single node")
    kind = ctx.choice(["inactivate", "activate", "both"])
    ctx.case(kind=kind, leaves=leaves, **a.describe())
    ctx.op(kind)
    exp = dict(a.active)
    u = t
    if kind != "activate":
        u = u.inactivate_nodes(leaves)
        exp.update({n: False for n in leaves})
    if kind != "inactivate":
        u = u.activate_nodes(leaves)
        exp.update({n: True for n in leaves})
    ctx.check("active-set", [bool(v) for v in u.is_active_node]
              == [exp[n + 1] for n in range(a.tm.nb)])
    preserved(ctx, kind, u, a, rtol=1e-11)
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


@P.scenario(300)
def remove_unique_children(ctx):
    tm = gen.random_tree_model(ctx, ctx.randint(2, 4), unary=True)
    active = gen.random_active(ctx, tm)
    a = random_tbt(ctx, tm=tm, active=active, smax=3, rmax=2)
    t = a.build()
    ctx.case(**a.describe())
    ctx.op("remove_unique_children")
    u = t.remove_unique_children()
    preserved(ctx, "remove_unique_children", u, a, rtol=1e-11)
    m = gen.model_of(u.tree)
    ctx.check("no-unique-child", all(len(c) != 1 for c in m.children.values()),
              "a node with one child is left")
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-12, scale=a.mag)


@P.scenario(150)
def optimise(ctx):
    """Stochastic search of a cheaper tree: value kept, storage never larger."""
    d = ctx.randint(2, 6)
    tm = gen.named_tree_model(ctx, d)
    shape = [ctx.randint(2, 3) for _ in range(d)]
    if ctx.coin(0.6):
        # a tensor whose best tree is another one: a product of pair functions
        x = np.ones([1] * d)
        p = ctx.rng.permutation(d)
        for i in range(0, d - 1, 2):
            sh = [1] * d
            sh[p[i]], sh[p[i + 1]] = shape[p[i]], shape[p[i + 1]]
            x = x * ctx.rng.standard_normal(sh)
        x = x * np.ones(shape)
        tr = tensap.Truncator(1e-12)
        t = tr.hsvd(tensap.FullTensor(x), tm.tree())
        dense, desc = x, {"tree": tm.describe(), "shape": shape, "pairs": p}
    else:
        a = random_tbt(ctx, tm=tm, shape=shape, admissible=True)
        t, dense, desc = a.build(), a.dense, a.describe()
    tol = ctx.choice([1e-10, 1e-4, 0.05])
    kind = ctx.choice(["optimize_dimension_tree", "optimize_leaves_permutations"])
    ctx.case(kind=kind, tol=tol, **desc)
    ctx.op(kind)
    u = getattr(t, kind)(tol, ctx.randint(1, 8))
    tbtmon.check_rep(ctx, u, kind)
    err = np.linalg.norm(dense_of(u) - dense)
    nrm = np.linalg.norm(dense)
    ctx.check(kind, err <= (tol * (1 + 1e-6) + 1e-7) * nrm, "relative error %.3g for tolerance %g"
              % (err / nrm, tol))
    ctx.check("storage", u.storage() <= t.storage())
    if kind == "optimize_leaves_permutations":
        # only leaves change places: the tree of the internal nodes is kept
        new = gen.model_of(u.tree).parent
        ctx.check("internal-nodes-kept", all(new.get(n) == tm.parent.get(n) for n in tm.internal),
                  "internal nodes moved")
    ctx.close("full", u.full().data, dense_of(u), 1e-9, scale=np.max(np.abs(dense)))


@P.scenario(250)
def histories(ctx):
    """A random sequence of value-preserving operations."""
    a = random_tbt(ctx, dmax=5, smax=3, admissible=ctx.coin(0.7))
    t = a.build()
    log = []
    for _ in range(ctx.randint(2, 6)):
        tm = gen.model_of(t.tree)
        op = ctx.choice(["orth", "orthn", "root", "perm", "leaves", "act", "inact"])
        log.append(op)
        if op == "orth":
            t = t.orth()
        elif op == "orthn":
            t = t.orth_at_node(ctx.choice(t.active_nodes.tolist()))
        elif op == "root":
            t = t.change_root(ctx.choice(t.active_nodes.tolist()))
        elif op == "perm":
            pairs = swappable(tm)
            if pairs:
                t = t.permute_nodes(list(ctx.choice(pairs)))
        elif op == "leaves":
            t = t.permute_leaves(ctx.rng.permutation(tm.d).tolist())
        elif op == "act":
            t = t.activate_nodes([n for n in tm.leaves if ctx.coin()])
        else:
            t = t.inactivate_nodes([n for n in tm.leaves if ctx.coin() and n != tm.root])
        if t.storage() > 5000:
            break
        ctx.op(op)
    ctx.case(log=log, **a.describe())
    preserved(ctx, "history", t, a, rtol=1e-5)
    ctx.close("norm", t.norm(), np.linalg.norm(a.dense), 1e-5, scale=a.magnorm)
