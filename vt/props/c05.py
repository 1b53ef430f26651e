import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import dense_of, random_tbt, unfold

P = Prop("C05", "Orthonormal bases, Gram matrices, singular values and ranks are true",
         "random trees, active sets, ranks and root ranks; full tensors of order 1-5; the bases "
         "read from the returned cores are compared with the dense tensor's matricisations. "
         "Non-trivial: tensor non-zero with at least one non-root active node or a matricisation "
         "with two rows; distinct by tree, shape, ranks, node.")


def subtree_basis(t, tm, n):
    """Columns U_n (rows: dims of n in tree order) generated by the subtree of n."""
    if n in tm.leaf_dim:
        return np.asarray(t.tensors[n - 1].data)
    c = np.asarray(t.tensors[n - 1].data)
    for k, ch in enumerate(tm.children[n]):
        if t.is_active_node[ch - 1]:
            c = gen.mode_product(c, subtree_basis(t, tm, ch), k)
    return c.reshape(-1, c.shape[-1], order="F")


def environment(t, tm, n):
    """Matrix W with X_(n) = U_n W^T: the network without the subtree of n."""
    cores = {m: t.tensors[m - 1].data for m in tm.children}
    active = {m: bool(t.is_active_node[m - 1]) for m in tm.children}
    r = int(t.ranks[n - 1])
    # the subtree of n is replaced with an inactive leaf of size r

    def sub(m):
        return {m}.union(*[sub(x) for x in tm.children[m]])
    drop = sub(n) - {n}
    children = {m: ([] if m == n else cs) for m, cs in tm.children.items() if m not in drop}
    others = [k for k in range(tm.d) if k not in tm.dims(n)]
    leaf = {m: others.index(k) for m, k in tm.leaf_dim.items() if m not in drop and m != n}
    leaf[n] = len(others)
    # renumber
    order = sorted(children)
    new = {m: i + 1 for i, m in enumerate(order)}
    tm2 = gen.TreeModel({new[m]: [new[c] for c in cs] for m, cs in children.items()},
                        {new[m]: k for m, k in leaf.items()})
    act2 = {new[m]: active[m] and m != n for m in order}
    cor2 = {new[m]: cores[m] for m in order}
    w = gen.contract(tm2, act2, cor2)
    w = np.moveaxis(w, len(others), -1)
    return w.reshape(-1, r, order="F")


@P.scenario(500)
def orth(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2]), admissible=ctx.coin(0.5))
    t = a.build()
    ctx.case(**a.describe())
    ctx.op("orth")
    if ctx.coin(0.3):
        # an earlier orthogonalisation elsewhere must not be taken for this one
        t = t.orth_at_node(ctx.choice([n for n in a.active if a.active[n]]))
    u = t.orth()
    ctx.check("claims", u.is_orth and u.orth_node == a.tm.root)
    tbtmon.check_orth(ctx, u, a.tm.root, "orth", oracle="orth:orthonormal", tol=1e-9)
    for n in a.tm.children:
        if n != a.tm.root and a.active[n]:
            b = subtree_basis(u, a.tm, n)
            ctx.close("orth:basis", b.T @ b, np.eye(b.shape[1]), 0, 1e-8)
    ctx.close("norm", u.norm(), np.linalg.norm(dense_of(t)), 1e-9, scale=a.magnorm * 1e-3)


@P.scenario(500)
def orth_at_node(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2]), admissible=True, dist="normal")
    nodes = [n for n in sorted(a.active) if a.active[n] and n != a.tm.root]
    if not nodes:
        raise Skip("only the root")
    n = ctx.choice(nodes)
    low = 1e-3
    if ctx.coin(0.3) and a.ranks[n] > 1:  # singular values of very different sizes at the node
        low = 1e-7
        a.cores[n] = a.cores[n] * np.logspace(0, -ctx.choice([2, 4, 5.5]), a.ranks[n])
        a = gen.TBT(a.tm, a.shape, a.ranks, a.active, a.cores)
    s = np.linalg.svd(unfold(a.dense, a.tm.dims(n)), compute_uv=False)
    r = a.ranks[n]
    if s.size < r or s[r - 1] < low * a.magnorm:
        raise Skip("ill-conditioned")
    noise = 1e-14 * (s[0] / s[r - 1]) ** 2  # the singular values are computed from a Gram matrix
    ctx.case(node=n, decay=round(np.log10(s[r - 1] / s[0])), **a.describe())
    ctx.op("orth_at_node")
    t = a.build()
    if ctx.coin(0.3):
        t = t.orth()
    u = t.orth_at_node(n)
    ctx.close("value", dense_of(u), a.dense, 1e-8, scale=a.mag)
    for m in a.tm.children:
        if m != n and a.active[m] and m != a.tm.root and set(a.tm.dims(m)) <= set(a.tm.dims(n)):
            b = subtree_basis(u, a.tm, m)
            ctx.close("below:orthonormal", b.T @ b, np.eye(b.shape[1]), 0, 1e-8)
    w = environment(u, a.tm, n)
    ctx.close("outside:orthonormal", w.T @ w, np.eye(w.shape[1]), 0, max(1e-5, noise))
    # the core of the node carries the whole norm
    ctx.close("norm-in-core", np.linalg.norm(u.tensors[n - 1].data), np.linalg.norm(a.dense),
              1e-6)


@P.scenario(500)
def gramians(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2]), admissible=ctx.coin(0.5))
    t = a.build()
    kind = ctx.choice(["all", "one", "some"])
    act = [n for n in sorted(a.active) if a.active[n] and n != a.tm.root]
    if not act:
        raise Skip("only the root")
    nodes = act if kind == "all" else [int(v) for v in ctx.rng.permutation(act)][
        : 1 if kind == "one" else ctx.randint(1, len(act))]
    ctx.case(kind=kind, nodes=nodes, **a.describe())
    ctx.op("gramians-" + kind)
    if ctx.coin(0.3):
        t = t.orth()
    if kind == "all":
        g, u = t.gramians()
        got = {n: g[n - 1] for n in nodes}
        ctx.check("inactive-none", all(g[n - 1] is None for n in a.active if not a.active[n]))
    elif len(nodes) == 1:
        g, u = t.gramians(nodes[0])
        got = {nodes[0]: g}
    else:
        g, u = t.gramians(np.array(nodes) if ctx.coin() else list(nodes))
        got = {n: g[k] for k, n in enumerate(nodes)}
    ctx.close("value", dense_of(u), a.dense, 1e-9, scale=a.mag)
    for n in nodes:
        b = subtree_basis(u, a.tm, n)
        x = unfold(a.dense, a.tm.dims(n))
        gn = np.asarray(got[n])
        ctx.check("gram:shape", gn.shape == (b.shape[1],) * 2, "node %d" % n)
        ctx.close("gram", b @ gn @ b.T, x @ x.T, 1e-9, scale=a.magnorm ** 2)
        ctx.close("gram:symmetric", gn, gn.T, 1e-10, scale=a.magnorm ** 2)


@P.scenario(400)
def singular_values(ctx):
    a = random_tbt(ctx, root_rank=ctx.choice([1, 1, 2]), admissible=ctx.coin(0.6))
    t = a.build()
    ctx.case(**a.describe())
    ctx.op("singular_values")
    s = t.singular_values()
    ctx.check("length", len(s) == a.tm.nb)
    for n in a.tm.children:
        if not a.active[n]:
            ctx.check("inactive-none", s[n - 1] is None)
            continue
        if n == a.tm.root:
            continue
        ref = np.linalg.svd(unfold(a.dense, a.tm.dims(n)), compute_uv=False)
        got = np.asarray(s[n - 1], dtype=float)
        k = max(ref.size, got.size)
        ctx.close("singular_values", np.r_[got, np.zeros(k - got.size)],
                  np.r_[ref, np.zeros(k - ref.size)], 1e-9, scale=a.magnorm * 3e-7 / 1e-9)
        ctx.check("decreasing", np.all(np.diff(got) <= 0))


@P.scenario(300)
def ranks(ctx):
    """The rank computed by SVD of a tensor in general position."""
    a = random_tbt(ctx, admissible=True, dist="normal")
    ref = {}
    for n in a.tm.children:
        if a.active[n] and n != a.tm.root:
            s = np.linalg.svd(unfold(a.dense, a.tm.dims(n)), compute_uv=False)
            r = a.ranks[n]
            if s.size < r or s[r - 1] < 1e-4 * a.magnorm:
                raise Skip("not in general position")
            ref[n] = r
    ctx.case(**a.describe())
    ctx.op("rank")
    t = a.build()
    got = t.rank
    for n, r in ref.items():
        ctx.check("rank", int(got[n - 1]) == r, "node %d: %s, expected %d" % (n, got[n - 1], r))
    ctx.equal("representation_rank", t.representation_rank, t.ranks)
    ctx.check("admissible", t.is_admissible_rank())


def admissible(tm, shape, ranks, active):
    """A rank is admissible iff no core has a matricisation that cannot have
    full column rank."""
    def size(n):
        return ranks[n] if active[n] else shape[tm.leaf_dim[n]]
    for n in tm.children:
        if not active[n]:
            continue
        if n in tm.leaf_dim:
            if n != tm.root and ranks[n] > shape[tm.leaf_dim[n]]:
                return False
            continue
        up = 1 if n == tm.root else ranks[n]
        ch = tm.children[n]
        if up > np.prod([size(c) for c in ch]):
            return False
        for c in ch:
            if active[c] and ranks[c] > up * np.prod([size(e) for e in ch if e != c]):
                return False
    return True


@P.scenario(600)
def admissible_rank(ctx):
    a = random_tbt(ctx, rmax=ctx.choice([2, 4, 6]), root_rank=ctx.choice([1, 1, 2]),
                   admissible=ctx.coin(0.3))
    t = a.build()
    ctx.case(**a.describe())
    ctx.op("is_admissible_rank")
    exp = admissible(a.tm, a.shape, a.ranks, a.active)
    ctx.check("is_admissible_rank", bool(t.is_admissible_rank()) == exp,
              "answered %s" % (not exp))
    # a rank given by the caller
    q = {n: (ctx.randint(1, 5) if a.active[n] else 0) for n in a.tm.children}
    q[a.tm.root] = a.root_rank
    given = [q[n + 1] for n in range(a.tm.nb)]
    before = list(given)
    arg = np.array(given) if ctx.coin() else given
    got = t.is_admissible_rank(arg)
    ctx.check("is_admissible_rank:given", bool(got) == admissible(a.tm, a.shape, q, a.active),
              "ranks %s" % before)
    ctx.check("argument-intact", list(arg) == before)
    got, detail = t.is_admissible_rank(arg, 2)
    ctx.check("is_admissible_rank:two-outputs", bool(got) == admissible(a.tm, a.shape, q, a.active))
    ctx.check("is_admissible_rank:detail", bool(got) == all(
        np.all(c) for c in detail if c is not None) and len(detail) == a.tm.nb, "%s" % list(detail))
    off = [n for n in sorted(a.tm.leaf_dim) if not a.active[n]]
    if off:
        # an inactive node has no rank
        bad = [max(v, 1) if n + 1 in off and ctx.coin() else v for n, v in enumerate(
            [1 if a.active[k + 1] else 0 for k in range(a.tm.nb)])]
        exp = all(bad[n - 1] == 0 for n in off) and admissible(
            a.tm, a.shape, {n: bad[n - 1] for n in a.tm.children}, a.active)
        ctx.check("is_admissible_rank:inactive", bool(t.is_admissible_rank(bad)) == exp, "ranks %s" % bad)


@P.scenario(300)
def full_tensor(ctx):
    d = ctx.randint(2, 5)
    shape = [ctx.randint(1, 4) for _ in range(d)]
    x = ctx.rng.standard_normal(shape)
    k = ctx.randint(0, d - 1)
    ctx.case(shape=shape, dim=k)
    ctx.op("FullTensor.orth")
    t = tensap.FullTensor(x)
    q, r = t.orth(-1 if k == d - 1 and ctx.coin() else k)
    m = unfold(q.data, [k])
    ctx.close("orth:orthonormal", m @ m.T, np.eye(m.shape[0]), 0, 1e-9)
    ctx.close("orth:value", gen.mode_product(q.data, r.T, k), x, 1e-10, scale=1)
    ctx.check("orth:attributes", q.is_orth and q.orth_dim == k)
    sv = t.singular_values()
    if d == 2:
        ctx.close("singular_values", sv, np.linalg.svd(x, compute_uv=False), 1e-10, scale=1)
    else:
        for j in range(d):
            ctx.close("singular_values", sv[j],
                      np.linalg.svd(unfold(x, [j]), compute_uv=False), 1e-10, scale=1)
    # principal components of a matricisation
    y = unfold(x, [k])
    u, s, _ = np.linalg.svd(y, full_matrices=False)
    kind = ctx.choice(["default", "int", "tol"])
    par = None if kind == "default" else (
        ctx.randint(1, 5) if kind == "int" else ctx.choice([0.5, 0.1, 1e-2, 1e-10]))
    ctx.case(par=par)
    ctx.op("alpha_principal_components-" + kind)
    pc, sg = t.alpha_principal_components(k, par)
    n = pc.shape[1]
    ctx.close("pc:orthonormal", pc.T @ pc, np.eye(n), 0, 1e-9)
    ctx.close("pc:singular-values", np.diag(sg), s[:n], 1e-9, scale=1)
    ctx.close("pc:diagonal", sg, np.diag(np.diag(sg)), 0, 0)
    err = np.linalg.norm(y - pc @ (pc.T @ y))
    ctx.close("pc:best", err, np.sqrt(np.sum(s[n:] ** 2)), 1e-8, scale=np.linalg.norm(y))
    if kind == "int":
        ctx.check("pc:number", n == min(par, s.size))
    elif kind == "tol":
        ctx.check("pc:tolerance", err <= par * np.linalg.norm(y) + 1e-9)
        if n > 1:
            ctx.check("pc:minimal", np.sqrt(np.sum(s[n - 1:] ** 2))
                      >= par * np.linalg.norm(y) * (1 - 1e-9))
