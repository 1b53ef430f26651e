import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip

P = Prop("C09", "Dimension trees answer structural queries truthfully",
         "trees over 2-9 dimensions: the library's factories, random shapes with arity up to 4, "
         "level-wise and arbitrary node numbers, with and without unary nodes; every structural "
         "query is compared with an independent tree model. Non-trivial: at least three nodes; "
         "distinct by tree, numbering and operation.")


def canon(tm, n=None):
    n = tm.root if n is None else n
    if n in tm.leaf_dim:
        return str(tm.leaf_dim[n])
    return "(" + ",".join(sorted(canon(tm, c) for c in tm.children[n])) + ")"


def ascendants(tm, n):
    out = []
    while n in tm.parent:
        n = tm.parent[n]
        out.append(n)
    return out


def descendants(tm, n):
    return sorted(x for c in tm.children[n] for x in [c] + descendants(tm, c))


def ints(x):
    return [int(v) for v in np.ravel(x)]


def judge(ctx, t, tm, name="tree"):
    """Every query of the library's tree against the model."""
    ctx.check(name + ":type", isinstance(t, tensap.DimensionTree))
    ctx.equal(name + ":nb_nodes", int(t.nb_nodes), tm.nb)
    ctx.equal(name + ":adjacency", np.asarray(t.adjacency_matrix), tm.adjacency())
    ctx.equal(name + ":dim2ind", ints(t.dim2ind), ints(tm.dim2ind()))
    ctx.equal(name + ":nodes", ints(t.nodes_indices), list(range(1, tm.nb + 1)))
    ctx.equal(name + ":root", int(t.root), tm.root)
    ctx.equal(name + ":arity", int(t.arity), max(len(c) for c in tm.children.values()))
    ctx.equal(name + ":internal", ints(t.internal_nodes), sorted(tm.internal))
    ctx.equal(name + ":parent-of-leaves", ints(t.nodes_parent_of_leaves),
              sorted({tm.parent.get(n, 0) for n in tm.leaves}))
    for n in tm.children:
        ctx.equal(name + ":children", ints(t.children(n)), sorted(tm.children[n]), "node %d" % n)
        ctx.equal(name + ":parent", int(t.parent(n)), tm.parent.get(n, 0), "node %d" % n)
        ctx.equal(name + ":ascendants", ints(t.ascendants(n)), ascendants(tm, n), "node %d" % n)
        ctx.equal(name + ":descendants", sorted(ints(t.descendants(n))), descendants(tm, n),
                  "node %d" % n)
        ctx.equal(name + ":level", int(t.level[n - 1]), tm.level(n), "node %d" % n)
        ctx.equal(name + ":is_leaf", bool(t.is_leaf[n - 1]), n in tm.leaf_dim, "node %d" % n)
        ctx.equal(name + ":dims", sorted(ints(t.dims[n - 1])), sorted(tm.dims(n)), "node %d" % n)
        p = tm.parent.get(n)
        ctx.equal(name + ":child_number", int(t.child_number(n)),
                  0 if p is None else sorted(tm.children[p]).index(n) + 1, "node %d" % n)
        sib = [v for v in ints(t.sibling[:, n - 1]) if v]
        ctx.equal(name + ":sibling", sib, [] if p is None else sorted(tm.children[p]))
    top = max(tm.level(n) for n in tm.children)
    for k in range(top + 2):
        ctx.equal(name + ":nodes_with_level", ints(t.nodes_with_level(k)),
                  sorted(n for n in tm.children if tm.level(n) == k), "level %d" % k)


def random_model(ctx, unary=None, dmin=2, dmax=8):
    d = ctx.randint(dmin, dmax)
    return gen.random_tree_model(ctx, d, max_arity=ctx.randint(2, 4),
                                 unary=ctx.coin(0.3) if unary is None else unary)


@P.scenario(400)
def queries(ctx):
    tm = random_model(ctx)
    t = tm.tree()
    ctx.case(tree=tm.describe(), root=tm.root, nodes=[tm.parent.get(n, 0) for n in sorted(tm.children)])
    ctx.op("queries")
    judge(ctx, t, tm)
    # nodes by their dimensions
    for n in tm.children:
        dims = tm.dims(n)
        exp = sorted(m for m in tm.children if sorted(tm.dims(m)) == sorted(dims))
        arg = [dims[int(i)] for i in ctx.rng.permutation(len(dims))]
        got = t.node_with_dims(np.array(arg) if ctx.coin() else arg)
        ctx.equal("node_with_dims", ints(got), exp, str(arg))
    k = ctx.randint(1, tm.d)
    dims = sorted(int(x) for x in ctx.rng.permutation(tm.d)[:k])
    exp = sorted(m for m in tm.children if sorted(tm.dims(m)) == dims)
    ctx.equal("node_with_dims", ints(t.node_with_dims(dims)), exp, str(dims))
    judge(ctx, t.update_dims_from_leaves(), tm, "updated")


@P.scenario(200)
def factories(ctx):
    kind = ctx.choice(["trivial", "linear", "balanced", "random", "random", "random-arity"])
    d = ctx.randint(2, 9)
    ctx.case(kind=kind, d=d)
    ctx.op(kind)
    lo, hi = 2, 2
    if kind == "random":
        lo = hi = ctx.randint(2, 4)
        t = tensap.DimensionTree.random(d, lo) if lo != 2 or ctx.coin() else \
            tensap.DimensionTree.random(d)
    elif kind == "random-arity":
        lo = ctx.randint(2, 3)
        hi = ctx.randint(lo, 5)
        a = [lo, hi]
        t = tensap.DimensionTree.random(d, np.array(a) if ctx.coin() else a)
    else:
        t = getattr(tensap.DimensionTree, kind)(d)
    tm = gen.model_of(t)
    ctx.case(kind=kind, d=d, arity=[lo, hi], tree=tm.describe())
    judge(ctx, t, tm, kind)
    ctx.equal("all-dimensions", sorted(tm.dims(tm.root)), list(range(d)))
    ctx.equal("one-root", len([n for n in tm.children if n not in tm.parent]), 1)
    ctx.equal("leaves", sorted(n for n in tm.children if not tm.children[n]), sorted(tm.leaves))
    if kind in ("linear", "balanced"):
        # given a permutation, numbered from 0 or from 1: the same tree, its dimensions renamed accordingly
        perm = ctx.rng.permutation(d)
        u = getattr(tensap.DimensionTree, kind)(perm.tolist() if ctx.coin() else perm.copy())
        um = gen.model_of(u)
        judge(ctx, u, um, kind + "-permuted")
        sets = {frozenset(um.dims(n)) for n in um.children}
        ctx.check("permuted:dimensions", any(
            sets == {frozenset(int((perm[k] - o) % d) for k in tm.dims(n)) for n in tm.children} for o in (0, 1)),
            "permutation %s" % perm)
        u = getattr(tensap.DimensionTree, kind)((perm + 1).tolist() if ctx.coin() else perm + 1)
        um = gen.model_of(u)
        ctx.check("permuted:dimensions-from-one", {frozenset(um.dims(n)) for n in um.children} == {
            frozenset(int(perm[k]) for k in tm.dims(n)) for n in tm.children}, "permutation %s" % perm)
    if kind == "trivial":
        ctx.equal("trivial", sorted(tm.children[tm.root]), sorted(tm.leaves))
    elif kind == "linear":
        for n in tm.internal:
            ds = sorted(tm.dims(n))
            ctx.equal("linear-dims", ds, list(range(len(ds))))
            ctx.equal("linear-arity", len(tm.children[n]), 2)
            ctx.check("linear-leaf", any(c in tm.leaf_dim for c in tm.children[n]))
    elif kind == "balanced":
        lv = [tm.level(n) for n in tm.leaves]
        ctx.check("balanced-levels", max(lv) - min(lv) <= 1, str(lv))
        for n in tm.internal:
            ctx.equal("balanced-arity", len(tm.children[n]), 2)
    else:
        for n in tm.internal:
            k = len(tm.children[n])
            ctx.check("random-arity", min(lo, len(tm.dims(n))) <= k <= hi,
                      "node with %d children, arity in [%d, %d]" % (k, lo, hi))


@P.scenario(300)
def equality(ctx):
    unary = ctx.coin(0.4)
    a = random_model(ctx, unary=unary, dmax=6)
    kind = ctx.choice(["renumbered", "other", "other", "swap-dims", "small-change"])
    if kind == "renumbered":
        perm = [int(v) + 1 for v in ctx.rng.permutation(a.nb)]
        b = gen.TreeModel({perm[n - 1]: sorted(perm[c - 1] for c in cs)
                           for n, cs in a.children.items()},
                          {perm[n - 1]: k for n, k in a.leaf_dim.items()})
    elif kind == "other":
        b = gen.random_tree_model(ctx, a.d, max_arity=ctx.randint(2, 4), unary=unary)
    elif kind == "swap-dims":
        ls = [a.leaves[int(i)] for i in ctx.rng.permutation(len(a.leaves))[:2]]
        lf = dict(a.leaf_dim)
        lf[ls[0]], lf[ls[1]] = lf[ls[1]], lf[ls[0]]
        b = gen.TreeModel(dict(a.children), lf)
    else:
        b = gen.random_tree_model(ctx, ctx.randint(2, 6), unary=unary)
    ctx.case(kind=kind, a=canon(a), b=canon(b), na=str(a.parent), nb=str(b.parent))
    ctx.op("equality-" + kind)
    same = canon(a) == canon(b)
    s, t = a.tree(), b.tree()
    ctx.equal("eq", bool(s == t), same, "%s and %s:" % (canon(a), canon(b)))
    ctx.equal("eq-sym", bool(t == s), same, "%s and %s:" % (canon(b), canon(a)))
    ctx.equal("ne", bool(s != t), not same)
    ctx.equal("eq-self", bool(s == a.tree()), True)


@P.scenario(300)
def modifications(ctx):
    op = ctx.choice(["permute", "ipermute", "add_child", "sub_tree", "change_root"])
    tm = random_model(ctx, unary=op != "change_root" and ctx.coin(0.3))
    t = tm.tree()
    ctx.op(op)
    if op in ("permute", "ipermute"):
        perm = ctx.rng.permutation(tm.d)
        ctx.case(op=op, tree=tm.describe(), perm=ints(perm))
        got = getattr(t, op)(perm if ctx.coin() else ints(perm))
        # permute: dimension i becomes perm[i]; ipermute is its inverse
        if op == "permute":
            lf = {n: int(perm[k]) for n, k in tm.leaf_dim.items()}
        else:
            lf = {n: int(np.nonzero(perm == k)[0][0]) for n, k in tm.leaf_dim.items()}
        judge(ctx, got, gen.TreeModel(dict(tm.children), lf), op)
        back = got.ipermute(perm) if op == "permute" else got.permute(perm)
        judge(ctx, back, tm, "inverse")
    elif op == "add_child":
        n = ctx.randint(1, tm.nb)
        ctx.case(op=op, tree=tm.describe(), node=n, leaf=n in tm.leaf_dim)
        got = t.add_child(n)
        ch = {k: list(v) for k, v in tm.children.items()}
        lf = dict(tm.leaf_dim)
        ch[tm.nb + 1] = []
        ch[n] = ch[n] + [tm.nb + 1]
        if n in lf:
            lf[tm.nb + 1] = lf.pop(n)
        else:
            lf[tm.nb + 1] = tm.d
        judge(ctx, got, gen.TreeModel(ch, lf), op)
    elif op == "sub_tree":
        n = ctx.choice([m for m in tm.children if m in tm.internal])
        ctx.case(op=op, tree=tm.describe(), node=n)
        got, nodes = t.sub_dimension_tree(n)
        nodes = ints(nodes)
        ctx.equal("sub-nodes", sorted(nodes), sorted([n] + descendants(tm, n)))
        pos = {m: i + 1 for i, m in enumerate(nodes)}
        ch = {pos[m]: sorted(pos[c] for c in tm.children[m]) for m in nodes}
        ctx.equal("sub-adjacency", np.asarray(got.adjacency_matrix),
                  gen.TreeModel(ch, {pos[m]: 0 for m in nodes if m in tm.leaf_dim}).adjacency())
        dims = ints(t.dims[n - 1])
        ctx.equal("sub-dim2ind", [nodes[i - 1] for i in ints(got.dim2ind)],
                  [m for k in dims for m in tm.leaves if tm.leaf_dim[m] == k])
        lf = {i: k for k, i in enumerate(ints(got.dim2ind))}
        judge(ctx, got, gen.TreeModel(ch, lf), op)
    else:
        n = ctx.randint(1, tm.nb)
        ctx.case(op=op, tree=tm.describe(), node=n, leaf=n in tm.leaf_dim)
        got, mod = t.change_root(n)
        ch = {k: list(v) for k, v in tm.children.items()}
        lf = dict(tm.leaf_dim)
        path = [n] + ascendants(tm, n)
        for c, p in zip(path[:-1], path[1:]):
            ch[p].remove(c)
            ch[c].append(p)
        if n in lf:
            ch[tm.nb + 1] = []
            ch[n].append(tm.nb + 1)
            lf[tm.nb + 1] = lf.pop(n)
        new = gen.TreeModel({k: sorted(v) for k, v in ch.items()}, lf)
        judge(ctx, got, new, op)
        for m in tm.children:
            if sorted(tm.children[m]) != sorted(new.children[m]):
                ctx.check("modified-nodes", m in ints(mod), "node %d missing in %s" % (m, mod))
    judge(ctx, t, tm, "operand")


@P.scenario(100)
def layout(ctx):
    """The layout used for plotting: every node in the unit square, leaves on distinct
    evenly spaced abscissas, a parent in the middle of its leaves (which are contiguous) and above its children."""
    tm = random_model(ctx, unary=ctx.coin(0.3))
    t = tm.tree()
    align = ctx.coin()
    t.plot_options["level_alignment"] = align
    ctx.case(tree=tm.describe(), aligned=align)
    ctx.op("tree_layout")
    pos = t.tree_layout()
    ctx.equal("layout-nodes", sorted(int(k) for k in pos), list(range(tm.nb)))
    x = {n: float(pos[n - 1][0]) for n in tm.children}
    y = {n: float(pos[n - 1][1]) for n in tm.children}
    ctx.check("layout-square", all(0 < v < 1 for v in list(x.values()) + list(y.values())), str(pos))
    xl = sorted(x[n] for n in tm.leaves)
    ctx.close("layout-leaves", xl, np.arange(1, tm.d + 1) / (tm.d + 1), 1e-12)
    rank = {n: int(round(x[n] * (tm.d + 1))) for n in tm.leaves}
    for n in tm.internal:
        lv = sorted(rank[m] for m in tm.leaves if m in descendants(tm, n))
        ctx.equal("layout-contiguous", lv, list(range(lv[0], lv[-1] + 1)), "node %d" % n)
        ctx.close("layout-middle", x[n], (lv[0] + lv[-1]) / 2 / (tm.d + 1), 1e-12)
        for c in tm.children[n]:
            ctx.check("layout-above", y[n] > y[c] + 1e-12, "node %d is not above node %d" % (n, c))
    if align:
        for k in {tm.level(n) for n in tm.children}:
            v = [y[n] for n in tm.children if tm.level(n) == k]
            ctx.close("layout-levels", v, [v[0]] * len(v), 1e-9)
