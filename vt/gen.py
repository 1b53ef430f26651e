"""Generators of trees, tensors and other inputs, and dense reference models."""
import numpy as np

import tensap
from vt.core import Skip  # noqa: F401


# ---------------------------------------------------------------- trees
class TreeModel:
    """Our own model of a dimension tree: children lists, dimension of leaves."""

    def __init__(self, children, leaf_dim):
        self.children = children  # node -> ordered list of nodes (1-based)
        self.leaf_dim = leaf_dim  # leaf node -> dimension (0-based)
        self.nb = len(children)
        self.parent = {c: p for p, cs in children.items() for c in cs}
        self.root = [n for n in children if n not in self.parent][0]
        self.d = len(leaf_dim)
        self.leaves = sorted(leaf_dim)
        self.internal = [n for n in children if n not in leaf_dim]

    def dims(self, n):
        if n in self.leaf_dim:
            return [self.leaf_dim[n]]
        return [x for c in self.children[n] for x in self.dims(c)]

    def level(self, n):
        k = 0
        while n in self.parent:
            n = self.parent[n]
            k += 1
        return k

    def dim2ind(self):
        d2i = np.zeros(self.d, dtype=int)
        for n, k in self.leaf_dim.items():
            d2i[k] = n
        return d2i

    def adjacency(self):
        a = np.zeros((self.nb, self.nb), dtype=int)
        for p, cs in self.children.items():
            for c in cs:
                a[p - 1, c - 1] = 1
        return a

    def tree(self):
        return tensap.DimensionTree(self.dim2ind(), self.adjacency())

    def describe(self):
        def rec(n):
            if n in self.leaf_dim:
                return "%d" % self.leaf_dim[n]
            return "(" + " ".join(rec(c) for c in self.children[n]) + ")"
        return rec(self.root)


def model_of(tree):
    """TreeModel read back from the public attributes of a DimensionTree."""
    adj = np.asarray(tree.adjacency_matrix)
    n = adj.shape[0]
    children = {i + 1: [int(j) + 1 for j in np.nonzero(adj[i])[0]] for i in range(n)}
    leaf = {int(a): k for k, a in enumerate(np.asarray(tree.dim2ind).tolist())}
    return TreeModel(children, leaf)


def random_tree_model(ctx, d, max_arity=3, shuffle_numbers=None, unary=False):
    """Random dimension tree over d dimensions (every internal node has at least
    two children unless `unary`), with level-wise or arbitrary node numbers."""
    rng = ctx.rng
    dims = [int(x) for x in rng.permutation(d)]
    counter = [0]
    children, leaf = {}, {}

    def build(ds):
        counter[0] += 1
        me = counter[0]
        children[me] = []
        if len(ds) == 1 and not (unary and rng.random() < 0.3 and me > 1):
            leaf[me] = ds[0]
            return me
        if len(ds) == 1:
            children[me] = [build(ds)]
            return me
        if unary and rng.random() < 0.15:
            children[me] = [build(ds)]
            return me
        k = int(rng.integers(2, min(max_arity, len(ds)) + 1))
        cuts = sorted(rng.choice(np.arange(1, len(ds)), k - 1, replace=False).tolist())
        parts = [ds[i:j] for i, j in zip([0] + cuts, cuts + [len(ds)])]
        children[me] = [build(p) for p in parts]
        return me

    build(dims)
    n = counter[0]
    if shuffle_numbers is None:
        shuffle_numbers = bool(rng.random() < 0.4)
    if shuffle_numbers:
        perm = rng.permutation(n) + 1
    else:  # breadth-first numbers, as the library's own factories do
        order, queue = [], [1]
        while queue:
            x = queue.pop(0)
            order.append(x)
            queue += children[x]
        perm = np.zeros(n, dtype=int)
        for i, x in enumerate(order):
            perm[x - 1] = i + 1
    ch = {int(perm[a - 1]): sorted(int(perm[b - 1]) for b in bs) for a, bs in children.items()}
    lf = {int(perm[a - 1]): k for a, k in leaf.items()}
    return TreeModel(ch, lf)


def named_tree_model(ctx, d):
    kind = ctx.choice(["linear", "balanced", "trivial", "random", "random", "random"])
    if kind == "random" and d > 3 and ctx.coin(0.15):  # a node with many children below the root
        ds = [int(v) for v in ctx.rng.permutation(d)]
        return TreeModel(dict([(1, [2, 3]), (2, []), (3, list(range(4, 3 + d)))]
                              + [(n, []) for n in range(4, 3 + d)]),
                         dict([(2, ds[0])] + [(3 + k, ds[k]) for k in range(1, d)]))
    if kind == "random" or d < 3:
        return random_tree_model(ctx, d, max_arity=ctx.choice([2, 3, 3, 5]))
    t = {"linear": tensap.DimensionTree.linear,
         "balanced": tensap.DimensionTree.balanced,
         "trivial": tensap.DimensionTree.trivial}[kind](d)
    return model_of(t)


# ---------------------------------------------------------------- tree tensors
def random_active(ctx, tm, p_all=0.35):
    act = {n: True for n in tm.children}
    if not ctx.coin(p_all):
        for n in tm.leaves:
            if n != tm.root:
                act[n] = ctx.coin(0.5)
    return act


class TBT:
    """A tree-based tensor built core by core, with its dense counterpart."""

    def __init__(self, tm, shape, ranks, active, cores):
        self.tm, self.shape, self.ranks, self.active, self.cores = (
            tm, shape, ranks, active, cores)
        self.dense = contract(tm, active, cores)
        self.root_rank = ranks[tm.root]
        # magnitude of the network: bounds every intermediate value, so that the
        # rounding error of any evaluation order is a small multiple of eps * mag
        self.mag = max(float(np.max(np.abs(contract(
            tm, active, {n: np.abs(c) for n, c in cores.items()})))), 1e-300)
        self.magnorm = self.mag * np.sqrt(self.dense.size)

    def build(self):
        t = [tensap.FullTensor(np.array(self.cores[n + 1])) if self.active[n + 1]
             else tensap.FullTensor([]) for n in range(self.tm.nb)]
        return tensap.TreeBasedTensor(t, self.tm.tree())

    def describe(self):
        return {"tree": self.tm.describe(), "shape": list(self.shape),
                "ranks": [self.ranks[n + 1] for n in range(self.tm.nb)],
                "inactive": [n for n in sorted(self.active) if not self.active[n]]}


def contract(tm, active, cores):
    """Dense array of a tree tensor network; the extra root dimension, if any,
    comes last.  Independent of the library: one einsum over all the cores."""
    operands, nxt = [], [tm.d + 1]
    edge = {}
    for n in tm.children:
        if n != tm.root and active[n]:
            edge[n] = nxt[0]
            nxt[0] += 1
    out = list(range(tm.d))
    for n in sorted(tm.children):
        if not active[n]:
            continue
        c = np.asarray(cores[n], dtype=float)
        if n in tm.leaf_dim:
            sub = [tm.leaf_dim[n]] + ([edge[n]] if n != tm.root else [])
        else:
            sub = [edge[ch] if active[ch] else tm.leaf_dim[ch] for ch in tm.children[n]]
            if n != tm.root:
                sub.append(edge[n])
        if n == tm.root and c.ndim == len(sub) + 1:
            sub.append(tm.d)
            out = list(range(tm.d)) + [tm.d]
        operands += [c, sub]
    return np.einsum(*operands, out, optimize="greedy")


def dense_of(t):
    """Dense array of a library TreeBasedTensor, from its cores (our einsum)."""
    tm = model_of(t.tree)
    cores, active = {}, {}
    for n in tm.children:
        data = t.tensors[n - 1].data
        a = data is not None and np.size(data) > 0
        active[n] = bool(a)
        cores[n] = data
    return contract(tm, active, cores)


def random_tbt(ctx, d=None, dmax=5, tm=None, shape=None, smax=4, rmax=3, root_rank=1,
               active=None, p_all=0.35, admissible=False, dist=None, scaled=True):
    if tm is None:
        if d is None:
            d = ctx.randint(2, dmax)
            if shape is None and dmax >= 5 and ctx.coin(0.1):  # more, smaller dimensions
                d, smax, rmax = ctx.randint(6, 8), 2, 2
        tm = named_tree_model(ctx, d)
    if shape is None:
        shape = [ctx.randint(1, smax) if ctx.coin(0.25) else ctx.randint(2, smax)
                 for _ in range(tm.d)]
        if smax >= 4 and ctx.coin(0.06):  # one long dimension
            shape[ctx.randint(0, tm.d - 1)] = ctx.randint(9, 24)
    if active is None:
        active = random_active(ctx, tm, p_all)
    if ctx.coin(0.06) and rmax >= 3:
        rmax = 7
    ranks = {}
    for n in tm.children:
        ranks[n] = ctx.randint(1, rmax) if active[n] else 0
    ranks[tm.root] = root_rank
    if admissible:
        make_admissible(tm, shape, ranks, active)
    dist = dist or ctx.choice(["normal", "normal", "int", "uniform"])
    integers = ctx.coin()
    cores = {}
    for n in tm.children:
        if not active[n]:
            continue
        sh = core_shape(tm, shape, ranks, active, n)
        if dist == "normal":
            cores[n] = ctx.rng.standard_normal(sh)
        elif dist == "uniform":
            cores[n] = ctx.rng.random(sh) + 0.1
        else:
            cores[n] = ctx.rng.integers(-3, 4, sh)
            if not np.any(cores[n]):
                cores[n] = cores[n] + 1
            if not integers:
                cores[n] = cores[n].astype(float)
    if ctx.coin(0.12) and scaled:  # unbalanced magnitudes
        n = ctx.choice(sorted(cores))
        cores[n] = cores[n] * 10.0 ** ctx.randint(-8, 8)
    return TBT(tm, shape, ranks, active, cores)


def core_shape(tm, shape, ranks, active, n):
    if n in tm.leaf_dim:
        return [shape[tm.leaf_dim[n]], ranks[n]]
    sh = [ranks[c] if active[c] else shape[tm.leaf_dim[c]] for c in tm.children[n]]
    if n != tm.root or ranks[n] > 1:
        sh.append(ranks[n])
    return sh


def make_admissible(tm, shape, ranks, active):
    """Lower the ranks until every core can have full-rank matricisations."""
    changed = True
    while changed:
        changed = False
        for n in tm.children:
            if not active[n]:
                continue
            sh = core_shape(tm, shape, ranks, active, n)
            edges = ([] if n in tm.leaf_dim else list(tm.children[n])) + [n]
            full = list(sh) + ([1] if n == tm.root and ranks[n] == 1 else [])
            if n in tm.leaf_dim:
                edges = [None, n]
            for k, e in enumerate(edges):
                if e is None or not active[e] or e == tm.root:
                    continue
                rest = int(np.prod([full[j] for j in range(len(full)) if j != k]))
                if ranks[e] > rest:
                    ranks[e] = rest
                    changed = True


def graded_tensor(ctx, shape, tol, nodes):
    """A dense tensor of unit norm (nearly) with small singular values of known sizes, close
    to what a truncation with the tolerance `tol` split between `nodes` edges may discard:
    either every matricisation has the same flat tail, or each tail comes from its own
    pair of dimensions."""
    d = len(shape)
    share = tol / np.sqrt(max(nodes, 1))
    x = np.zeros(shape)
    x[(0,) * d] = 1.0
    if ctx.coin():
        n = min(shape)
        eps = share * ctx.choice([0.2, 0.4, 0.6, 0.8, 0.95, 1.05, 1.5]) / ctx.choice(
            [1.0, np.sqrt(max(n - 1, 1))])
        for k in range(1, n):
            x[(k,) * d] = eps * ctx.choice([1.0, 1.0, 0.9])
    else:
        p = [int(v) for v in ctx.rng.permutation(d)]
        f = ctx.choice([0.5, 0.7, 0.9, 1.1])
        for i, j in zip(p[0::2], p[1::2]):
            n = min(shape[i], shape[j])
            for k in range(1, n):
                ind = [0] * d
                ind[i] = ind[j] = k
                x[tuple(ind)] = share * f / np.sqrt(n - 1)
    for k in range(d):
        q, _ = np.linalg.qr(ctx.rng.standard_normal((shape[k], shape[k])))
        x = mode_product(x, q, k)
    return x


# ---------------------------------------------------------------- dense helpers
def mode_product(x, m, k):
    """Contract the second dimension of the matrix m with dimension k of x."""
    return np.moveaxis(np.tensordot(m, x, (1, k)), 0, k)


def mode_products(x, ms, dims):
    for m, k in zip(ms, dims):
        x = mode_product(x, np.asarray(m), k)
    return x


def unfold(x, dims):
    """Matricisation: rows are dims (first index fastest), columns the rest."""
    rest = [k for k in range(x.ndim) if k not in list(dims)]
    y = np.transpose(x, list(dims) + rest)
    return y.reshape(int(np.prod([x.shape[k] for k in dims])), -1, order="F")


def kron_dense(x, y):
    d = x.ndim
    z = np.multiply.outer(x, y)
    z = np.transpose(z, [v for k in range(d) for v in (k, d + k)])
    return z.reshape([x.shape[k] * y.shape[k] for k in range(d)])


def cat_dense(x, y):
    out = np.zeros([a + b for a, b in zip(x.shape, y.shape)])
    out[tuple(slice(0, n) for n in x.shape)] = x
    out[tuple(slice(n, None) for n in x.shape)] = y
    return out


def eval_diag_product(x, ms, dims):
    """out[i, rest] = sum_k prod_m M_m[i, k_m] x[k, rest]  (row-wise products);
    the sample index comes first, the remaining dimensions follow in order."""
    n = np.asarray(ms[0]).shape[0]
    ops, sub = [x, list(range(x.ndim))], x.ndim
    for m, k in zip(ms, dims):
        ops += [np.asarray(m), [sub, k]]
    rest = [k for k in range(x.ndim) if k not in list(dims)]
    out = np.einsum(*ops, [sub] + rest, optimize="greedy")
    assert out.shape[0] == n
    return out


def arr(t):
    """Dense array of whatever tensor type (or number) the library returned."""
    if isinstance(t, tensap.TreeBasedTensor):
        return dense_of(t)
    if isinstance(t, tensap.FullTensor):
        return np.asarray(t.data)
    if hasattr(t, "numpy"):
        return np.asarray(t.numpy())
    return np.asarray(t)


# ---------------------------------------------------------------- snapshots
def freeze(x, depth=0, seen=None):
    """A comparable deep snapshot of an argument or an operand."""
    if seen is None:
        seen = {}
    if depth > 12:
        return "..."
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oa", x.shape, tuple(freeze(y, depth + 1, seen) for y in x.ravel()))
        return ("a", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y, depth + 1, seen) for y in x))
    if isinstance(x, dict):
        return ("d", tuple(sorted((str(k), freeze(v, depth + 1, seen)) for k, v in x.items())))
    if isinstance(x, (int, float, complex, str, bool, bytes)) or x is None:
        return ("v", repr(x))
    if isinstance(x, (np.generic,)):
        return ("v", repr(x.item()))
    if callable(x) and not hasattr(x, "__dict__"):
        return ("f", id(x))
    if hasattr(x, "toarray"):
        return ("sp", freeze(x.toarray()))
    if hasattr(x, "__dict__"):
        if id(x) in seen:
            return ("ref", seen[id(x)])
        seen[id(x)] = len(seen)
        return (type(x).__name__, tuple(
            (k, freeze(v, depth + 1, seen)) for k, v in sorted(x.__dict__.items())))
    return ("?", str(type(x)))
