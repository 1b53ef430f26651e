"""Operations leave their operands and arguments unchanged."""
import contextlib
import copy
import io
import types

import numpy as np

import tensap
from vt import gen
from vt.core import Prop
from vt.props import c10, c12, c14, c15, c16, c17
from vt.props.c08 import dense, sparse, build
from vt.props.c11 import random_measure
from vt.props.c20 import Problem

P = Prop("C06", "Operations leave their operands and arguments unchanged",
         "worlds of operands and arguments for every class (full, sparse, diagonal, canonical and tree-based tensors, "
         "trees, multi-indices, truncations, measures, polynomials, bases, functions, grids, quadratures, tensorisation, model "
         "selection, linear and tensor learning, principal component analysis), and random histories of public operations on them. After every call: the public "
         "state of everything in the world is what it was; the result is that of the same call in a world that "
         "was never used. Results that are tensors or trees are modified in place afterwards. Non-trivial: at least three different operations done.")

MUTABLE = (list, np.ndarray, dict)
TENSORS = (tensap.FullTensor, tensap.SparseTensor, tensap.DiagonalTensor, tensap.CanonicalTensor,
           tensap.TreeBasedTensor)


def number(x):
    return isinstance(x, (bool, int, float, complex, np.generic))


def name_of(f):
    return getattr(f, "__qualname__", type(f).__name__)


def look(x, meaning, depth=0, path=()):
    """Public state of an object: nested tuples of arrays. With meaning, a tensor is its dense value."""
    if depth > 14:
        return "..."
    if x is None or isinstance(x, (str, bytes)):
        return x
    if number(x):
        return np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, [look(y, meaning, depth + 1, path) for y in x.ravel()])
        return np.array(x)
    if isinstance(x, (list, tuple, range)):
        if len(x) and all(number(y) for y in x):
            return np.array(x)
        return ("list", len(x), [look(y, meaning, depth + 1, path) for y in x])
    if isinstance(x, dict):
        return ("dict", sorted(map(str, x)), [look(x[k], meaning, depth + 1, path) for k in sorted(x, key=str)])
    if hasattr(x, "toarray"):
        return np.array(x.toarray())
    if meaning and isinstance(x, TENSORS):
        try:
            extra = [np.asarray(x.ranks), np.asarray(x.is_active_node)] if isinstance(x, tensap.TreeBasedTensor) else []
            with np.errstate(all="ignore"):
                return (type(x).__name__, np.asarray(x.shape), [np.asarray(dense(x))] + extra)
        except Exception:       # whether a result is well formed is judged elsewhere
            meaning = False
    if type(x).__module__.split(".")[0] == "tensap":
        if id(x) in path:
            return "loop"
        path = path + (id(x),)
        # a basis may find out that it is orthonormal
        keys = [k for k in sorted(vars(x)) if not k.startswith("_") and k != "is_orthonormal"]
        vals = [look(vars(x)[k], meaning, depth + 1, path) for k in keys]
        props = []
        for c in type(x).__mro__:
            for k, v in vars(c).items():
                if isinstance(v, property) and not k.startswith("_"):
                    try:
                        props.append((k, look(getattr(x, k), meaning, depth + 1, path)))
                    except Exception:
                        props.append((k, "raises"))
        return (type(x).__name__, keys, vals, sorted(props, key=lambda t: t[0]))
    if callable(x):
        return name_of(x)
    return type(x).__name__


def differ(a, b, tol=None, where=""):
    """First difference of two public states, None if there is none."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return "%s: shapes %s and %s" % (where, a.shape, b.shape)
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
            return None if np.array_equal(a, b) else "%s: %s and %s" % (where, a, b)
        if tol is None:
            same = np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")
        else:
            fin = np.abs(b[np.isfinite(b)])
            same = np.allclose(a, b, rtol=tol, atol=tol * (np.max(fin) if fin.size else 0), equal_nan=True)
        return None if same else "%s: %s became %s" % (where, str(a)[:150], str(b)[:150])
    if type(a) is not type(b):
        return "%s: %s and %s" % (where, type(a).__name__, type(b).__name__)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (where, len(a), len(b))
        keys = a[1] if isinstance(a, tuple) and len(a) in (3, 4) and isinstance(a[1], list) else None
        for i, (u, v) in enumerate(zip(a, b)):
            if keys is not None and i == 2 and len(u) == len(keys) and isinstance(v, list) and len(v) == len(u):
                for k, p, q in zip(keys, u, v):
                    d = differ(p, q, tol, where + "." + str(k))
                    if d:
                        return d
                continue
            d = differ(u, v, tol, where + ("[%d]" % i if isinstance(a, list) else ""))
            if d:
                return d
        return None
    return None if a == b else "%s: %s and %s" % (where, a, b)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        yield


def attempt(f, w, seed):
    np.random.seed(seed)
    try:
        with quiet():
            return True, f(w)
    except Exception as e:     # not an operation of this world
        return False, e


def in_place(ctx, r):
    """Documented in-place operations on a result."""
    if isinstance(r, (list, tuple)):
        for x in r[:4]:
            in_place(ctx, x)
    elif isinstance(r, (tensap.FullTensor, tensap.SparseTensor)):
        try:
            r.itranspose(list(range(int(r.order)))[::-1])
        except Exception:
            pass
    elif isinstance(r, tensap.DimensionTree):
        try:
            r.ipermute(list(range(int(len(r.dim2ind))))[::-1])
        except Exception:
            pass


def history(ctx, w, calls, n=30, tol=1e-9):
    """Run operations in random order on the world, compared with worlds never used."""
    base = copy.deepcopy(w)
    before = look(vars(w), False)
    d = differ(before, look(vars(base), False))
    assert d is None, d
    order = [int(i) for i in ctx.rng.permutation(len(calls))]
    if len(order) > n:
        order = order[:n]
    order += [order[int(ctx.rng.integers(len(order)))] for _ in range(3)]
    done = []
    for i in order:
        label, f = calls[i]
        fresh = copy.deepcopy(base)
        ok, ref = attempt(f, fresh, i)
        if not ok:
            ctx.op(label + " (refused)")
            continue
        ref = look(ref, True)
        ok, got = attempt(f, w, i)
        ctx.check("history:accepted", ok, "%s after %s: %r" % (label, done, got))
        ctx.op(label)
        value = look(got, True)
        now = look(vars(w), False)
        d = differ(before, now)
        ctx.check("unchanged", d is None, "%s changed %s" % (label, d))
        d = differ(ref, value) and differ(ref, value, tol)
        ctx.check("history:same-result", d is None, "%s after %s: %s" % (label, done, d))
        in_place(ctx, got)
        d = differ(before, look(vars(w), False))
        ctx.check("result:independent", d is None, "modifying the result of %s changed %s" % (label, d))
        done.append(label)
    ctx.case(operations=done)
    if len(set(done)) < 3:
        ctx.trivial()


class Args(types.SimpleNamespace):
    """Operands and arguments."""


def form(ctx, x):
    return list(x) if ctx.coin() else np.array(x)


def common(ctx, w, shape):
    """Arguments of tensor operations, for all dimensions and for some."""
    rng, d = ctx.rng, len(shape)
    w.perm = form(ctx, [int(i) for i in rng.permutation(d)])
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d)]])
    w.mats = [rng.standard_normal((ctx.randint(1, 3), n)) for n in shape]
    w.some = [w.mats[i].copy() for i in w.dims]
    w.square = [rng.standard_normal((n, n)) for n in shape]
    w.spd = [s @ s.T + np.eye(len(s)) for s in w.square]
    w.rows = [rng.standard_normal((4, n)) for n in shape]
    w.somerows = [w.rows[i].copy() for i in w.dims]
    w.vecs = [rng.standard_normal(n) for n in shape]
    w.somevecs = [w.vecs[i].copy() for i in w.dims]
    w.diags = [rng.standard_normal(n) for n in shape]
    w.somediags = [w.diags[i].copy() for i in w.dims]
    w.ind = np.stack([rng.integers(n, size=5) for n in shape], 1)
    w.someind = w.ind[:, [int(i) for i in w.dims]]
    w.multi = tensap.MultiIndices(w.ind.copy())
    w.sub = [form(ctx, np.sort(rng.permutation(n)[:ctx.randint(1, n)])) for n in shape]
    w.scalar = 2.5


def metrics(ctx, w, d):
    w.dim = ctx.randint(0, d - 1)


SHARED = [
    ("x+y", lambda w: w.x + w.y), ("x-y", lambda w: w.x - w.y), ("-x", lambda w: -w.x), ("x+x", lambda w: w.x + w.x),
    ("x-x", lambda w: w.x - w.x), ("x*scalar", lambda w: w.x * w.scalar), ("scalar*x", lambda w: w.scalar * w.x),
    ("x/scalar", lambda w: w.x / w.scalar), ("x+scalar", lambda w: w.x + w.scalar), ("x*y", lambda w: w.x * w.y),
    ("x==y", lambda w: w.x == w.y), ("sum", lambda w: sum([w.x, w.y, w.x])),
    ("hadamard_product", lambda w: w.x.hadamard_product(w.y)), ("dot", lambda w: w.x.dot(w.y)),
    ("dot-self", lambda w: w.x.dot(w.x)), ("norm", lambda w: w.x.norm()), ("full", lambda w: w.x.full()),
    ("numpy", lambda w: w.x.numpy()), ("storage", lambda w: w.x.storage()),
    ("sparse_storage", lambda w: w.x.sparse_storage()),
    ("reduce_sum", lambda w: w.x.reduce_sum()), ("reduce_sum:dims", lambda w: w.x.reduce_sum(w.dims)),
    ("reduce_mean:dims", lambda w: w.x.reduce_mean(w.dims)),
    ("eval_at_indices", lambda w: w.x.eval_at_indices(w.ind)),
    ("eval_at_indices:multi", lambda w: w.x.eval_at_indices(w.multi)),
    ("eval_at_indices:dims", lambda w: w.x.eval_at_indices(w.someind, w.dims)),
    ("sub_tensor", lambda w: w.x.sub_tensor(*w.sub)), ("getitem", lambda w: w.x[tuple(w.sub[0])]),
    ("squeeze", lambda w: w.x.squeeze()), ("squeeze:dims", lambda w: w.x.squeeze(w.dims)),
    ("transpose", lambda w: w.x.transpose(w.perm)), ("reshape", lambda w: w.x.reshape(w.shape)),
    ("tensor_matrix_product", lambda w: w.x.tensor_matrix_product(w.mats)),
    ("tensor_matrix_product:dims", lambda w: w.x.tensor_matrix_product(w.some, w.dims)),
    ("tensor_vector_product", lambda w: w.x.tensor_vector_product(w.vecs)),
    ("tensor_vector_product:dims", lambda w: w.x.tensor_vector_product(w.somevecs, w.dims)),
    ("tensor_diagonal_matrix_product", lambda w: w.x.tensor_diagonal_matrix_product(w.diags)),
    ("tensor_diagonal_matrix_product:dims", lambda w: w.x.tensor_diagonal_matrix_product(w.somediags, w.dims)),
    ("tensor_matrix_product_eval_diag", lambda w: w.x.tensor_matrix_product_eval_diag(w.rows)),
    ("tensor_matrix_product_eval_diag:dims", lambda w: w.x.tensor_matrix_product_eval_diag(w.somerows, w.dims)),
    ("dot_with_rank_one_metric", lambda w: w.x.dot_with_rank_one_metric(w.y, w.spd)),
    ("tensordot_matrix_product_except_dim",
     lambda w: w.x.tensordot_matrix_product_except_dim(w.y, w.square, w.dim)),
    ("cat", lambda w: w.x.cat(w.y)), ("kron", lambda w: w.x.kron(w.y)), ("kron-self", lambda w: w.x.kron(w.x)),
    ("eval_diag", lambda w: w.x.eval_diag()), ("eval_diag:dims", lambda w: w.x.eval_diag(w.dims)),
    ("orth", lambda w: w.x.orth()), ("orth:dim", lambda w: w.x.orth(w.dim)),
]

FULL = SHARED + [
    ("tensordot", lambda w: w.x.tensordot(w.y, w.dims, w.dims)),
    ("tensordot:outer", lambda w: w.x.tensordot(w.y, 0)),
    ("matricize", lambda w: w.x.matricize(w.dims)), ("sparse", lambda w: w.x.sparse()),
    ("tree_based_tensor", lambda w: w.x.tree_based_tensor()),
    ("tensordot_eval_diag", lambda w: w.x.tensordot_eval_diag(w.y, [w.one[0]], [w.one[0]], [w.one[1]], [w.one[1]])),
    ("outer_product_eval_diag", lambda w: w.x.outer_product_eval_diag(w.y, w.one[:1], w.one[:1])),
    ("singular_values", lambda w: w.x.singular_values()), ("principal_components", lambda w: w.m.principal_components()),
    ("principal_components:1", lambda w: w.m.principal_components(1)),
    ("alpha_principal_components", lambda w: w.x.alpha_principal_components(w.one[0], 1e-8)),
    ("cat:dims", lambda w: w.x.cat(w.y, w.dims)),
    ("copy", lambda w: tensap.FullTensor(w.x)), ("from-data", lambda w: tensap.FullTensor(w.array)),
    ("from-data-shape", lambda w: tensap.FullTensor(w.flat, len(w.shape), w.shape)),
    ("truncate", lambda w: tensap.Truncator(1e-1).truncate(w.x)),
    ("svd", lambda w: tensap.Truncator(1e-1).svd(w.m)), ("hosvd", lambda w: tensap.Truncator(1e-1).hosvd(w.x)),
    ("hsvd", lambda w: w.truncator.hsvd(w.x, w.tree)), ("hsvd:active", lambda w: w.truncator.hsvd(w.x, w.tree, w.active)),
    ("ttsvd", lambda w: w.truncator.ttsvd(w.x)), ("trunc_svd", lambda w: w.truncator.trunc_svd(w.matrix)),
    ("hosvd:truncator", lambda w: w.truncator.hosvd(w.x)),
    ("create", lambda w: tensap.FullTensor.randn(w.shape)), ("diag", lambda w: tensap.FullTensor.diag(w.vecs[0], 3)),
]


@P.scenario(40)
def full(ctx):
    rng = ctx.rng
    d = ctx.randint(1, 4)
    shape = [ctx.randint(1, 4) for _ in range(d)]
    if ctx.coin(0.3):
        shape = [shape[0]] * d
    w = Args(shape=form(ctx, shape))
    w.array, w.flat = rng.standard_normal(shape), rng.standard_normal(int(np.prod(shape)))
    if ctx.coin(0.3):
        w.array = np.asfortranarray(w.array)
    w.x = tensap.FullTensor(w.array if ctx.coin() else w.array.copy())
    w.y = tensap.FullTensor(rng.standard_normal(shape))
    w.matrix = rng.standard_normal((3, 4))
    w.m = tensap.FullTensor(w.matrix)
    common(ctx, w, shape)
    metrics(ctx, w, d)
    w.one = [int(i) for i in rng.permutation(d)[:2]]
    tm = gen.named_tree_model(ctx, max(d, 2))
    w.tree = tm.tree()
    active = gen.random_active(ctx, tm, 0.4)
    w.active = form(ctx, [active[n + 1] for n in range(tm.nb)])
    w.truncator = tensap.Truncator(ctx.choice([1e-8, 1e-1]), ctx.choice([np.inf, 2]))
    ctx.case(shape=shape)
    history(ctx, w, FULL)


SPARSE = SHARED + [
    ("count_non_zero", lambda w: w.x.count_non_zero()), ("cat:dims", lambda w: w.x.cat(w.y, w.dims)),
    ("build", lambda w: tensap.SparseTensor(w.values, w.multi2, w.shape)),
    ("build:array", lambda w: tensap.SparseTensor(w.values, w.rows2, w.shape)),
    ("reshape:flat", lambda w: w.x.reshape(w.flat)),
]


@P.scenario(30)
def sparse_tensors(ctx):
    d = ctx.randint(1, 4)
    shape = [ctx.randint(1, 4) for _ in range(d)]
    w = Args(shape=form(ctx, shape), flat=[int(np.prod(shape))])
    w.x, w.y = build(ctx, sparse(ctx, shape)), build(ctx, sparse(ctx, shape))
    if isinstance(w.x, tuple):
        w.x, w.y = w.x[0], w.y[0]
    common(ctx, w, shape)
    metrics(ctx, w, d)
    every = np.stack(np.unravel_index(ctx.rng.permutation(int(np.prod(shape)))[:3], shape), 1)
    w.multi2, w.rows2, w.values = tensap.MultiIndices(every.copy()), every, ctx.rng.standard_normal(len(every))
    ctx.case(shape=shape)
    history(ctx, w, SPARSE)


DIAGONAL = SHARED + [
    ("sparse", lambda w: w.x.sparse()), ("tree_based_tensor", lambda w: w.x.tree_based_tensor()),
    ("tree_based_tensor:tree", lambda w: w.x.tree_based_tensor(w.tree)),
    ("tree_based_tensor:active", lambda w: w.x.tree_based_tensor(w.tree, w.active)),
    ("tensordot", lambda w: w.x.tensordot(w.y, w.dims, w.dims)),
    ("build", lambda w: tensap.DiagonalTensor(w.vector, len(w.shape))),
]


@P.scenario(25)
def diagonal_tensors(ctx):
    d, n = ctx.randint(2, 4), ctx.randint(1, 4)
    w = Args(shape=[n] * d, vector=ctx.rng.standard_normal(n))
    w.x = tensap.DiagonalTensor(w.vector, d)
    w.y = tensap.DiagonalTensor(ctx.rng.standard_normal(n), d)
    common(ctx, w, [n] * d)
    metrics(ctx, w, d)
    tm = gen.named_tree_model(ctx, d)
    w.tree = tm.tree()
    active = gen.random_active(ctx, tm, 0.4)
    w.active = form(ctx, [active[k + 1] for k in range(tm.nb)])
    ctx.case(size=n, order=d)
    history(ctx, w, DIAGONAL)


CANONICAL = SHARED + [
    ("norm:matrix", lambda w: w.x.norm(w.spd)), ("representation_rank", lambda w: w.x.representation_rank()),
    ("gradient", lambda w: w.x.tensor_matrix_product(w.rows).parameter_gradient_eval_diag(w.dim)),
    ("gradient:matrices", lambda w: w.e.parameter_gradient_eval_diag(w.dim, w.rows)),
    ("gradient:e", lambda w: w.e.parameter_gradient_eval_diag(w.dim)),
    ("gradient:core", lambda w: w.e.parameter_gradient_eval_diag(len(w.shape), w.rows)),
    ("e.eval_diag", lambda w: w.e.eval_diag()),
    ("tree_based_tensor", lambda w: w.x.tree_based_tensor(w.tree)),
    ("tree_based_tensor:active", lambda w: w.x.tree_based_tensor(w.tree, w.active)),
    ("build", lambda w: tensap.CanonicalTensor(w.space, w.core)),
]


@P.scenario(30)
def canonical_tensors(ctx):
    rng = ctx.rng
    d = ctx.randint(2, 4)
    shape = [ctx.randint(1, 4) for _ in range(d)] if ctx.coin(0.6) else [ctx.randint(1, 3)] * d
    r = ctx.randint(1, 3)
    w = Args(shape=shape)
    w.space, w.core = [rng.standard_normal((n, r)) for n in shape], rng.standard_normal(r)
    w.x = tensap.CanonicalTensor(w.space, w.core)
    r = ctx.randint(1, 3)
    w.y = tensap.CanonicalTensor([rng.standard_normal((n, r)) for n in shape], rng.standard_normal(r))
    common(ctx, w, shape)
    metrics(ctx, w, d)
    w.e = w.x.tensor_matrix_product(w.rows)
    tm = gen.named_tree_model(ctx, d)
    w.tree = tm.tree()
    active = gen.random_active(ctx, tm, 0.4)
    w.active = form(ctx, [active[k + 1] for k in range(tm.nb)])
    ctx.case(shape=shape)
    history(ctx, w, CANONICAL)


TREE = SHARED + [
    ("build", lambda w: tensap.TreeBasedTensor(w.cores, w.tree)),
    ("sparse_leaves_storage", lambda w: w.x.sparse_leaves_storage()),
    ("is_admissible_rank", lambda w: w.x.is_admissible_rank()),
    ("is_admissible_rank:ranks", lambda w: w.x.is_admissible_rank(w.ranks)),
    ("is_admissible_rank:2", lambda w: w.x.is_admissible_rank(w.ranks, 2)),
    ("is_active_dim", lambda w: w.x.is_active_dim(w.dim)),
    ("change_root", lambda w: w.x.change_root(w.node)),
    ("nodes_permutation_cost", lambda w: w.x.nodes_permutation_cost(w.internal)),
    ("permute_nodes", lambda w: w.x.permute_nodes(w.nodes)),
    ("permute_nodes:tolerance", lambda w: w.x.permute_nodes(w.nodes, 1e-2)),
    ("permute_leaves", lambda w: w.x.permute_leaves(w.perm)),
    ("permute_leaves:tolerance", lambda w: w.x.permute_leaves(w.perm, 1e-2)),
    ("optimize_dimension_tree", lambda w: w.x.optimize_dimension_tree(1e-2, 5)),
    ("optimize_leaves_permutations", lambda w: w.x.optimize_leaves_permutations(1e-2, 5)),
    ("inactivate_nodes", lambda w: w.x.inactivate_nodes(w.leaves)),
    ("inactivate_nodes:all", lambda w: w.x.inactivate_nodes(w.x.tree.dim2ind)),
    ("activate_nodes", lambda w: w.x.activate_nodes(w.inactive)),
    ("remove_unique_children", lambda w: w.x.remove_unique_children()),
    ("gramians", lambda w: w.x.gramians()), ("gramians:node", lambda w: w.x.gramians(w.node)),
    ("orth_at_node", lambda w: w.x.orth_at_node(w.node)), ("singular_values", lambda w: w.x.singular_values()),
    ("eval_diag:2", lambda w: w.x.eval_diag(w.dims, 2)),
    ("eval_diag_below", lambda w: w.x.tensor_matrix_product(w.rows).eval_diag_below()),
    ("eval_diag_above", lambda w: w.x.tensor_matrix_product(w.rows).eval_diag_above()),
    ("gradient", lambda w: w.e.parameter_gradient_eval_diag(w.node)),
    ("gradient:matrices", lambda w: w.e.parameter_gradient_eval_diag(w.node, w.rows)),
    ("gradient:dmrg", lambda w: w.e.parameter_gradient_eval_diag_dmrg(w.node, w.rows)),
    ("gradient:dmrg-", lambda w: w.e.parameter_gradient_eval_diag_dmrg(w.node)),
    ("e.below", lambda w: w.e.eval_diag_below()), ("e.below:node", lambda w: w.e.eval_diag_below(w.node)),
    ("e.above", lambda w: w.e.eval_diag_above(w.e.eval_diag_below(), w.node)),
    ("e.eval_diag", lambda w: w.e.eval_diag()),
    ("is_active_dim:dims", lambda w: w.x.is_active_dim(w.dims)),
    ("truncate", lambda w: w.truncator.truncate(w.x)), ("hsvd", lambda w: w.truncator.hsvd(w.x)),
    ("hosvd", lambda w: w.truncator.hosvd(w.x)), ("ttsvd", lambda w: w.truncator.ttsvd(w.x)),
    ("create", lambda w: tensap.TreeBasedTensor.randn(w.tree, w.ranks, w.shape, w.active)),
    ("create:random", lambda w: tensap.TreeBasedTensor.rand(w.tree, "random", w.shape, w.active)),
    ("create:ones", lambda w: tensap.TreeBasedTensor.ones(w.tree, w.ranks, w.shape, w.active)),
    ("tensor_train", lambda w: tensap.TreeBasedTensor.tensor_train(w.train)),
    ("representation_rank", lambda w: w.x.representation_rank), ("active_nodes", lambda w: w.x.active_nodes),
    ("z+x", lambda w: w.z + w.x), ("z-dot", lambda w: w.z.dot(w.x)), ("shared*", lambda w: w.z.hadamard_product(w.x)),
    ("z-norm", lambda w: w.z.norm()), ("z-orth", lambda w: w.z.orth()),
    ("z-truncate", lambda w: w.truncator.truncate(w.z)), ("z-change_root", lambda w: w.z.change_root(w.node)),
    ("z-full", lambda w: w.z.full()),
]


@P.scenario(80)
def tree_based_tensors(ctx):
    rng = ctx.rng
    d = ctx.randint(2, 5)
    tm = gen.named_tree_model(ctx, d) if ctx.coin(0.75) else gen.random_tree_model(ctx, d, unary=True)
    same = [ctx.randint(2, 3)] * d if ctx.coin(0.4) else None
    n = gen.random_tbt(ctx, tm=tm, shape=same, smax=3, rmax=3)
    m = gen.random_tbt(ctx, tm=tm, shape=n.shape, rmax=2, active=n.active if ctx.coin(0.7) else None)
    w = Args(shape=form(ctx, n.shape))
    w.x = n.build()
    if ctx.coin(0.3):
        w.x = w.x.orth()
    w.tree = w.x.tree if ctx.coin() else tm.tree()
    w.cores = [copy.deepcopy(c) for c in w.x.tensors]
    w.y = m.build()
    # a tensor which shares the tree, and the cores perhaps
    w.z = tensap.TreeBasedTensor(w.x.tensors if ctx.coin() else w.cores, w.x.tree)
    common(ctx, w, n.shape)
    metrics(ctx, w, d)
    w.e = w.x.tensor_matrix_product(w.rows)
    w.ranks = form(ctx, [int(r) for r in w.x.ranks])
    w.active = form(ctx, [bool(b) for b in w.x.is_active_node])
    w.node = int(rng.integers(tm.nb)) + 1
    w.internal = int(ctx.choice(tm.internal))
    two = [c for c in tm.internal if len(tm.children[c]) > 0]
    w.nodes = form(ctx, [int(i) for i in rng.permutation(np.arange(1, tm.nb + 1))[:2]])
    w.leaves = form(ctx, [k for k in tm.leaves if ctx.coin()] or two[:0])
    w.inactive = form(ctx, [k for k in tm.leaves if not n.active[k]])
    r = [1] + [ctx.randint(1, 2) for _ in range(d - 1)] + [1]
    w.train = [tensap.FullTensor(rng.standard_normal((r[i], 2, r[i + 1]))) for i in range(d)]
    w.truncator = tensap.Truncator(ctx.choice([1e-8, 1e-1]), ctx.choice([np.inf, 2]))
    ctx.case(tbt=n.describe())
    history(ctx, w, TREE, n=40, tol=1e-7)


TREES = [
    ("children", lambda w: w.t.children(w.node)), ("child_number", lambda w: w.t.child_number(w.node)),
    ("parent", lambda w: w.t.parent(w.node)), ("ascendants", lambda w: w.t.ascendants(w.node)),
    ("descendants", lambda w: w.t.descendants(w.node)), ("change_root", lambda w: w.t.change_root(w.node)),
    ("add_child", lambda w: w.t.add_child(w.node)), ("sub", lambda w: w.t.sub_dimension_tree(w.node)),
    ("node_with_dims", lambda w: w.t.node_with_dims(w.dims)), ("nodes_with_level", lambda w: w.t.nodes_with_level(1)),
    ("tree_layout", lambda w: w.t.tree_layout()), ("permute", lambda w: w.t.permute(w.perm)),
    ("equal", lambda w: w.t == w.s), ("equal-self", lambda w: w.t == w.t),
    ("update", lambda w: w.t.update_dims_from_leaves()),
    ("copy", lambda w: tensap.DimensionTree(w.dim2ind, w.adjacency)),
    ("linear", lambda w: tensap.DimensionTree.linear(w.order)), ("linear:list", lambda w: tensap.DimensionTree.linear(w.perm)),
    ("trivial", lambda w: tensap.DimensionTree.trivial(w.order)),
    ("balanced", lambda w: tensap.DimensionTree.balanced(w.order)),
    ("random", lambda w: tensap.DimensionTree.random(w.order, w.arity)),
    ("balanced:list", lambda w: tensap.DimensionTree.balanced(w.perm)),
]


@P.scenario(25)
def trees(ctx):
    rng = ctx.rng
    tm = gen.named_tree_model(ctx, ctx.randint(2, 7))
    w = Args(t=tm.tree(), s=tm.tree(), node=int(rng.integers(tm.nb)) + 1, order=tm.d)
    w.dims = form(ctx, tm.dims(w.node))
    w.perm = form(ctx, [int(i) for i in rng.permutation(tm.d)])
    w.dim2ind, w.adjacency = form(ctx, tm.dim2ind()), tm.adjacency()
    w.arity = ctx.choice([2, 3, [2, 3]])
    ctx.case(tree=tm.describe())
    history(ctx, w, TREES)


MULTI = [
    ("x==x", lambda w: w.x == w.x), ("x<=x", lambda w: w.x <= w.x), ("x<=one", lambda w: w.x <= w.one), ("x+w", lambda w: w.x + w.m),
    ("x+1", lambda w: w.x + 1), ("sub2ind", lambda w: w.x.sub2ind(w.shape)), ("cardinal", lambda w: w.x.cardinal()),
    ("product", lambda w: w.x.product(w.y)), ("product-self", lambda w: w.x.product(w.x)),
    ("to_list", lambda w: w.x.to_list()), ("ndim", lambda w: w.x.ndim()), ("norm", lambda w: w.x.norm(2)),
    ("norm:k", lambda w: w.x.norm(1, w.k)), ("weighted_norm", lambda w: w.x.weighted_norm(1, w.w)),
    ("sort_by_norm", lambda w: w.x.sort_by_norm(1)), ("sort_by_norm:d", lambda w: w.x.sort_by_norm(2, "descend")),
    ("sort_by_weighted_norm", lambda w: w.x.sort_by_weighted_norm(1, w.w)), ("sort", lambda w: w.x.sort()),
    ("sort:columns", lambda w: w.x.sort(w.dims)), ("sort:d", lambda w: w.x.sort(w.dims, "descend")),
    ("add", lambda w: w.x.add_indices(w.y)), ("remove", lambda w: w.x.remove_indices(w.y)),
    ("remove:array", lambda w: w.x.remove_indices(w.y.array)),
    ("remove_dims", lambda w: w.x.remove_dims(w.some)), ("intersect", lambda w: w.x.intersect_indices(w.y)),
    ("keep", lambda w: w.x.keep_indices(w.k)), ("keep_dims", lambda w: w.x.keep_dims(w.dims)),
    ("get", lambda w: w.x.get_indices(w.k)), ("is_downward_closed", lambda w: w.x.is_downward_closed()),
    ("is_downward_closed:m", lambda w: w.x.is_downward_closed(1)),
    ("envelope", lambda w: w.x.envelope(w.u)), ("maximal", lambda w: w.x.get_maximal_indices()),
    ("margin", lambda w: w.x.get_margin()), ("reduced", lambda w: w.x.get_reduced_margin()),
    ("bounded_norm", lambda w: tensap.MultiIndices.with_bounded_norm(w.d, 1, 2)),
    ("bounded_weighted_norm", lambda w: tensap.MultiIndices.with_bounded_weighted_norm(w.d, 1, 2, w.w)),
    ("bounded_by", lambda w: tensap.MultiIndices.bounded_by(w.m)),
    ("product_set", lambda w: tensap.MultiIndices.product_set(w.L)),
    ("ind2sub", lambda w: tensap.MultiIndices.ind2sub(w.shape, w.lin)),
    ("hyperbolic", lambda w: tensap.MultiIndices.hyperbolic_cross_set(w.d, 2)),
    ("weighted_hyperbolic", lambda w: tensap.MultiIndices.weighted_hyperbolic_cross_set(w.d, 2, w.w)),
    ("low_order", lambda w: tensap.MultiIndices.low_order_interactions(w.d, 2, 1)),
    ("build", lambda w: tensap.MultiIndices(w.array)), ("build:multi", lambda w: tensap.MultiIndices(w.x)),
    ("is_in", lambda w: tensap.is_in(w.x.array, w.y.array)), ("intersect-tool", lambda w: tensap.fast_intersect(w.k, w.lin)),
    ("setdiff-tool", lambda w: tensap.fast_setdiff(w.k, w.lin)),
]


@P.scenario(25)
def multi_indices(ctx):
    rng = ctx.rng
    d = ctx.randint(1, 4)
    w = Args(d=d)
    w.x = c10.mi(c10.random_set(ctx, d))
    w.y = c10.mi(c10.random_set(ctx, d))
    w.x = w.x if isinstance(w.x, tensap.MultiIndices) else tensap.MultiIndices(np.array(w.x))
    w.y = w.y if isinstance(w.y, tensap.MultiIndices) else tensap.MultiIndices(np.array(w.y))
    n = int(w.x.cardinal())
    w.array = w.x.array.copy()
    w.one = tensap.MultiIndices(w.y.array[:1].copy())
    w.shape = form(ctx, [int(v) for v in np.maximum(w.x.array.max(0), w.y.array.max(0)) + 1])
    w.k = form(ctx, [int(i) for i in rng.permutation(n)[:ctx.randint(1, n)]])
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d)]])
    w.some = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(0, d - 1)]])
    w.w, w.u = form(ctx, rng.uniform(1, 2, d)), form(ctx, rng.standard_normal(n))
    w.m = form(ctx, [ctx.randint(0, 2) for _ in range(d)])
    w.L = [form(ctx, [ctx.randint(0, 3) for _ in range(2)]) for _ in range(d)]
    w.lin = form(ctx, [int(v) for v in rng.integers(int(np.prod(w.shape)), size=3)])
    ctx.case(indices=w.array.tolist())
    history(ctx, w, MULTI, n=40)


MEASURE = [(m, lambda w, m=m: getattr(w.X, m)()) for m in (
    "ndim", "mass", "support", "is_discrete", "truncated_support", "orthonormal_polynomials", "get_parameters",
    "mean", "std", "variance", "var", "max", "min", "random_variable_statistics", "get_standard_random_variable",
    "integration_rule", "number_of_parameters", "random")] + [
    ("random:n", lambda w: w.X.random(5)), ("pdf", lambda w: w.X.pdf(w.x)), ("cdf", lambda w: w.X.cdf(w.x)),
    ("icdf", lambda w: w.X.icdf(w.p)), ("moment", lambda w: w.X.moment(w.k)), ("moment:3", lambda w: w.X.moment(3)),
    ("shift", lambda w: w.X.shift(0.5, 2.0)), ("transfer", lambda w: w.X.transfer(w.Y, w.x)),
    ("lhs", lambda w: w.X.lhs_random(4).shape), ("likelihood", lambda w: w.X.likelihood(w.x)),
    ("discretize", lambda w: w.X.discretize(4)), ("discretize_support", lambda w: w.X.discretize_support(5)),
    ("grid", lambda w: w.X.iso_probabilistic_grid(4)), ("gauss", lambda w: w.X.gauss_integration_rule(4)),
    ("rule:n", lambda w: w.X.integration_rule(3)), ("equal", lambda w: w.X == w.Y),
    ("poly:n", lambda w: w.X.orthonormal_polynomials(4)), ("rule", lambda w: tensap.IntegrationRule.gauss(w.X, 3)),
    ("polyval", lambda w: w.q.polyval(w.k, w.x)), ("d_polyval", lambda w: w.q.d_polyval(w.k, w.x)),
    ("dn_polyval", lambda w: w.q.dn_polyval(2, w.k, w.x)), ("poly_coeff", lambda w: w.q.poly_coeff(w.k)),
    ("polynomial-moment", lambda w: w.q.moment(w.pair)), ("moment:measure", lambda w: w.q.moment(w.pair, w.X)),
    ("roots", lambda w: w.q.roots(3)), ("poly-mean", lambda w: w.q.mean(w.k)), ("one", lambda w: w.q.one()),
    ("domain", lambda w: w.q.domain()), ("random-poly", lambda w: w.q.random(w.k, 4)), ("poly-eq", lambda w: w.q == w.q),
    ("recurrence", lambda w: w.q.recurrence_monic(3)), ("poly-support", lambda w: w.q.truncated_domain()),
    # vectors
    ("V.pdf", lambda w: w.V.pdf(w.z)), ("V.cdf", lambda w: w.V.cdf(w.z)), ("V.random", lambda w: w.V.random(4)),
    ("V.mean", lambda w: w.V.mean()), ("V.std", lambda w: w.V.std()), ("V.variance", lambda w: w.V.variance()),
    ("V.support", lambda w: w.V.support()), ("V.truncated", lambda w: w.V.truncated_support()),
    ("V.marginal", lambda w: w.V.marginal(w.dims)), ("V.transpose", lambda w: w.V.transpose(w.perm)),
    ("V.lhs", lambda w: w.V.lhs_random(4).shape), ("V.polynomials", lambda w: w.V.orthonormal_polynomials()),
    ("V.standard", lambda w: w.V.get_standard_random_vector()), ("V.transfer", lambda w: w.V.transfer(w.U, w.z)),
    ("V.grid", lambda w: w.V.iso_probabilistic_grid(3)), ("V.equal", lambda w: w.V == w.U), ("V.size", lambda w: w.V.size),
    ("V.new", lambda w: tensap.RandomVector(w.variables)), ("V.new:copy", lambda w: tensap.RandomVector(w.V)),
    ("V.repeat", lambda w: tensap.RandomVector(w.X, 3)),
    # product measures
    ("M.mass", lambda w: w.M.mass()), ("M.ndim", lambda w: w.M.ndim()), ("M.gauss", lambda w: w.M.gauss_integration_rule(3)),
    ("M.marginal", lambda w: w.M.marginal(w.dims)), ("M.random", lambda w: w.M.random(3)), ("M.pdf", lambda w: w.M.pdf(w.z)),
    ("M.support", lambda w: w.M.support()), ("M.truncated", lambda w: w.M.truncated_support()),
    ("M.vector", lambda w: w.M.random_vector()), ("M.sequential", lambda w: w.M.random_sequential(w.z)),
    ("M.duplicate", lambda w: tensap.ProductMeasure.duplicate(w.X, 2)), ("M.new", lambda w: tensap.ProductMeasure(w.variables)),
    ("M.equal", lambda w: w.M == w.M),
    # discrete measures
    ("D.random", lambda w: w.D.random(4)), ("D.rule", lambda w: w.D.integration_rule()), ("D.mass", lambda w: w.D.mass()),
    ("D.support", lambda w: w.D.support()), ("D.new", lambda w: tensap.DiscreteMeasure(w.values, w.weights)),
    ("E.new", lambda w: tensap.EmpiricalRandomVariable(w.sample)), ("E.poly", lambda w: tensap.EmpiricalPolynomials(w.sample)),
    ("R.new", lambda w: tensap.DiscreteRandomVariable(w.vals1, w.weights)),
]


@P.scenario(40)
def measures(ctx):
    rng = ctx.rng
    w = Args()
    X = random_measure(ctx) if ctx.coin(0.2) else None
    X = getattr(X, "X", X)
    w.X = X if isinstance(X, tensap.Measure) else c12.law(ctx).X
    w.Y = c12.law(ctx).X
    w.x = rng.uniform(-2, 2, 5) if ctx.coin() else rng.uniform(-2, 2, (5, 1))
    w.p = form(ctx, rng.uniform(0.05, 0.95, 4))
    w.k = form(ctx, range(ctx.randint(1, 3)))
    w.pair = np.array([[0, 1], [1, 1]])
    with contextlib.suppress(Exception), quiet():
        w.q = w.X.orthonormal_polynomials()
    d = ctx.randint(1, 3)
    w.variables = [c12.law(ctx).X for _ in range(d)]
    if ctx.coin(0.2):
        w.variables = [w.X] * d
    w.V, w.M = tensap.RandomVector(w.variables), tensap.ProductMeasure(w.variables)
    w.U = tensap.RandomVector([c12.law(ctx).X for _ in range(d)])
    w.z = rng.uniform(-1, 1, (4, d))
    w.perm = form(ctx, [int(i) for i in rng.permutation(d)])
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d)]])
    w.values, w.weights = rng.standard_normal((4, 2)), form(ctx, rng.uniform(0.5, 2, 4))
    w.vals1, w.sample = form(ctx, [1.0, -1.0, 2.0, 0.5]), form(ctx, rng.standard_normal(6))
    w.D = tensap.DiscreteMeasure(w.values, w.weights)
    ctx.case(measures=[type(v).__name__ for v in [w.X] + w.variables])
    history(ctx, w, MEASURE, n=60)


def polynomial(x):
    return np.sum(np.asarray(x) ** 2, axis=-1) + 0.5


BASIS = [(m, lambda w, m=m: getattr(w.b, m)()) for m in (
    "cardinal", "ndim", "domain", "storage", "mean", "expectation", "gram_matrix", "gram_matrix_h1_0", "orthonormalize",
    "adaptation_path", "interpolation_points", "one", "random_variable", "gradient", "random", "optimal_sampling_measure", "christoffel")] + [
    ("eval", lambda w: w.b.eval(w.x)), ("eval:column", lambda w: w.b.eval(w.col)),
    ("eval_derivative", lambda w: w.b.eval_derivative(1, w.x)), ("derivative", lambda w: w.b.derivative(1)),
    ("eval_jacobian", lambda w: w.b.eval_jacobian(w.x)), ("christoffel:x", lambda w: w.b.christoffel(w.x)),
    ("random:n", lambda w: w.b.random(4)), ("kron", lambda w: w.b.kron(w.b)), ("equal", lambda w: w.b == w.b),
    ("magic_points", lambda w: w.b.magic_points(w.grid)), ("interpolation:x", lambda w: w.b.interpolation_points(w.grid)),
    ("interpolate", lambda w: w.b.interpolate(polynomial)), ("interpolate:x", lambda w: w.b.interpolate(w.ny, w.ngrid)), ("interpolate:f", lambda w: w.b.interpolate(polynomial, w.ngrid)),
    ("projection", lambda w: w.b.projection(polynomial, w.rule)),
    ("least_squares", lambda w: w.b.least_squares_projection(polynomial, w.rule)),
    ("quasi", lambda w: w.b.quasi_projection(polynomial, w.rule)),
    ("mean:measure", lambda w: w.b.mean(w.b.measure)), ("gram:measure", lambda w: w.b.gram_matrix(w.b.measure)),
    ("sub", lambda w: tensap.SubFunctionalBasis(w.b, w.mix)),
    ("sub:eval", lambda w: tensap.SubFunctionalBasis(w.b, w.mix).eval(w.x)),
    ("sub:orth", lambda w: tensap.SubFunctionalBasis(w.b, w.mix).orthonormalize()),
    ("poly", lambda w: tensap.PolynomialFunctionalBasis(w.b.basis, w.indices)),
    ("piecewise", lambda w: tensap.PiecewisePolynomialFunctionalBasis(w.knots, w.degrees)),
    ("piecewise:eval", lambda w: tensap.PiecewisePolynomialFunctionalBasis(w.knots, w.degrees).eval(w.inner)),
    ("bspline", lambda w: tensap.BSplinesFunctionalBasis.with_extra_knots(w.knots, 2)),
    ("bspline:eval", lambda w: tensap.BSplinesFunctionalBasis.with_extra_knots(w.knots, 2).eval(w.inner)),
    ("dilated", lambda w: tensap.DilatedBSplinesFunctionalBasis(tensap.DilatedBSplines(2), w.levels).eval(w.unit)),
    ("dilated:derivative", lambda w: tensap.DilatedBSplines(2).eval_derivative(1, w.levels, w.unit)),
    ("dilated:cardinal", lambda w: tensap.DilatedBSplinesFunctionalBasis(tensap.DilatedBSplines(2), w.levels).cardinal()),
    ("delta", lambda w: tensap.DeltaFunctionalBasis(w.knots).eval(w.knots)),
    ("magic_indices", lambda w: tensap.magic_indices(w.evals)), ("magic_indices:n", lambda w: tensap.magic_indices(w.evals, 1)),
    ("magic_indices:left", lambda w: tensap.magic_indices(w.evals, option="left")),
    ("rule:tensorize", lambda w: w.rule.tensorize(2)), ("rule:integrate", lambda w: w.rule.integrate(np.cos)),
    ("chebyshev", lambda w: tensap.chebyshev_points(4, w.interval)),
    ("element_number", lambda w: w.b.element_number(w.x)), ("eval:indices", lambda w: w.b.eval(w.x, w.indices)),
]


@P.scenario(50)
def bases(ctx):
    rng = ctx.rng
    b = c14.B1(ctx)
    w = Args(b=b.basis)
    n = int(b.basis.cardinal())
    w.x = b.pts(5)
    w.col = np.reshape(w.x, (-1, 1))
    w.grid = np.reshape(b.pts(3 * n + 5), (-1, 1))
    w.ngrid = np.reshape(b.pts(n), (-1, 1))
    w.ny = rng.standard_normal(n)
    w.rule = tensap.IntegrationRule(np.reshape(b.x, (-1, 1)).copy(), np.array(b.w))
    w.mix = rng.standard_normal((n, ctx.randint(1, n)))
    w.indices = form(ctx, range(ctx.randint(1, n)))
    w.knots = np.sort(rng.permutation(10)[:4]) / 10.0
    w.degrees = form(ctx, [ctx.randint(0, 2) for _ in range(3)])
    w.levels = [[0, 1, 1], [0, 0, 1]] if ctx.coin() else [np.array([[0, 1]]), np.array([[0, 1]])]
    w.unit = rng.random(4)
    w.inner = rng.uniform(w.knots[0], w.knots[-1], 4)
    w.interval = form(ctx, [-1.0, 2.0])
    w.evals = np.asarray(b.basis.eval(np.ravel(w.grid)))
    ctx.case(basis=b.desc)
    history(ctx, w, BASIS, n=40)


PRODUCTS = [
    ("eval", lambda w: w.B.eval(w.x)), ("eval:list", lambda w: w.B.eval(w.xs)),
    ("eval:dims", lambda w: w.B.eval(w.xdims, w.dims)), ("eval:2", lambda w: w.B.eval(w.x, None, 2)),
    ("derivative", lambda w: w.B.derivative(w.k)), ("eval_derivative", lambda w: w.B.eval_derivative(w.k, w.x)),
    ("cardinals", lambda w: w.B.cardinals()), ("cardinals:dims", lambda w: w.B.cardinals(w.dims)), ("domain", lambda w: w.B.domain()),
    ("orthonormalize", lambda w: w.B.orthonormalize()), ("kron", lambda w: w.B.kron(w.B)),
    ("keep", lambda w: w.B.keep_bases(w.dims)), ("remove", lambda w: w.B.remove_bases(w.some)),
    ("transpose", lambda w: w.B.transpose(w.perm)), ("adaptation_path", lambda w: w.B.adaptation_path()),
    ("random", lambda w: w.B.random()), ("random_dims", lambda w: w.B.random_dims(w.dims, 3)),
    ("vector", lambda w: w.B.get_random_vector()), ("one", lambda w: w.B.one()), ("gram", lambda w: w.B.gram_matrices()),
    ("gram:dims", lambda w: w.B.gram_matrices(w.dims)), ("mean", lambda w: w.B.mean()), ("mean:dims", lambda w: w.B.mean(w.dims)),
    ("points", lambda w: w.B.interpolation_points(w.grids)), ("magic", lambda w: w.B.magic_points(w.grids)),
    ("storage", lambda w: w.B.storage()), ("equal", lambda w: w.B == w.B), ("new", lambda w: tensap.FunctionalBases(w.list)),
    ("new:copy", lambda w: tensap.FunctionalBases(w.B)), ("duplicate", lambda w: tensap.FunctionalBases.duplicate(w.list[0], 2)),
    ("interpolation", lambda w: w.B.tensor_product_interpolation(polynomial, w.grids)),
    ("H.eval", lambda w: w.H.eval(w.x)), ("H.domain", lambda w: w.H.domain()), ("H.cardinal", lambda w: w.H.cardinal()),
    ("H.mean", lambda w: w.H.mean()), ("H.conditional", lambda w: w.H.conditional_expectation(w.dims)),
    ("H.conditional:x", lambda w: w.H.conditional_expectation(w.dims, w.xrest)),
    ("H.keep", lambda w: w.H.keep_bases(w.dims)), ("H.remove", lambda w: w.H.remove_bases(w.some)),
    ("H.keep_mapping", lambda w: w.H.keep_mapping(w.dims)), ("H.remove_mapping", lambda w: w.H.remove_mapping(w.some)),
    ("H.transpose", lambda w: w.H.transpose(w.perm)), ("H.orth", lambda w: w.H.orthonormalize()),
    ("H.gram", lambda w: w.H.gram_matrix()), ("H.gram2", lambda w: w.H.gram_matrices()), ("H.h1", lambda w: w.H.gram_matrix_h1_0()),
    ("H.derivative", lambda w: w.H.derivative(w.k)), ("H.eval_derivative", lambda w: w.H.eval_derivative(w.k, w.x)),
    ("H.equal", lambda w: w.H == w.H), ("H.adaptation", lambda w: w.H.adaptation_path()), ("H.optimal", lambda w: w.H.optimal_sampling_measure().random(3)),
    ("H.random", lambda w: w.H.random(2)), ("H.christoffel", lambda w: w.H.christoffel(w.x)), ("H.points", lambda w: w.H.interpolation_points(w.grids)),
    ("H.magic", lambda w: w.H.magic_points(w.candidates)), ("H.interpolate", lambda w: w.H.interpolate(polynomial, w.candidates[:int(w.H.cardinal())])),
    ("H.tensor", lambda w: w.H.tensor_product_interpolation(polynomial, w.grids)),
    ("H.least", lambda w: w.H.least_squares_projection(polynomial, w.rule)),
    ("H.projection", lambda w: w.H.projection(polynomial, w.rule)), ("H.product", lambda w: w.H.tensor_product_projection(polynomial, w.rule)),
    ("H.new", lambda w: tensap.SparseTensorProductFunctionalBasis(w.B, w.multi)), ("H.new:full", lambda w: tensap.FullTensorProductFunctionalBasis(w.list)),
    # arrays of functions of the space
    ("f.eval", lambda w: w.f.eval(w.x)), ("f()", lambda w: w.f(w.x)), ("f+g", lambda w: w.f + w.g), ("f-g", lambda w: w.f - w.g), ("-f", lambda w: -w.f),
    ("f*2", lambda w: w.f * 2.0), ("f.matmul", lambda w: w.f.matmul(w.v)), ("f.matdiv", lambda w: w.f.matdiv(w.vsq)), ("f.dot", lambda w: w.f.dot(w.g)),
    ("f.norm", lambda w: w.f.norm()), ("f.mean", lambda w: w.f.mean()), ("f.variance", lambda w: w.f.variance()), ("f.std", lambda w: w.f.std()),
    ("f.expectation", lambda w: w.f.expectation()), ("f.dpe", lambda w: w.f.dot_product_expectation(w.g)), ("f.ne", lambda w: w.f.norm_expectation()),
    ("f.conditional", lambda w: w.f.conditional_expectation(w.dims)), ("f.conditional:x", lambda w: w.f.conditional_expectation(w.dims, w.xrest)),
    ("f.vce", lambda w: w.f.variance_conditional_expectation(w.alpha)), ("f.derivative", lambda w: w.f.derivative(w.k)),
    ("f.eval_derivative", lambda w: w.f.eval_derivative(w.k, w.x)), ("f.gradient", lambda w: w.f.eval_gradient(w.x)), ("f.random", lambda w: w.f.random(3)),
    ("f.vector", lambda w: w.f.get_random_vector()), ("f.storage", lambda w: [w.f.storage(), w.f.sparse_storage()]), ("f.projection", lambda w: w.f.projection(w.H)),
    ("f.sub", lambda w: w.f.sub_functional_basis()), ("f.coefficients", lambda w: w.f.get_coefficients()), ("f.with", lambda w: w.f.eval_with_bases_evals(w.evals)),
    ("f.partial", lambda w: w.f.partial_evaluation(w.dims, w.x[:1, [int(i) for i in w.dims]])), ("f.grid", lambda w: w.f.eval_on_tensor_grid(w.tgrid)),
    ("f.error", lambda w: w.f.test_error(w.g, 10)), ("f.new", lambda w: tensap.FunctionalBasisArray(w.data, w.H, w.fshape)),
]


@P.scenario(50)
def product_bases(ctx):
    rng = ctx.rng
    kw = {} if ctx.coin() else {"kinds": ("poly",)}
    F, kind, ind, H = c15.build(ctx, d=ctx.randint(1, 3), **kw)
    d = F.d
    w = Args(B=F.bases, H=H, list=[b.basis for b in F.f])
    w.x = F.points(4)
    w.xs = [w.x[:, i].copy() for i in range(d)]
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d)]])
    w.alpha = form(ctx, sorted(int(i) for i in w.dims))
    w.some = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(0, d - 1)]])
    w.perm = form(ctx, [int(i) for i in rng.permutation(d)])
    dims = [int(i) for i in w.dims]
    w.xdims = w.x[:, dims]
    w.xrest = w.x[:, [i for i in range(d) if i not in dims]]
    w.k = form(ctx, [ctx.randint(0, 1) for _ in range(d)])
    w.grids = [np.reshape(b.pts(3 * n + 4), (-1, 1)) for b, n in zip(F.f, F.n)]
    w.candidates = F.points(4 * int(np.prod(F.n)) + 10)
    w.rule = tensap.IntegrationRule(F.points(80), np.full(80, 1 / 80))
    w.multi = tensap.MultiIndices(np.array(ind).copy())
    n = int(H.cardinal())
    w.fshape = ctx.choice([1, [2], [2, 2]])
    q = [n] + ([] if w.fshape == 1 else list(w.fshape))
    w.data = rng.standard_normal(q)
    w.f = tensap.FunctionalBasisArray(w.data if ctx.coin() else w.data.copy(), H, w.fshape)
    w.g = tensap.FunctionalBasisArray(rng.standard_normal(q), H, w.fshape)
    w.v, w.vsq = rng.standard_normal((2, 3)), rng.standard_normal((2, 2))
    with quiet():
        w.evals = np.asarray(H.eval(w.x))
    w.tgrid = tensap.FullTensorGrid([np.reshape(F.f[i].pts(2), (-1, 1)) for i in range(d)])
    ctx.case(bases=F.desc, kind=kind)
    history(ctx, w, PRODUCTS, n=50)


FUNCTIONS = [
    ("f.eval", lambda w: w.f.eval(w.x)), ("f()", lambda w: w.f(w.x)), ("f+g", lambda w: w.f + w.g), ("f-g", lambda w: w.f - w.g),
    ("f*2", lambda w: w.f * 2.0), ("f*g", lambda w: w.f * w.g), ("f.mean", lambda w: w.f.mean()), ("f.variance", lambda w: w.f.variance()),
    ("f.std", lambda w: w.f.std()), ("f.expectation", lambda w: w.f.expectation()), ("f.norm", lambda w: w.f.norm()),
    ("f.dpe", lambda w: w.f.dot_product_expectation(w.g)), ("f.conditional", lambda w: w.f.conditional_expectation(w.dims)),
    ("f.conditional:x", lambda w: w.f.conditional_expectation(w.dims, w.xrest)), ("f.vce", lambda w: w.f.variance_conditional_expectation(w.alpha)),
    ("f.eval_derivative", lambda w: w.f.eval_derivative(w.k, w.x)), ("f.gradient", lambda w: w.f.eval_gradient(w.x)), ("f.derivative", lambda w: w.f.derivative(w.k)),
    ("f.grid", lambda w: w.f.eval_on_tensor_grid(w.tgrid)), ("f.on_grid", lambda w: w.f.eval_on_grid(w.grids)), ("f.random", lambda w: w.f.random(3)),
    ("f.random_dims", lambda w: w.f.random_dims(w.dims, 3)), ("f.vector", lambda w: w.f.get_random_vector()), ("f.with", lambda w: w.f.eval_with_bases_evals(w.evals)),
    ("f.storage", lambda w: w.f.storage()), ("f.is_random", lambda w: w.f.is_random()), ("f.eval:dims", lambda w: w.f.eval(w.xdims, w.dims)),
    ("f.parameter", lambda w: w.f.parameter_gradient_eval(w.node, w.x)), ("f.parameter:dmrg", lambda w: w.f.parameter_gradient_eval_dmrg(w.node, w.x)),
    ("f.partial", lambda w: w.f.partial_evaluation(w.dims, w.xdims[:1])), ("f.error", lambda w: w.f.test_error(w.g, 10)), ("f.new", lambda w: tensap.FunctionalTensor(w.t, w.B)),
    ("f.eval-again", lambda w: [w.f.eval(w.x), w.f.eval(w.x2)]),
]


@P.scenario(40)
def functional_tensors(ctx):
    kw = {} if ctx.coin() else {"kinds": ("poly",)}
    T = c16.FT(ctx, d=ctx.randint(1, 3), **kw)
    d, F, rng = T.d, T.F, ctx.rng
    w = Args(f=T.f, t=T.t, B=F.bases)
    w.g = tensap.FunctionalTensor(T.t, F.bases, T.fdims) if T.fmt == "full" else tensap.FunctionalTensor(T.t, F.bases)
    w.x, w.x2 = F.points(4), F.points(3)
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d)]])
    w.alpha = form(ctx, sorted(int(i) for i in w.dims))
    dims = [int(i) for i in w.dims]
    w.xdims = w.x[:, dims]
    w.xrest = w.x[:, [i for i in range(d) if i not in dims]]
    w.k = form(ctx, [ctx.randint(0, 1) for _ in range(d)])
    w.grids = [np.reshape(b.pts(2), (-1, 1)) for b in F.f]
    w.tgrid = tensap.FullTensorGrid([g.copy() for g in w.grids])
    w.node = 1 if T.net is None else ctx.randint(1, T.net.tm.nb)
    with quiet():
        w.evals = [np.asarray(e) for e in F.bases.eval(w.x)]
    history(ctx, w, FUNCTIONS, n=40)


GRIDS = [
    ("array", lambda w: w.G.array()), ("array:ind", lambda w: w.G.array(w.ind)), ("at", lambda w: w.G.eval_at_indices(w.ind)), ("multi", lambda w: w.G.multi_indices()),
    ("shape", lambda w: w.G.shape()), ("size", lambda w: w.G.size), ("ndim", lambda w: w.G.ndim()), ("new", lambda w: tensap.FullTensorGrid(w.grids)),
    ("new:array", lambda w: tensap.FullTensorGrid(w.grids).array()), ("new:one", lambda w: tensap.FullTensorGrid(w.grids[0], 2)), ("new:random", lambda w: tensap.FullTensorGrid.random(w.X, w.n)),
    ("sparse", lambda w: tensap.SparseTensorGrid(w.grids, w.multi)), ("sparse:array", lambda w: tensap.SparseTensorGrid(w.grids, w.multi).array()),
    ("S.array", lambda w: w.S.array()), ("S.size", lambda w: w.S.size), ("rule", lambda w: tensap.FullTensorProductIntegrationRule(w.points, w.weights)),
    ("R.integrate", lambda w: w.R.integrate(polynomial)), ("R.rule", lambda w: w.R.integration_rule()), ("R.weights", lambda w: w.R.weights_on_grid()),
    ("f.grid", lambda w: w.f.eval_on_tensor_grid(w.G)), ("f.eval", lambda w: w.f.eval(w.x)), ("f.store", lambda w: w.f(w.x)),
    ("f.random", lambda w: w.f.random(3)), ("f.random:measure", lambda w: w.f.random(3, w.X)), ("f.partial", lambda w: w.f.partial_evaluation(w.dims, w.xdims)),
    ("f.partial:eval", lambda w: w.f.partial_evaluation(w.dims, w.xdims).eval(w.xrest)), ("f.error", lambda w: w.f.test_error(w.h, 10, w.X)),
    ("T.map", lambda w: w.T.map(w.u)), ("T.inverse", lambda w: w.T.inverse_map(w.z)), ("T.tensorize", lambda w: w.T.tensorize(polynomial).eval(w.z)),
    ("T.new", lambda w: tensap.TensorizedFunction(w.uf, w.T).eval(w.z)), ("T.bases", lambda w: w.T.tensorized_function_functional_bases()), ("T.bases:1", lambda w: w.T.tensorized_function_functional_bases(w.h1)),
    ("T.digits", lambda w: tensap.integer2baseb(w.ints, 3, 4)), ("T.integers", lambda w: tensap.baseb2integer(w.digits, 3)), ("T.u2z", lambda w: tensap.Tensorizer.u2z(w.unit, 2, 3)),
    ("T.z2u", lambda w: tensap.Tensorizer.z2u(w.bits, 2)), ("random_multi", lambda w: tensap.random_multi_indices(w.n).random(4)),
    ("random_multi:values", lambda w: tensap.random_multi_indices(w.choices).random(4)), ("tf.eval", lambda w: w.tf.eval(w.z)), ("tf()", lambda w: w.tf(w.z)),
    ("comp", lambda w: tensap.CompositionalModelFunction(w.tree, w.compose, w.X).eval(w.x)),
]


def compose(x, *args):
    return np.sum(np.asarray(x), axis=-1)


@P.scenario(40)
def grids_functions(ctx):
    rng = ctx.rng
    d = ctx.randint(2, 3)
    w = Args()
    w.n = form(ctx, [ctx.randint(1, 3) for _ in range(d)])
    w.choices = [form(ctx, range(int(n))) for n in w.n]
    w.grids = [rng.standard_normal((int(n), 1)) if ctx.coin() else rng.standard_normal(int(n)) for n in w.n]
    w.G = tensap.FullTensorGrid([np.array(g) for g in w.grids])
    w.ind = np.stack([rng.integers(int(n), size=4) for n in w.n], 1)
    w.multi = tensap.MultiIndices(np.unique(w.ind, axis=0))
    w.S = tensap.SparseTensorGrid([np.array(g) for g in w.grids], w.multi)
    w.points, w.weights = [g.copy() for g in w.grids], [rng.uniform(0.1, 1, int(n)) for n in w.n]
    w.R = tensap.FullTensorProductIntegrationRule([np.reshape(g, (-1, 1)) for g in w.points], w.weights)
    w.X = tensap.RandomVector([tensap.UniformRandomVariable(-1, 1) for _ in range(d)])
    w.f = tensap.UserDefinedFunction(polynomial, d)
    w.h = tensap.UserDefinedFunction(polynomial, d)
    w.f.measure = w.X
    w.f.store = w.h.store = ctx.coin()
    w.f.evaluation_at_multiple_points = w.h.evaluation_at_multiple_points = True
    w.x = rng.uniform(-1, 1, (4, d))
    w.dims = form(ctx, [int(i) for i in rng.permutation(d)[:ctx.randint(1, d - 1)]])
    dims = [int(i) for i in w.dims]
    w.xdims, w.xrest = w.x[:1, dims], w.x[:, [i for i in range(d) if i not in dims]]
    w.T, b, L, dim, X, Y = c17.make(ctx, dmax=4)
    w.u = c17.points(ctx, X, b, L, 4)
    w.u = np.asarray(w.u[0] if isinstance(w.u, tuple) else w.u)
    with quiet():
        w.z = np.asarray(w.T.map(w.u))
    w.uf = tensap.UserDefinedFunction(polynomial, dim)
    w.uf.evaluation_at_multiple_points = True
    w.tf = tensap.TensorizedFunction(w.uf, w.T)
    w.h1 = tensap.PolynomialFunctionalBasis(tensap.UniformRandomVariable(0, 1).orthonormal_polynomials(), range(2))
    w.ints = form(ctx, [int(v) for v in rng.integers(80, size=4)])
    w.digits = rng.integers(3, size=(4, 3))
    w.unit, w.bits = rng.random(4), rng.integers(2, size=(4, 3)) * 1.0
    w.tree = gen.named_tree_model(ctx, d).tree()
    w.compose = compose
    history(ctx, w, GRIDS, n=40)


def solved(s):
    out = s.solve()
    return [out[0] if isinstance(out, tuple) else out, s.rank if hasattr(s, "rank") else None]


class Linear:
    def __init__(self, ctx, density):
        rng = ctx.rng
        n, p = ctx.randint(12, 25), ctx.randint(1, 6)
        w = self.w = Args()
        w.A = np.hstack([np.ones((n, 1)), rng.standard_normal((n, p))])
        w.b = rng.standard_normal(n if ctx.coin() else (n, 2))
        w.At, w.bt = np.hstack([np.ones((6, 1)), rng.standard_normal((6, p))]), rng.standard_normal(w.b[:6].shape)
        w.path = np.array([np.arange(p + 1) <= i for i in range(p + 1)]).T
        w.G, w.weights = np.eye(p + 1), rng.uniform(0.5, 2, n)
        w.basis = tensap.PolynomialFunctionalBasis(tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(p + 1))
        w.x = rng.uniform(-1, 1, (n, 1))
        self.density = density


@P.scenario(30)
def linear_learning(ctx):
    L = Linear(ctx, ctx.coin(0.3))
    w = L.w
    option = {"regularization": ctx.coin(), "basis_adaptation": ctx.coin(), "model_selection": ctx.coin(), "error_estimation": ctx.coin(),
              "solver": ctx.choice(["qr", "solve"]), "test": ctx.coin(), "reg": ctx.choice(["l0", "l1", "l2"]), "how": ctx.choice(["evals", "basis"]),
              "path": ctx.coin(), "weights": ctx.coin(0.3)}
    ctx.case(option=option, density=L.density)

    def make(w):
        if L.density:
            s = tensap.LinearModelLearningDensityL2()
        else:
            s = tensap.LinearModelLearningSquareLoss(w.weights if option["weights"] else None)
            s.linear_solver = option["solver"]
        if option["how"] == "evals":
            s.basis_eval = w.A
            s.training_data = w.x if L.density else [None, w.b]
            if L.density:
                s.basis_eval = w.A
                s.training_data = None
        else:
            s.basis = w.basis
            s.training_data = w.x if L.density else [w.x, w.b]
        s.regularization, s.basis_adaptation = option["regularization"], option["basis_adaptation"]
        s.regularization_type = option["reg"]
        s.model_selection, s.error_estimation = option["model_selection"], option["error_estimation"]
        if option["path"]:
            s.basis_adaptation_path = w.path
        if option["test"]:
            s.test_error = True
            s.basis_eval_test, s.test_data = w.At, w.At[:, 1:2] if L.density else [w.At[:, 1:2], w.bt]
        return s

    w.s = make(w)

    def compare(a):
        return a[0] if isinstance(a, tuple) else a
    calls = [("solve:fresh", lambda w: make(w).solve()), ("solve:again", lambda w: [compare(s.solve()) for s in [make(w)] * 2]),
             ("solve:used", lambda w: compare(w.s.solve())), ("solve:twice", lambda w: [compare(w.s.solve()), compare(w.s.solve())])]
    history(ctx, w, calls)


@P.scenario(20)
def tensor_learning(ctx):
    canonical = ctx.coin(0.35)
    p = Problem(ctx, canonical=canonical, nout=1, dmax=3, orthonormal=True, factor=3)
    w = Args(bases=p.bases)
    w.x, w.y, w.xt, w.yt = p.x, p.y, p.xt, p.yt
    with quiet():
        w.evals = [np.asarray(e) for e in p.bases.eval(w.x)]
    opt = {"init": ctx.choice(["random", "ones", "mean", "guess"] + ([] if canonical else ["canonical"])), "adapt": ctx.coin(0.4), "algo": ctx.choice(["standard", "standard", "greedy"]) if canonical else
           ctx.choice(["standard", "standard", "dmrg"]), "tree": ctx.coin(0.3), "test": ctx.coin(), "selection": ctx.coin(0.3), "iterates": ctx.coin(), "evals": ctx.coin(0.3),
           "basis": ctx.coin(0.3)}
    if opt["algo"] == "dmrg":
        opt["tree"] = False
    ctx.case(options=opt)
    w.tree = None
    if canonical:
        w.guess = tensap.CanonicalTensor([ctx.rng.standard_normal((k, 1)) for k in p.shape], ctx.rng.standard_normal(1))
    else:
        w.tree = p.tm.tree()
        w.active = form(ctx, [bool(p.active[k + 1]) for k in range(p.tm.nb)])
        w.ranks = form(ctx, [int(r) for r in p.ranks])
        np.random.seed(1)
        w.guess = tensap.TreeBasedTensor.randn(w.tree, w.ranks, p.shape, w.active)

    def make(w):
        if canonical:
            s = tensap.CanonicalTensorLearning(p.d, tensap.SquareLossFunction())
            s.rank = 1
        else:
            s = tensap.TreeBasedTensorLearning(w.tree, w.active, tensap.SquareLossFunction())
            s.rank = w.ranks
        s.bases = w.bases
        if opt["evals"]:
            s.bases_eval = w.evals
        s.training_data = [w.x, w.y]
        s.display, s.tolerance["on_stagnation"] = False, 1e-6
        s.alternating_minimization_parameters["max_iterations"] = 3
        s.alternating_minimization_parameters["display"] = False
        s.initialization_type = "initial_guess" if opt["init"] == "guess" else opt["init"]
        if opt["init"] == "guess":
            s.initial_guess = w.guess
        s.linear_model_learning.basis_adaptation = opt["basis"]
        if opt["adapt"]:
            s.rank_adaptation = True
            s.rank = 1
            s.rank_adaptation_options["max_iterations"] = 2
            s.initialization_type = "random"
            s.tree_adaptation = opt["tree"] and not canonical
        if opt["algo"] != "standard":
            s.algorithm = opt["algo"]
        if opt["test"]:
            s.test_error, s.test_data = True, [w.xt, w.yt]
        s.model_selection = opt["selection"]
        s.store_iterates = opt["iterates"]
        return s

    w.s = make(w)

    def run(s):
        f, out = s.solve()
        return f, out.get("error"), out.get("test_error")
    calls = [("solve:fresh", lambda w: run(make(w))), ("solve:again", lambda w: [run(s) for s in [make(w)] * 2]),
             ("solve:used", lambda w: run(w.s))]
    history(ctx, w, calls, tol=1e-6)


@P.scenario(15)
def principal_components(ctx):
    rng = ctx.rng
    d = ctx.randint(2, 3)
    w = Args(shape=form(ctx, [ctx.randint(2, 4) for _ in range(d)]))
    T = rng.standard_normal([int(n) for n in w.shape])
    w.T = tensap.FullTensor(T)
    tm = gen.named_tree_model(ctx, d)
    w.tree = tm.tree()
    active = gen.random_active(ctx, tm, 0.4)
    w.active = form(ctx, [active[k + 1] for k in range(tm.nb)])
    s = w.s = tensap.TensorPrincipalComponentAnalysis()
    s.display = False
    s.tol = ctx.choice([1e-8, 1e-2, np.array([1e-3])])
    s.pca_sampling_factor = ctx.choice([1, 3])
    s.pca_adaptive_sampling = ctx.coin()
    t = w.ft = tensap.FunctionalTensorPrincipalComponentAnalysis()
    t.display = False
    t.bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(
        tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials(), range(int(n))) for n in w.shape])
    t.grid = [np.linspace(-1, 1, 9).reshape(-1, 1) for _ in range(d)] if ctx.coin() else None
    history(ctx, w, [
        ("hopca", lambda w: w.s.hopca(w.T.eval_at_indices, w.shape)), ("tucker", lambda w: w.s.tucker_approximation(w.T.eval_at_indices, w.shape)),
        ("tt", lambda w: w.s.tt_approximation(w.T.eval_at_indices, w.shape)),
        ("tree", lambda w: w.s.tree_based_approximation(w.T.eval_at_indices, w.shape, w.tree)),
        ("tree:active", lambda w: w.s.tree_based_approximation(w.T.eval_at_indices, w.shape, w.tree, w.active)),
        ("f.hopca", lambda w: w.ft.hopca(polynomial)), ("f.tucker", lambda w: w.ft.tucker_approximation(polynomial)),
        ("f.tt", lambda w: w.ft.tt_approximation(polynomial)),
        ("f.tree", lambda w: w.ft.tree_based_approximation(polynomial, w.tree)),
        ("f.tree:active", lambda w: w.ft.tree_based_approximation(polynomial, w.tree, w.active))], tol=1e-7)
