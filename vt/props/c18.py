"""Gradients of tensors and functional tensors with respect to their parameters."""
import numpy as np

import tensap
from vt import gen
from vt.core import Prop
from vt.props.c15 import scale
from vt.props.c16 import FT

P = Prop("C18", "Parameter gradients determine the tensor's dependence on each parameter",
         "functional tensors over mixed bases with tree-based coefficients (random trees, node numberings, active "
         "leaves, ranks, root ranks) or canonical coefficients, 1 to 6 points, points given or bases evaluated "
         "beforehand, every node; the same for diagonals of plain tensors; pairs (node, parent) contracted along "
         "their edge. Reference: the network re-contracted by einsum with the parameter replaced by random values "
         "(the gradient, being linear, must reproduce every one of them). Non-trivial: more than one coefficient.")


def contract(g, core, n):
    """<g[i, j..., l...], core[j..., k...]> over the n indices j, as (N, l k)."""
    g, core = np.asarray(g, float), np.asarray(core, float)
    out = np.tensordot(g, core, (list(range(1, 1 + n)), list(range(n))))
    return out.reshape(g.shape[0], -1)


def replaced(net, cores):
    return gen.contract(net.tm, net.active, {**net.cores, **cores})


def diag_values(net, vals, c):
    """(N, root rank) values of the coefficients c."""
    return gen.eval_diag_product(c, vals, range(net.tm.d)).reshape(vals[0].shape[0], -1)


def trailing(net, alpha):
    return (net.root_rank,) if alpha != net.tm.root and net.root_rank > 1 else ()


def judge_single(ctx, what, g, net, vals, alpha, sc, tol):
    core = net.cores[alpha]
    n = core.ndim - (1 if alpha == net.tm.root and net.root_rank > 1 else 0)
    ctx.equal(what + ":shape", g.shape, (vals[0].shape[0],) + core.shape[:n] + trailing(net, alpha))
    for k in range(2):
        new = core if k == 0 else ctx.rng.standard_normal(core.shape) * max(np.max(np.abs(core)), 1e-3)
        ctx.close(what, contract(g, new, n), diag_values(net, vals, replaced(net, {alpha: new})),
                  rtol=tol, scale=sc)


def pair(net, alpha):
    """Merged core of alpha and its parent gamma, indices: those of alpha but the
    last, then those of gamma but the one towards alpha."""
    gamma = net.tm.parent[alpha]
    k = net.tm.children[gamma].index(alpha)
    return gamma, k, np.tensordot(net.cores[alpha], net.cores[gamma], (-1, k))


def with_pair(net, vals, alpha, merged):
    """Values with the pair of cores replaced by a merged core (of any rank)."""
    gamma, k, _ = pair(net, alpha)
    a, c = net.cores[alpha], net.cores[gamma]
    m = merged.reshape(int(np.prod(a.shape[:-1])), -1)
    u = np.eye(m.shape[0]).reshape(a.shape[:-1] + (m.shape[0],))
    w = m.reshape((m.shape[0],) + tuple(np.delete(c.shape, k)))
    return diag_values(net, vals, replaced(net, {alpha: u, gamma: np.moveaxis(w, 0, k)}))


def judge_pair(ctx, what, g, net, vals, alpha, sc, tol):
    gamma, k, merged = pair(net, alpha)
    n = merged.ndim - (1 if gamma == net.tm.root and net.root_rank > 1 else 0)
    ctx.equal(what + ":shape", g.shape, (vals[0].shape[0],) + merged.shape[:n] + trailing(net, gamma))
    for j in range(2):
        new = merged if j == 0 else ctx.rng.standard_normal(merged.shape) * max(np.max(np.abs(merged)), 1e-3)
        ctx.close(what, contract(g, new, n), with_pair(net, vals, alpha, new), rtol=tol, scale=sc)


def nodes(ctx, net, k=3):
    act = [n for n in sorted(net.tm.children) if net.active[n]]
    return [act[i] for i in ctx.rng.permutation(len(act))[:k]]


def setup(ctx, **kw):
    T = FT(ctx, formats=["tbt"], d=ctx.randint(2, 5), cap=3, **kw)
    N = ctx.randint(1, 6)
    x = T.F.points(N)
    vals = T.F.ref1(x)
    sc = max(T.mag * scale(vals), 1e-8) * 10
    f, args = T.f, (x,)
    if ctx.coin():
        f = tensap.FunctionalTensor(T.net.build(), [np.array(v) for v in T.F.bases.eval(x)])
        f.evaluated_bases = True
        args = ()
    return T, N, x, vals, sc, f, args


@P.scenario(150)
def tree_function(ctx):
    T, N, x, vals, sc, f, args = setup(ctx)
    for alpha in nodes(ctx, T.net):
        g = f.parameter_gradient_eval(alpha, *args)
        judge_single(ctx, "function:gradient", gen.arr(g), T.net, vals, alpha, sc, T.F.tol)


@P.scenario(120)
def tree_function_pairs(ctx):
    T, N, x, vals, sc, f, args = setup(ctx)
    for alpha in nodes(ctx, T.net):
        if alpha == T.net.tm.root:
            continue
        g = f.parameter_gradient_eval_dmrg(alpha, *args)
        judge_pair(ctx, "function:pair-gradient", gen.arr(g), T.net, vals, alpha, sc, T.F.tol)


@P.scenario(80)
def tree_function_low_rank_pairs(ctx):
    """Factors of the pair gradient: their row-wise product is the gradient."""
    T, N, x, vals, sc, f, args = setup(ctx)
    net = T.net
    for alpha in nodes(ctx, net, 2):
        if alpha == net.tm.root:
            continue
        gamma, k, merged = pair(net, alpha)
        na = net.cores[alpha].ndim - 1
        ga, gg = f.parameter_gradient_eval_dmrg(alpha, *args, dmrg_type="dmrg_low_rank")
        ga, gg = gen.arr(ga), gen.arr(gg)
        ctx.equal("low-rank:shape", ga.shape, (N,) + net.cores[alpha].shape[:-1])
        a = ga.reshape((N,) + ga.shape[1:] + (1,) * (gg.ndim - 1))
        g = a * gg.reshape((N,) + (1,) * na + gg.shape[1:])
        judge_pair(ctx, "function:low-rank-pair", g, net, vals, alpha, sc, T.F.tol)
    ctx.raises("wrong-type", f.parameter_gradient_eval_dmrg, net.tm.children[net.tm.root][0]
               if net.active[net.tm.children[net.tm.root][0]] else net.tm.root, *args, dmrg_type="other")


@P.scenario(30)
def needs_points(ctx):
    T = FT(ctx, formats=["tbt", "canonical"], d=2, cap=3)
    ctx.raises("no-points", T.f.parameter_gradient_eval, 1)
    if T.fmt == "tbt":
        ctx.raises("no-points:pair", T.f.parameter_gradient_eval_dmrg, 1)


@P.scenario(80)
def canonical_function(ctx):
    T = FT(ctx, formats=["canonical"], d=ctx.randint(2, 4), cap=4)
    N = ctx.randint(1, 6)
    x = T.F.points(N)
    vals = T.F.ref1(x)
    U = [np.array(u) for u in T.t.space]
    w = np.array(T.t.core.data)
    r, d = len(w), len(U)
    f, args = T.f, (x,)
    if ctx.coin():
        f = tensap.FunctionalTensor(tensap.CanonicalTensor([u.copy() for u in U], w.copy()), T.F.bases.eval(x))
        f.evaluated_bases = True
        args = ()
    sc = max(T.mag, 1.0) * scale(vals) * 100 + 1e-8
    P_ = [v @ u for v, u in zip(vals, U)]
    g = gen.arr(f.parameter_gradient_eval(d + 1, *args))
    ctx.close("canonical:weights", g, np.prod(P_, 0).reshape(N, r), rtol=T.F.tol, scale=sc)
    for mu in range(1, d + 1):
        g = gen.arr(f.parameter_gradient_eval(mu, *args))
        ctx.equal("canonical:shape", g.shape, (N, r, T.F.n[mu - 1]))
        V = ctx.rng.standard_normal((T.F.n[mu - 1], r))
        for W in (U[mu - 1] * w, V):
            # the parameter is the mu-th factor that carries the weights
            ref = np.prod([P_[k] if k != mu - 1 else vals[k] @ W for k in range(d)], 0).sum(1)
            ctx.close("canonical:factor", np.einsum("irk,kr->i", g, W), ref, rtol=T.F.tol, scale=sc)


def square_net(ctx, rr):
    n = ctx.randint(1, 3)
    d = ctx.randint(2, 5)
    net = gen.random_tbt(ctx, d=d, shape=[n] * d, root_rank=rr)
    ctx.case(**net.describe())
    if n == 1:
        ctx.trivial()
    return n, d, net


def reorder(net, alpha, skip=None):
    """Children of alpha, active ones first (as the plain tensor's methods order them), then the parent edge."""
    ch = net.tm.children[alpha] if alpha not in net.tm.leaf_dim else None
    if ch is None:
        return [0]
    ids = [k for k, c in enumerate(ch) if c != skip]
    return [k for k in ids if net.active[ch[k]]] + [k for k in ids if not net.active[ch[k]]]


@P.scenario(80)
def diagonal_of_tensor(ctx):
    rr = ctx.choice([1, 1, 2, 3])
    n, d, net = square_net(ctx, rr)
    t = net.build()
    rand = [ctx.rng.standard_normal((n, n)) for _ in range(d)]
    for alpha in nodes(ctx, net):
        order = reorder(net, alpha)
        dims = own_dims(net, alpha)
        own = len(dims) > 0
        use = ctx.coin()
        # the matrices only replace the node's own dimensions
        mats = [rand[j] if use and j in dims else np.eye(n) for j in range(d)]
        g = gen.arr(t.parameter_gradient_eval_diag(alpha, *([rand] if use else [])))
        if own and not use:
            # the node's own dimensions are left free: (.., j, k, ..) for each of them
            if alpha in net.tm.leaf_dim:
                g = np.stack([g[i, i] for i in range(n)])
            else:
                na = sum(net.active[c] for c in net.tm.children[alpha])
                for p in range(len(order) - na):
                    g = np.stack([np.take(g[i], i, na + p) for i in range(n)])
        inv = np.argsort(order)
        k = len(order)
        g = np.transpose(g, [0] + [1 + int(j) for j in inv] + list(range(1 + k, g.ndim)))
        sc = np.prod([max(np.max(np.abs(v)), 1) * n for v in mats]) * net.mag * 10
        judge_single(ctx, "tensor:gradient", g, net, mats, alpha, sc, 1e-9)


@P.scenario(60)
def canonical_tensor(ctx):
    n, d, r = ctx.randint(1, 4), ctx.randint(2, 4), ctx.randint(1, 3)
    U = [ctx.rng.standard_normal((n, r)) for _ in range(d)]
    w = ctx.rng.standard_normal(r)
    t = tensap.CanonicalTensor([u.copy() for u in U], w.copy())
    ctx.case(n=n, d=d, r=r)
    if n * r == 1:
        ctx.trivial()
    ctx.close("canonical-tensor:weights", gen.arr(t.parameter_gradient_eval_diag(d + 1)), np.prod(U, 0))
    for mu in range(1, d + 1):
        W = ctx.rng.standard_normal((n, r))
        ref = np.prod([U[k] if k != mu - 1 else W for k in range(d)], 0).sum(1)
        g = gen.arr(t.parameter_gradient_eval_diag(mu, [np.eye(n)] * d))
        ctx.close("canonical-tensor:factor", np.einsum("irk,kr->i", g, W), ref, scale=1.0)
        g = gen.arr(t.parameter_gradient_eval_diag(mu))
        # the mu-th dimension is left free
        ctx.close("canonical-tensor:factor-free", np.einsum("irik,kr->i", g, W), ref, scale=1.0)


def free_axes(net, alpha, skip=None):
    """For each index of a core as the plain tensor orders them, whether it is an own dimension."""
    if alpha in net.tm.leaf_dim:
        return [True]
    ch = net.tm.children[alpha]
    return [not net.active[ch[k]] for k in reorder(net, alpha, skip)]


def own_dims(net, alpha):
    """Dimensions which are indices of the core itself."""
    if alpha in net.tm.leaf_dim:
        return {net.tm.leaf_dim[alpha]}
    return {net.tm.leaf_dim[c] for c in net.tm.children[alpha] if not net.active[c]}


@P.scenario(80)
def pairs_of_tensor(ctx):
    """Pairs (node, parent) of a plain tensor: gradient of its diagonal and its two factors."""
    rr = ctx.choice([1, 1, 2, 3])
    n, d, net = square_net(ctx, rr)
    t = net.build()
    mats = [ctx.rng.standard_normal((n, n)) for _ in range(d)]
    for alpha in nodes(ctx, net):
        if alpha == net.tm.root:
            continue
        gamma = net.tm.parent[alpha]
        use = ctx.coin()
        ctx.op("pair-matrices" if use else "pair-free")
        # the matrices only replace the pair's own dimensions
        own = own_dims(net, alpha) | own_dims(net, gamma)
        vals = [mats[j] if use and j in own else np.eye(n) for j in range(d)]
        N = n
        g, ga, gg = (gen.arr(v) for v in t.parameter_gradient_eval_diag_dmrg(alpha, *([mats] if use else [])))
        fa, fg = free_axes(net, alpha), free_axes(net, gamma, alpha)

        def diagonal(x, free):
            if use:
                return x
            out = []
            for i in range(N):
                out.append(x[(i,) + sum(((i, slice(None)) if f else (slice(None),) for f in free), ())])
            return np.stack(out)
        g, ga, gg = diagonal(g, fa + fg), diagonal(ga, fa), diagonal(gg, fg)
        prod = ga.reshape(ga.shape + (1,) * (gg.ndim - 1)) * gg.reshape((N,) + (1,) * (ga.ndim - 1) + gg.shape[1:])
        sc = np.prod([max(np.max(np.abs(v)), 1) * n for v in vals]) * net.mag * 10
        ctx.close("pair:factors", prod, g, rtol=1e-9, scale=sc)
        ia = [0] if alpha in net.tm.leaf_dim else [int(v) for v in np.argsort(reorder(net, alpha))]
        # positions of gamma's indices other than the one towards alpha
        og = reorder(net, gamma, alpha)
        ig = [int(v) for v in np.argsort(og)]
        m = len(ia)
        g = np.transpose(g, [0] + [1 + v for v in ia] + [1 + m + v for v in ig] +
                         list(range(1 + m + len(ig), g.ndim)))
        judge_pair(ctx, "tensor:pair-gradient", g, net, vals, alpha, sc, 1e-9)
