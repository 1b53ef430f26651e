import numpy as np

import tensap
from vt import gen, tbtmon
from vt.core import Prop, Skip
from vt.gen import arr, dense_of, random_tbt, unfold

P = Prop("C04", "Truncations respect the tolerance and the maximal ranks, quasi-optimally",
         "matrices, full tensors (low rank plus noise, decaying, random, constant), canonical "
         "and tree-based tensors, random trees and active sets, tolerances 1e-12..0.7, scalar and "
         "per-node maximal ranks, both tree-based algorithms; compared with SVDs of the dense "
         "matricisations. Non-trivial: tensor non-zero; distinct by shape, tree and parameters.")


def spectrum_tensor(ctx, shape, tol=None, nodes=1):
    """A dense tensor with decaying or low-rank matricisations."""
    d = len(shape)
    if tol is not None and ctx.coin(0.35):
        return "graded", gen.graded_tensor(ctx, shape, tol, nodes) * ctx.choice([1.0, 1e-5, 1e4, 1e-11, 1e9])
    kind = ctx.choice(["random", "lowrank", "lowrank+noise", "decay", "constant", "integer"])
    if kind == "random":
        x = ctx.rng.standard_normal(shape)
    elif kind == "integer":
        x = ctx.rng.integers(-2, 3, shape)
        if not np.any(x):
            x.flat[0] = 1
    elif kind == "constant":
        x = np.full(shape, float(ctx.rng.standard_normal()) + 3)
    elif kind == "decay":
        g = np.meshgrid(*[np.linspace(0, 1, n) + 0.1 * k for k, n in enumerate(shape)],
                        indexing="ij")
        x = 1.0 / (1 + sum((1 + 0.3 * k) * y for k, y in enumerate(g)))
    else:
        x = np.zeros(shape)
        for _ in range(ctx.randint(1, 2)):
            y = np.ones([1] * d)
            for k in range(d):
                sh = [1] * d
                sh[k] = shape[k]
                y = y * ctx.rng.standard_normal(sh)
            x = x + y
        if kind == "lowrank+noise":
            x = x + 1e-3 * ctx.rng.standard_normal(shape)
    c = ctx.choice([1, 1, 1, 1e-5, 1e4, 1e-11, 1e9])
    return kind, x if c == 1 else x * c


def tail(s, r):
    return float(np.sqrt(np.sum(s[r:] ** 2)))


def needed(s, tol):
    """Smallest rank with a relative Frobenius tail below tol."""
    n = np.sqrt(np.sum(s ** 2))
    for r in range(1, len(s) + 1):
        if tail(s, r) < tol * n:
            return r
    return len(s)


TOLS = [1e-12, 1e-8, 1e-3, 1e-2, 0.1, 0.3, 0.7]


@P.scenario(500)
def matrix_svd(ctx):
    m, n = ctx.randint(1, 7), ctx.randint(1, 7)
    kind, x = spectrum_tensor(ctx, [m, n])
    s = np.linalg.svd(x, compute_uv=False)
    power = ctx.choice([2, 2, 2, 1, 4, "inf", np.inf])
    tol = ctx.choice(TOLS)
    mr = ctx.choice([np.inf, np.inf, 1, 2, 3])
    entry = ctx.choice(["trunc_svd", "svd", "truncate", "canonical"])
    if entry != "trunc_svd":
        power = 2
    ctx.case(kind=kind, shape=[m, n], tol=tol, max_rank=str(mr), power=str(power), entry=entry)
    ctx.op(entry)
    tr = tensap.Truncator(tol, mr)
    if entry == "trunc_svd":
        y = tr.trunc_svd(x, tol, power) if ctx.coin() else \
            tensap.Truncator(0.5, mr).trunc_svd(x, tol, power)
    elif entry == "canonical":
        k = ctx.randint(1, 4)
        a, b = ctx.rng.standard_normal((m, k)), ctx.rng.standard_normal((n, k))
        c = ctx.rng.standard_normal(k)
        x = (a * c) @ b.T
        s = np.linalg.svd(x, compute_uv=False)
        y = tr.svd(tensap.CanonicalTensor([a, b], c))
    else:
        arg = x if ctx.coin() else tensap.FullTensor(x)
        y = tr.svd(arg) if entry == "svd" else tr.truncate(arg)
    u, v, c = y.space[0], y.space[1], np.asarray(y.core.data)
    r = c.size
    ctx.check("shapes", u.shape == (m, r) and v.shape == (n, r), "%s %s %d" % (
        u.shape, v.shape, r))
    ctx.check("max_rank", r <= mr)
    nrm = np.linalg.norm(x)
    rec = (u * c) @ v.T
    # Eckart-Young: the truncation is the best one of its rank
    ctx.close("best-approximation", np.linalg.norm(x - rec), tail(s, r), 1e-9, scale=nrm)
    ctx.close("singular-values", c, s[:r] if r <= s.size else np.r_[s, np.zeros(r - s.size)],
              1e-10, scale=nrm)
    ctx.close("left-orthonormal", u.T @ u, np.eye(r), 0, 1e-9)
    ctx.close("right-orthonormal", v.T @ v, np.eye(r), 0, 1e-9)
    ctx.close("full", y.full().data, rec, 1e-12, scale=nrm)
    if power in ("inf", np.inf):
        err = np.r_[s[1:], 0] / s[0]
    else:
        err = np.array([np.sum(s[k:] ** power) ** (1.0 / power) for k in range(1, s.size)]
                       + [0.0]) / np.sum(s ** power) ** (1.0 / power)
    if r < mr and r <= err.size:
        ctx.check("tolerance", err[r - 1] <= tol + 1e-12, "Schatten error %g" % err[r - 1])
    if r > 1 and entry != "canonical":
        ctx.check("minimal-rank", err[r - 2] >= tol * (1 - 1e-6) - 1e-13,
                  "rank %d kept although rank %d has error %g < %g" % (r, r - 1, err[r - 2], tol))


@P.scenario(150)
def thresholding(ctx):
    m, n = ctx.randint(2, 7), ctx.randint(2, 7)
    x = ctx.rng.standard_normal((m, n))
    u, s, vt = np.linalg.svd(x, full_matrices=False)
    k = ctx.randint(0, s.size - 1)
    thr = float(0.5 * (s[k] + (s[k + 1] if k + 1 < s.size else 0)))
    kind = ctx.choice(["hard", "soft"])
    mr = ctx.choice([np.inf, 2])
    ctx.case(kind=kind, shape=[m, n], keep=k + 1, max_rank=str(mr))
    ctx.op(kind)
    y = tensap.Truncator(0, mr, kind, thr).trunc_svd(x)
    r = int(min(k + 1, mr))
    t = s[:r] - (thr if kind == "soft" else 0)
    ctx.close(kind, y.full().data, (u[:, :r] * t) @ vt[:r], 1e-9)


def node_spectra(x, tm, active, nd):
    """Singular values of the matricisations of the dense tensor, per active node."""
    out = {}
    for n in tm.children:
        if n != tm.root and active[n]:
            out[n] = np.linalg.svd(unfold(x, tm.dims(n)), compute_uv=False)
    return out


def judge(ctx, name, y, x, tm, active, tol, mr, acc):
    """y: tree-based truncation of the dense x."""
    tbtmon.check_rep(ctx, y, name)
    ctx.check(name + ":active", [bool(b) for b in y.is_active_node]
              == [active[n + 1] for n in range(tm.nb)], "active nodes changed")
    ctx.check(name + ":tree", gen.model_of(y.tree).parent == tm.parent
              and list(y.tree.dim2ind) == tm.dim2ind().tolist(), "tree changed")
    sp = node_spectra(x, tm, active, tm.d)
    nrm = np.linalg.norm(x)
    err = np.linalg.norm(dense_of(y) - x)
    r = {n: int(y.ranks[n - 1]) for n in sp}
    bound = np.sqrt(sum(tail(s, r[n]) ** 2 for n, s in sp.items()))
    ctx.check(name + ":quasi-optimal", err <= bound * (1 + 1e-6) + acc * nrm,
              "error %.3g exceeds the tails' bound %.3g" % (err, bound))
    capped = False
    # what each edge may discard, less the accuracy of the computed spectra
    share = 0.95 * tol / np.sqrt(len(sp)) - 2 * acc
    for n in sp:
        ctx.check(name + ":max_rank", r[n] <= mr[n], "node %d: rank %d > %s" % (n, r[n], mr[n]))
        capped = capped or r[n] >= mr[n]
        if tol <= 0.1 and share > 0:
            ctx.check(name + ":minimal", r[n] <= needed(sp[n], share),
                      "node %d: rank %d, %d suffice" % (n, r[n], needed(sp[n], share)))
    if not capped:
        ctx.check(name + ":tolerance", err <= tol * nrm * (1 + 1e-6) + acc * nrm,
                  "relative error %.3g exceeds the tolerance %.3g" % (err / nrm, tol))
    # best approximation error is at least the largest tail
    ctx.check(name + ":lower-bound", err >= max(tail(s, r[n]) for n, s in sp.items())
              * (1 - 1e-6) - acc * nrm, "error below the best possible error")
    ctx.close(name + ":norm", y.norm(), np.linalg.norm(dense_of(y)), 1e-7, scale=nrm)
    ctx.close(name + ":full", y.full().data, dense_of(y), 1e-10, scale=nrm)


def random_max_rank(ctx, tm):
    kind = ctx.choice(["inf", "inf", "scalar", "vector"])
    if kind == "inf":
        return np.inf, {n: np.inf for n in tm.children}
    if kind == "scalar":
        k = ctx.randint(1, 4)
        return k, {n: k for n in tm.children}
    v = [ctx.randint(1, 4) for _ in range(tm.nb)]
    if ctx.coin():
        return np.array(v), {n + 1: v[n] for n in range(tm.nb)}
    return v, {n + 1: v[n] for n in range(tm.nb)}


@P.scenario(500)
def full_to_tree(ctx):
    """hsvd of a full tensor, possibly with an extra output dimension."""
    d = ctx.randint(2, 5)
    tm = gen.named_tree_model(ctx, d)
    shape = [ctx.randint(1, 4) for _ in range(d)]
    if d > 4:
        shape = [min(s, 3) for s in shape]
    out = [ctx.randint(2, 4)] if ctx.coin(0.25) else []
    active = gen.random_active(ctx, tm)
    na = sum(active.values())
    tol = ctx.choice(TOLS)
    kind, x = spectrum_tensor(ctx, shape + out, tol, na - 1)
    mr, mrn = random_max_rank(ctx, tm)
    tr = tensap.Truncator(tol, mr)
    ctx.case(kind=kind, tree=tm.describe(), shape=shape, out=out, tol=tol, max_rank=str(mr),
             inactive=[n for n in active if not active[n]])
    al = np.array([active[n + 1] for n in range(tm.nb)])
    if na < 2:
        raise Skip("nothing to truncate")
    ctx.op("hsvd-full")
    if all(active.values()) and ctx.coin():
        y = tr.hsvd(tensap.FullTensor(x), tm.tree())
    else:
        y = tr.hsvd(tensap.FullTensor(x), tm.tree(), al)
    judge(ctx, "hsvd-full", y, x, tm, active, tol, mrn, 1e-9)
    reuse(ctx, tr, tol, mr, lambda: tr.hsvd(tensap.FullTensor(x), tm.tree(), al), y)


def reuse(ctx, tr, tol, mr, call, y):
    """A truncator is a parameter set: using it neither changes it nor its answers."""
    ctx.check("truncator-unchanged", tr.tolerance == tol and np.array_equal(tr.max_rank, mr),
              "max_rank %s became %s" % (mr, tr.max_rank))
    z = call()
    ctx.equal("same-ranks-again", z.ranks, y.ranks)
    ctx.close("same-value-again", dense_of(z), dense_of(y), 1e-10,
              scale=np.max(np.abs(dense_of(y))))


@P.scenario(500)
def tree_to_tree(ctx):
    a = random_tbt(ctx, dmax=5, rmax=4, smax=4, admissible=ctx.coin(0.5),
                   root_rank=ctx.choice([1, 1, 1, 2]))
    # decaying cores make truncation matter
    if ctx.coin(0.6):
        for n in a.cores:
            c = a.cores[n]
            if n != a.tm.root:
                a.cores[n] = c * 10.0 ** (-ctx.choice([1, 2]) * np.arange(c.shape[-1]))
        a = gen.TBT(a.tm, a.shape, a.ranks, a.active, a.cores)
    nrm = np.linalg.norm(a.dense)
    if not nrm > 1e-6 * a.magnorm:
        raise Skip("cancellation")
    t = a.build()
    na = sum(a.active.values())
    if na < 2:
        raise Skip("nothing to truncate")
    tol = ctx.choice([1e-6] + TOLS[2:])
    mr, mrn = random_max_rank(ctx, a.tm)
    htype = ctx.choice([2, 2, 2, 1])
    if htype == 1 and a.root_rank > 1:
        htype = 2
    tr = tensap.Truncator(tol, mr)
    tr._hsvd_type = htype
    entry = ctx.choice(["hsvd", "truncate"])
    ctx.case(tol=tol, max_rank=str(mr), hsvd_type=htype, entry=entry, **a.describe())
    ctx.op("%s-type%d" % (entry, htype))
    if ctx.coin(0.2):
        t = t.orth()
    y = getattr(tr, entry)(t)
    acc = 3e-7 * a.magnorm / nrm
    judge(ctx, "tree-truncation", y, a.dense, a.tm, a.active, tol, mrn, acc)
    for n in a.tm.children:
        if n != a.tm.root:
            ctx.check("rank-not-increased", y.ranks[n - 1] <= max(a.ranks[n], 0))
    reuse(ctx, tr, tol, mr, lambda: getattr(tr, entry)(t), y)
    ctx.close("operand-intact", dense_of(t), a.dense, 1e-10, scale=a.mag)


@P.scenario(300)
def graded_to_tree(ctx):
    """Tree-based tensors whose spectra have tails of the size the tolerance allows."""
    d = ctx.choice([2, 2, 3, 3, 4, 5, 6])
    tm = gen.named_tree_model(ctx, d)
    big = {2: 12, 3: 7, 4: 5, 5: 4, 6: 3}[d]
    n = ctx.randint(2, big)
    shape = [n] * d if ctx.coin(0.7) else [ctx.randint(2, big) for _ in range(d)]
    active = gen.random_active(ctx, tm)
    na = sum(active.values())
    if na < 2:
        raise Skip("nothing to truncate")
    tol = ctx.choice([1e-4, 1e-2, 0.1, 0.3])
    x = gen.graded_tensor(ctx, shape, tol, na - 1)
    al = np.array([active[n + 1] for n in range(tm.nb)])
    t = tensap.Truncator(0, np.inf).hsvd(tensap.FullTensor(x), tm.tree(), al)
    ctx.close("exact", dense_of(t), x, 1e-12)
    x = dense_of(t)
    mr, mrn = random_max_rank(ctx, tm) if ctx.coin(0.3) else (np.inf, {n: np.inf for n in active})
    tr = tensap.Truncator(tol, mr)
    tr._hsvd_type = ctx.choice([2, 2, 1])
    ctx.case(tree=tm.describe(), shape=shape, tol=tol, max_rank=str(mr), type=tr._hsvd_type,
             inactive=[n for n in active if not active[n]])
    ctx.op("graded-type%d" % tr._hsvd_type)
    y = tr.hsvd(t)
    judge(ctx, "graded", y, x, tm, active, tol, mrn, 1e-9)


@P.scenario(300)
def named_formats(ctx):
    """HOSVD (Tucker) and TT-SVD of a full tensor."""
    d = ctx.randint(3, 5)
    shape = [ctx.randint(1, 4 if d < 5 else 3) for _ in range(d)]
    tol = ctx.choice(TOLS)
    entry = ctx.choice(["hosvd", "truncate", "ttsvd"])
    kind, x = spectrum_tensor(ctx, shape, tol, d)
    ctx.op(entry)
    if entry == "ttsvd":
        tm = gen.model_of(tensap.DimensionTree.linear(d))
        d2i = tm.dim2ind()
        active = {n: n not in d2i[1:].tolist() for n in tm.children}
        mr = ctx.choice([np.inf, 2, 3])
        mrn = {n: mr for n in tm.children}
        tr = tensap.Truncator(tol, mr)
        ctx.case(kind=kind, shape=shape, entry=entry, tol=tol, max_rank=str(mr))

        def call():
            return tr.ttsvd(tensap.FullTensor(x))
    else:
        tm = gen.model_of(tensap.DimensionTree.trivial(d))
        active = {n: True for n in tm.children}
        if ctx.coin(0.4):
            mr = [ctx.randint(1, 3) for _ in range(d)]
            mrn = {int(tm.dim2ind()[k]): mr[k] for k in range(d)}
        else:
            mr = ctx.choice([np.inf, 2, 3])
            mrn = {n: mr for n in tm.children}
        tr = tensap.Truncator(tol, mr)
        ctx.case(kind=kind, shape=shape, entry=entry, tol=tol, max_rank=str(mr))
        arg = x if ctx.coin() else tensap.FullTensor(x)

        def call():
            return getattr(tr, entry)(arg)
    y = call()
    judge(ctx, entry, y, x, tm, active, tol, mrn, 1e-9)
    reuse(ctx, tr, tol, mr, call, y)


@P.scenario(60)
def zero(ctx):
    """The truncation of a null tensor is a (finite) null tensor."""
    d = ctx.randint(2, 4)
    shape = [ctx.randint(1, 4) for _ in range(d)]
    mr = ctx.choice([np.inf, 1, 2])
    tr = tensap.Truncator(ctx.choice(TOLS), mr)
    entry = ctx.choice(["truncate", "hsvd", "ttsvd", "hsvd-tree"])
    tm = gen.named_tree_model(ctx, d)
    ctx.case(shape=shape, entry=entry, max_rank=str(mr), tree=tm.describe())
    x = tensap.FullTensor(np.zeros(shape))
    ctx.op("zero-" + entry)
    if entry == "truncate":
        y = tr.truncate(x)
    elif entry == "hsvd":
        y = tr.hsvd(x, tm.tree())
    elif entry == "ttsvd":
        y = tr.ttsvd(x)
    else:
        a = random_tbt(ctx, tm=tm, shape=shape)
        t = a.build()
        y = tr.hsvd(t - t if ctx.coin() else t * 0.0)
        scale = a.mag
        ctx.close("zero", y.full().data, np.zeros(shape), 0, 1e-6 * scale)
        return
    ctx.close("zero", y.full().data, np.zeros(shape), 0, 0)
    if isinstance(y, tensap.TreeBasedTensor):
        ctx.check("zero:max_rank", np.all(np.asarray(y.ranks) <= mr))
