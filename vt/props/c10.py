import itertools

import numpy as np

import tensap
from vt.core import Prop, Skip

P = Prop("C10", "Multi-index sets and index encodings are exact",
         "dimension 1-5, random sets (downward closed or not, sorted or not, one element or "
         "many), random bounds, norms (1/2, 1, 2, 3, inf), weights and orders; compared with "
         "brute-force enumeration over sets of tuples. Non-trivial: at least one comparison of "
         "a non-empty set; distinct by operation and data.")

MI = tensap.MultiIndices


def tup(m):
    a = np.asarray(m.array if isinstance(m, MI) else m)
    return [tuple(int(v) for v in row) for row in a.reshape(len(a), -1)]


def is_set(ctx, name, got, ref, msg=""):
    """Same elements, once each, right announced cardinal and dimension."""
    ctx.check(name + ":type", isinstance(got, MI))
    t = tup(got)
    ctx.check(name + ":once-each", len(set(t)) == len(t), "%s duplicates in %s" % (msg, t[:10]))
    miss, extra = sorted(set(ref) - set(t)), sorted(set(t) - set(ref))
    ctx.check(name, not miss and not extra, "%s missing %s, extra %s" % (msg, miss[:5], extra[:5]))
    ctx.equal(name + ":cardinal", int(got.cardinal()), len(t))
    if t:
        ctx.equal(name + ":ndim", int(got.ndim()), len(t[0]))


def random_set(ctx, d=None, closed=None, nmin=1, top=4):
    d = d or ctx.randint(1, 4)
    kind = ctx.choice(["closed", "random", "random", "single", "box"]) if closed is None else (
        "closed" if closed else "random")
    if kind == "single":
        s = {tuple(ctx.randint(0, top) for _ in range(d))}
    elif kind == "box":
        b = [ctx.randint(0, 2) for _ in range(d)]
        s = set(itertools.product(*[range(v + 1) for v in b]))
    else:
        s = {tuple(ctx.randint(0, top) if ctx.coin(0.7) else 0 for _ in range(d))
             for _ in range(ctx.randint(nmin, 6))}
        if kind == "closed":
            s = {x for t in s for x in itertools.product(*[range(v + 1) for v in t])}
    s = sorted(s)
    s = [s[int(i)] for i in ctx.rng.permutation(len(s))]
    return s


def mi(s):
    return MI(np.array(s, dtype=int))


def lp(t, p, w=None):
    v = [abs(a * (1 if w is None else b)) for a, b in zip(t, w if w is not None else t)]
    return max(v) if p == np.inf else sum(a ** p for a in v) ** (1.0 / p)


@P.scenario(400)
def factories(ctx):
    kind = ctx.choice(["norm", "norm", "norm", "weighted", "bounded_by", "bounded_by-m0",
                       "product", "product-d", "product-sets", "hyperbolic", "low-order",
                       "weighted-hyperbolic", "ind2sub"])
    ctx.op(kind)
    d = ctx.randint(1, 4)
    eps = 1e-9
    if kind in ("norm", "weighted"):
        p = ctx.choice([0.5, 1, 2, 3, np.inf] if kind == "norm" else [1, 2, 3, np.inf])
        m = ctx.choice([0, 1, 2, 3, 4] if d < 4 else [0, 1, 2, 3])
        if kind == "norm" and p not in (1, np.inf) and ctx.coin():
            m = m + 0.5
        w = [ctx.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(d)] if kind == "weighted" else None
        ctx.case(kind=kind, d=d, p=str(p), m=m, w=w)
        hi = int(m / min(w)) + 1 if w else int(m) + 1
        box = list(itertools.product(range(hi + 1), repeat=d))
        vals = {t: lp(t, p, w) for t in box}
        if any(0 < abs(v - m) < 1e-9 for v in vals.values()):
            raise Skip("norm within rounding of the bound")
        ref = [t for t in box if vals[t] <= m]
        # norms equal to the bound up to rounding may go either way
        edge = {t for t in box if abs(vals[t] - m) < eps}
        got = (MI.with_bounded_norm(d, p, m) if kind == "norm"
               else MI.with_bounded_weighted_norm(d, p, m, w))
        if p in (1, np.inf):
            is_set(ctx, kind, got, ref)
        else:
            # the rounding of the p-th root may exclude indices of norm exactly m
            g = set(tup(got))
            is_set(ctx, kind, got, sorted((set(ref) - edge) | (g & edge)))
    elif kind.startswith("bounded_by"):
        b = [ctx.randint(0, 4) for _ in range(d)]
        m0 = 1 if kind.endswith("m0") else 0
        if m0:
            b = [v + 1 for v in b]
        ctx.case(kind=kind, b=b, m0=m0)
        got = MI.bounded_by(b, m0) if m0 else MI.bounded_by(b if ctx.coin() else np.array(b))
        is_set(ctx, kind, got, list(itertools.product(*[range(m0, v + 1) for v in b])))
    elif kind == "product":
        sets = [sorted({ctx.randint(0, 9) for _ in range(ctx.randint(1, 4))}) for _ in range(d)]
        ctx.case(kind=kind, sets=sets)
        got = MI.product_set([list(s) if ctx.coin() else np.array(s) for s in sets])
        is_set(ctx, kind, got, list(itertools.product(*sets)))
        # first index fastest
        ctx.equal("product-order", tup(got), [t[::-1] for t in itertools.product(*sets[::-1])])
    elif kind == "product-d":
        s = sorted({ctx.randint(0, 9) for _ in range(ctx.randint(1, 4))})
        ctx.case(kind=kind, s=s, d=d)
        arg = ctx.choice([lambda: list(s), lambda: np.array(s), lambda: [np.array(s)]])()
        is_set(ctx, kind, MI.product_set(arg, d), list(itertools.product(s, repeat=d)))
    elif kind == "product-sets":
        a, b = random_set(ctx), random_set(ctx)
        ctx.case(kind=kind, a=str(a), b=str(b))
        if ctx.coin():
            got = mi(a).product(mi(b))
        else:
            got = MI.product_set([mi(a), mi(b)])
        is_set(ctx, kind, got, [x + y for x in a for y in b])
        sets = [random_set(ctx, ctx.randint(1, 2), top=3)[:4] for _ in range(ctx.randint(2, 4))]
        got = MI.product_set([mi(t) for t in sets])
        is_set(ctx, "product-sets", got,
               [sum(t, ()) for t in itertools.product(*sets)], str(sets))
        is_set(ctx, "product-none", mi(a).product(None), a)
    elif kind in ("hyperbolic", "weighted-hyperbolic"):
        p = ctx.randint(0, 6)
        w = [1] * d if kind == "hyperbolic" else [ctx.choice([0.5, 1.0, 2.0]) for _ in range(d)]
        ctx.case(kind=kind, d=d, p=p, w=w)
        hi = int((p + 1) ** (1 / min(w))) + 1
        if hi ** d > 20000:
            raise Skip("large")
        # (exact arithmetic: squares, products of integers and square roots)
        ref, edge = set(), set()
        for t in itertools.product(range(hi + 1), repeat=d):
            v = np.prod([(a + 1.0) ** b for a, b in zip(t, w)])
            if abs(v - (p + 1)) < 1e-9:
                edge.add(t)
            if v <= p + 1 + 1e-9:
                ref.add(t)
        got = (MI.hyperbolic_cross_set(d, p) if kind == "hyperbolic"
               else MI.weighted_hyperbolic_cross_set(d, p, w))
        if kind != "hyperbolic":
            g = set(tup(got))
            ref = (ref - edge) | (g & edge)
        is_set(ctx, kind, got, sorted(ref))
    elif kind == "low-order":
        p, m = ctx.randint(1, 3), ctx.randint(1, d)
        ctx.case(kind=kind, d=d, p=p, m=m)
        ref = [t for t in itertools.product(range(p + 1), repeat=d) if np.count_nonzero(t) <= m]
        is_set(ctx, kind, MI.low_order_interactions(d, p, m), ref)
    else:
        shape = [ctx.randint(1, 4) for _ in range(d)]
        n = int(np.prod(shape))
        ind = ctx.rng.integers(0, n, ctx.randint(1, 8))
        ctx.case(kind=kind, shape=shape, ind=ind.tolist())
        got = MI.ind2sub(shape, ind)
        ref = []
        for i in ind.tolist():
            t = []
            for s in shape:
                t.append(i % s)
                i //= s
            ref.append(tuple(t))
        ctx.equal(kind, tup(got), ref)
        ctx.equal("sub2ind", np.ravel(got.sub2ind(shape)), ind)


@P.scenario(600)
def algebra(ctx):
    op = ctx.choice(["union", "remove", "remove-positions", "intersect", "remove_dims",
                     "keep_dims", "keep", "get", "shift", "compare", "list"])
    d = ctx.randint(1, 4)
    a = random_set(ctx, d, nmin=2)
    b = random_set(ctx, d, nmin=2)
    for t in a:
        if ctx.coin(0.3) and t not in b:
            b.append(t)
    ctx.case(op=op, a=str(a), b=str(b))
    ctx.op(op)
    x, y = mi(a), mi(b)
    if op == "union":
        got = x.add_indices(y)
        is_set(ctx, op, got, sorted(set(a) | set(b)))
        ctx.equal("union-order", tup(got), a + [t for t in b if t not in a])
    elif op == "remove":
        ref = sorted(set(a) - set(b))
        got = x.remove_indices(y)
        if ref:
            is_set(ctx, op, got, ref)
            ctx.equal("remove-order", tup(got), [t for t in a if t in ref])
        else:
            ctx.equal(op, np.asarray(got.array).size, 0)
    elif op == "remove-positions":
        k = ctx.rng.integers(0, len(a), ctx.randint(1, 3))
        ref = [t for i, t in enumerate(a) if i not in k.tolist()]
        got = x.remove_indices(k if ctx.coin() else k.tolist())
        if ref:
            is_set(ctx, op, got, ref)
            ctx.equal("remove-order", tup(got), ref)
        else:
            ctx.equal(op, np.asarray(got.array).size, 0)
    elif op == "intersect":
        got, ia, ib = x.intersect_indices(y)
        ref = set(a) & set(b)
        ctx.equal("positions", [a[int(i)] for i in ia], [b[int(i)] for i in ib])
        ctx.equal("positions-set", sorted(a[int(i)] for i in ia), sorted(ref))
        if ref:
            is_set(ctx, op, got, sorted(ref))
            ctx.equal("order", tup(got), [a[int(i)] for i in ia])
    elif op in ("remove_dims", "keep_dims"):
        dims = sorted(int(v) for v in ctx.rng.permutation(d)[: ctx.randint(1, d)])
        if op == "remove_dims":
            if len(dims) == d:
                raise Skip("no dimension left")
            kept = [k for k in range(d) if k not in dims]
        else:
            kept = dims
        got = getattr(x, op)(dims if ctx.coin() else np.array(dims))
        is_set(ctx, op, got, sorted({tuple(t[k] for k in kept) for t in a}))
    elif op == "keep":
        k = ctx.rng.permutation(len(a))[: ctx.randint(1, len(a))]
        ctx.equal(op, tup(x.keep_indices(k)), [a[int(i)] for i in k])
    elif op == "get":
        k = ctx.rng.integers(0, len(a), 3)
        ctx.equal(op, np.asarray(x.get_indices(k)), [list(a[int(i)]) for i in k])
        ctx.equal(op, np.asarray(x.get_indices(int(k[0]))), list(a[int(k[0])]))
    elif op == "shift":
        m = ctx.randint(1, 3)
        ctx.equal("add", tup(x + m), [tuple(v + m for v in t) for t in a])
        ctx.equal("sub", tup(x - m), [tuple(v - m for v in t) for t in a])
        v = np.arange(d)
        ctx.equal("add-vector", tup(x + v), [tuple(p + q for p, q in zip(t, v)) for t in a])
        r = m + x
        ctx.check("radd", isinstance(r, MI), "m + multi-indices is %s" % type(r))
        ctx.equal("radd", tup(r), [tuple(v + m for v in t) for t in a])
        ctx.equal("rsub", tup(9 - x), [tuple(9 - v for v in t) for t in a])
    elif op == "compare":
        t = ctx.choice(a + b)
        z = mi([t])
        ctx.equal("eq-one", np.asarray(x == z), [s == t for s in a])
        ctx.equal("le-one", np.asarray(x <= z), [all(p <= q for p, q in zip(s, t)) for s in a])
        ctx.equal("operand", tup(z), [t])
        c = [b[int(i)] if ctx.coin() else s for i, s in
             zip(ctx.rng.integers(0, len(b), len(a)), a)]
        ctx.equal("eq", np.asarray(x == mi(c)), [s == t for s, t in zip(a, c)])
        ctx.equal("le", np.asarray(x <= mi(c)),
                  [all(p <= q for p, q in zip(s, t)) for s, t in zip(a, c)])
    else:
        cols = x.to_list()
        ctx.equal("to_list", [[int(v) for v in c] for c in cols],
                  [[t[k] for t in a] for k in range(d)])
        shape = [max(t[k] for t in a) + 1 + ctx.randint(0, 2) for k in range(d)]
        strides = np.concatenate(([1], np.cumprod(shape)[:-1]))
        ctx.equal("sub2ind", np.ravel(x.sub2ind(shape)), [int(np.dot(t, strides)) for t in a])
        ctx.equal("copy", tup(MI(x)), a)
    ctx.equal("operand", tup(x), a)
    ctx.equal("operand2", tup(y), b)


@P.scenario(400)
def order(ctx):
    op = ctx.choice(["norm", "weighted_norm", "sort_by_norm", "sort_by_weighted_norm",
                     "sort", "sort", "envelope"])
    d = ctx.randint(1, 4)
    a = random_set(ctx, d, nmin=3)
    x = mi(a)
    p = ctx.choice([0.5, 1, 2, 3, np.inf])
    w = [ctx.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(d)]
    mode = ctx.choice(["ascend", "descend"])
    ctx.case(op=op, a=str(a), p=str(p), w=w, mode=mode)
    ctx.op(op)
    if op.endswith("norm") and not op.startswith("sort"):
        ref = [lp(t, p, w if op.startswith("w") else None) for t in a]
        f = (lambda *k: x.norm(p, *k)) if op == "norm" else (lambda *k: x.weighted_norm(p, w, *k))
        ctx.close(op, f(), ref, 1e-12)
        k = ctx.rng.integers(0, len(a), 3)
        ctx.close(op + "-k", f(k), [ref[int(i)] for i in k], 1e-12)
        if op == "norm":
            ctx.close("norm-default", x.norm(), [lp(t, 2) for t in a], 1e-12)
    elif op.startswith("sort_by"):
        ww = w if "weighted" in op else None
        args = (p, w) if ww else (p,)
        got = getattr(x, op)(*args) if mode == "ascend" and ctx.coin() else \
            getattr(x, op)(*args, mode)
        is_set(ctx, op, got, a)
        v = np.array([lp(t, p, ww) for t in tup(got)])
        s = np.diff(v) if mode == "ascend" else -np.diff(v)
        ctx.check("sorted", np.all(s >= -1e-12), "%s norms %s" % (mode, v[:10]))
    elif op == "sort":
        cols = None if ctx.coin() else [int(v) for v in ctx.rng.permutation(d)]
        if cols is None:
            got = x.sort() if mode == "ascend" else x.sort(mode=mode)
            key = list(range(d - 1, -1, -1))
        else:
            got = x.sort(cols if ctx.coin() else np.array(cols), mode)
            key = cols
        ref = sorted(a, key=lambda t: [t[k] for k in key], reverse=mode == "descend")
        ctx.case(op=op, a=str(a), cols=cols, mode=mode)
        ctx.equal(op, tup(got), ref, mode)
    else:
        u = ctx.rng.standard_normal(len(a))
        if ctx.coin(0.3):
            u = ctx.rng.integers(-5, 6, len(a))
        got = x.envelope(u.copy() if ctx.coin() else [float(v) for v in u])
        ref = [max(abs(u[j]) for j, t in enumerate(a) if all(p >= q for p, q in zip(t, s)))
               for s in a]
        ctx.close(op, got, ref, 1e-14)
    ctx.equal("operand", tup(x), a)


@P.scenario(500)
def neighbourhoods(ctx):
    op = ctx.choice(["closed", "closed", "margin", "reduced", "maximal", "closed-m"])
    d = ctx.randint(1, 3)
    if op in ("reduced", "maximal"):
        a = random_set(ctx, d, closed=True, top=3)
    else:
        a = random_set(ctx, d, top=3)
        if op == "closed" and ctx.coin():
            a = random_set(ctx, d, closed=True, top=3)
            if ctx.coin() and len(a) > 1:
                a.pop()
    ctx.case(op=op, a=str(a))
    ctx.op(op)
    s = set(a)
    minus = lambda t, k: tuple(v - (j == k) for j, v in enumerate(t))  # noqa: E731
    plus = lambda t, k: tuple(v + (j == k) for j, v in enumerate(t))  # noqa: E731
    x = mi(a)
    margin = {plus(t, k) for t in s for k in range(d)} - s
    if op in ("closed", "closed-m"):
        m = 1 if op == "closed-m" else 0
        if m:
            s = {tuple(v + 1 for v in t) for t in s}
            x = mi(sorted(s))
        ref = all(minus(t, k) in s for t in s for k in range(d) if t[k] > m)
        got = x.is_downward_closed(m) if m else x.is_downward_closed()
        ctx.equal(op, bool(got), ref, str(sorted(s))[:200])
        return
    if op == "margin":
        is_set(ctx, op, x.get_margin(), sorted(margin))
    elif op == "reduced":
        ref = [t for t in margin if all(minus(t, k) in s for k in range(d) if t[k] > 0)]
        is_set(ctx, op, x.get_reduced_margin(), ref)
    else:
        ref = [t for t in s if not any(plus(t, k) in s for k in range(d))]
        is_set(ctx, op, x.get_maximal_indices(), ref)
    ctx.equal("operand", tup(x), a)


@P.scenario(400)
def encodings(ctx):
    op = ctx.choice(["digits", "digits", "digits-minimal", "converse", "intersect", "setdiff",
                     "chebyshev"])
    ctx.op(op)
    if op.startswith("digits"):
        b, d = ctx.randint(2, 7), ctx.randint(1, 8)
        n = ctx.randint(1, 6)
        top = b ** d
        i = np.unique(np.concatenate((ctx.rng.integers(0, top, n),
                                      [top - 1] if ctx.coin() else [0])))
        i = i[ctx.rng.permutation(i.size)]
        ctx.case(op=op, b=b, d=d, i=i.tolist())
        if op == "digits":
            got = np.asarray(tensap.integer2baseb(i if ctx.coin() else i.tolist(), b, d))
            ctx.equal("shape", list(got.shape), [i.size, d])
        else:
            if i.max() == 0:
                raise Skip("no digit needed")
            got = np.asarray(tensap.integer2baseb(i, b))
            nd = 1
            while b ** nd <= i.max():
                nd += 1
            ctx.check("enough-digits", got.shape[0] == i.size and nd <= got.shape[1] <= nd + 1,
                      "shape %s for %d digits" % (got.shape, nd))
        ctx.check("digits", np.all((got >= 0) & (got < b)))
        k = got.shape[1]
        ref = [[(int(v) // b ** (k - 1 - j)) % b for j in range(k)] for v in i]
        ctx.equal(op, got, ref)
        ctx.equal("inverse", np.ravel(tensap.baseb2integer(got, b)), i)
    elif op == "converse":
        b, d, n = ctx.randint(2, 7), ctx.randint(1, 8), ctx.randint(1, 6)
        dig = ctx.rng.integers(0, b, (n, d))
        ctx.case(op=op, b=b, dig=dig.tolist())
        if n == 1 and ctx.coin():
            got = tensap.baseb2integer(dig[0].tolist(), b)
        else:
            got = tensap.baseb2integer(dig.copy(), b)
        ref = [sum(int(v) * b ** (d - 1 - j) for j, v in enumerate(r)) for r in dig]
        ctx.equal(op, np.ravel(got), ref)
        ctx.equal("inverse", np.asarray(tensap.integer2baseb(np.array(ref), b, d)), dig)
    elif op == "chebyshev":
        n = ctx.randint(1, 20)
        a = float(ctx.rng.standard_normal() * 3)
        c = a + float(ctx.rng.random() * 4 + 0.1)
        ctx.case(op=op, n=n, a=a, c=c)
        x = np.ravel(tensap.chebyshev_points(n, [a, c]))
        ctx.equal("number", x.size, n)
        ref = (a + c) / 2 + (c - a) / 2 * np.cos((2 * np.arange(1, n + 1) - 1) * np.pi / 2 / n)
        ctx.close(op, np.sort(x), np.sort(ref), 1e-12, scale=abs(a) + abs(c))
    else:
        u = ctx.rng.permutation(12)[: ctx.randint(0, 8)]
        v = ctx.rng.permutation(12)[: ctx.randint(0, 8)]
        ctx.case(op=op, u=u.tolist(), v=v.tolist())
        if op == "intersect":
            got = tensap.fast_intersect(u.copy(), v.copy())
            ctx.equal(op, sorted(int(k) for k in got), sorted(set(u.tolist()) & set(v.tolist())))
        else:
            got = tensap.fast_setdiff(u.copy(), v.copy())
            ctx.equal(op, [int(k) for k in got], [k for k in u.tolist() if k not in v.tolist()])
