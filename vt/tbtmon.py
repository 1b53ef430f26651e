"""Representation invariants of a library TreeBasedTensor, observed at quiescent
points (after every public operation)."""
import numpy as np

import tensap
from vt import gen


def check_rep(ctx, t, what=""):
    """Public attributes are consistent with the cores and with each other, and
    an orthonormality claim is true."""
    ctx.check("rep:type", isinstance(t, tensap.TreeBasedTensor),
              "%s returned %s" % (what, type(t).__name__))
    tm = gen.model_of(t.tree)
    ctx.check("rep:order", int(t.order) == tm.d == len(t.shape),
              "%s: order %s, shape %s, %d leaves" % (what, t.order, t.shape, tm.d))
    ctx.check("rep:nb-cores", len(t.tensors) == tm.nb, what)
    for n in tm.children:
        c = t.tensors[n - 1]
        act = np.size(c.data) > 0 if c.data is not None else False
        ctx.check("rep:active", bool(t.is_active_node[n - 1]) == act, "%s node %d" % (what, n))
        if n in tm.leaf_dim:
            ctx.check("rep:active-dim", bool(t.is_active_dim(tm.leaf_dim[n])) == act, "%s node %d" % (what, n))
        if not act:
            ctx.check("rep:inactive-is-leaf", n in tm.leaf_dim, "%s node %d" % (what, n))
            ctx.check("rep:inactive-rank", t.ranks[n - 1] == 0, "%s node %d" % (what, n))
            continue
        sh = list(np.shape(c.data))
        ctx.check("rep:core-shape", sh == [int(v) for v in c.shape] and c.order == len(sh),
                  "%s node %d: core shape %s recorded as %s" % (what, n, sh, c.shape))
        if n in tm.leaf_dim:
            exp = [int(t.shape[tm.leaf_dim[n]])]
        else:
            exp = []
            for ch in tm.children[n]:
                chact = bool(t.is_active_node[ch - 1])
                exp.append(int(t.ranks[ch - 1]) if chact else int(t.shape[tm.leaf_dim[ch]]))
        if tm.nb == 1:
            # an order-one tensor: a vector, stored with or without a unit rank
            exp += [1] * (len(sh) - 1)
        elif n != tm.root or len(sh) == len(exp) + 1:
            exp.append(int(t.ranks[n - 1]))
        elif n == tm.root:
            ctx.check("rep:root-rank", int(t.ranks[n - 1]) == 1, what)
        ctx.check("rep:ranks", sh == exp, "%s node %d: core %s, expected %s" % (what, n, sh, exp))
    if t.is_orth:
        check_orth(ctx, t, int(t.orth_node), what)


def check_orth(ctx, t, center, what="", oracle="rep:orthonormal", tol=1e-8):
    """Every core other than the centre's has orthonormal columns in the
    matricisation that points towards the centre."""
    tm = gen.model_of(t.tree)
    anc = set()
    n = center
    while n in tm.parent:
        n = tm.parent[n]
        anc.add(n)
    for n in tm.children:
        if n == center or not t.is_active_node[n - 1]:
            continue
        c = np.asarray(t.tensors[n - 1].data)
        if n in anc:
            nxt = [ch for ch in tm.children[n] if ch == center or ch in anc][0]
            k = tm.children[n].index(nxt)
        else:
            k = c.ndim - 1
        m = gen.unfold(c, [k])
        g = m @ m.T
        ctx.close(oracle, g, np.eye(g.shape[0]), rtol=0, atol=tol)
