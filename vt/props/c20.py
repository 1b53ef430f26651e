"""Learning in canonical and tree-based tensor formats."""
import contextlib
import functools
import io

import numpy as np

import tensap
from vt import gen
from vt.core import Prop, Skip
from vt.props.c08 import dense
from vt.props.c19 import estimate, good, lsq
from vt.tbtmon import check_rep

P = Prop("C20", "Tensor learning decreases its risk and reports the errors of what it returns",
         "regression and density problems in dimension 2 to 4 over orthonormal and other polynomial bases, random "
         "trees, active nodes, ranks and numberings, canonical format, one or several outputs, noise, every "
         "initialisation, rank and tree adaptation, model selection, DMRG, greedy; bases given or only evaluations, "
         "solvers used again. Reference: predictions, risks and leave-one-out errors recomputed by einsum from the "
         "dense coefficients of the iterates, dense least squares where the format is linear. Non-trivial: more than "
         "one parameter.")


class Problem:
    """Data of a learning problem; the noise-free outputs belong to the format."""

    def __init__(self, ctx, d=None, nout=None, noise=None, factor=4, rank=2, degmax=3, orthonormal=None,
                 tm=None, active=None, canonical=False, dmax=4):
        rng = self.rng = ctx.rng
        self.ctx, self.canonical = ctx, canonical
        self.d = d = d or (tm.d if tm else ctx.randint(2, dmax))
        self.orthonormal = ctx.coin(0.75) if orthonormal is None else orthonormal
        bases, self.law = [], []
        for _ in range(d):
            kind = ctx.choice(["uniform", "uniform", "normal"])
            v = tensap.UniformRandomVariable(-1, 1) if kind == "uniform" else tensap.NormalRandomVariable()
            p = v.orthonormal_polynomials() if self.orthonormal else tensap.CanonicalPolynomials()
            deg = ctx.randint(1, degmax)
            bases.append(tensap.PolynomialFunctionalBasis(p, range(deg + 1)))
            self.law.append(kind[0] + str(deg))
        self.bases = tensap.FunctionalBases(bases)
        self.shape = [int(b.cardinal()) for b in bases]
        self.nout = 1 if canonical else ctx.choice([1, 1, 1, 2, 3]) if nout is None else nout
        self.dims = list(range(d))
        if canonical:
            r = self.rank = min(ctx.randint(1, rank), min(self.shape) if d == 2 else rank)
            T = tensap.CanonicalTensor([rng.standard_normal((n, r)) for n in self.shape], rng.standard_normal(r))
            self.truth = dense(T)
            self.npar = r * (1 + sum(self.shape))
            desc = {"shape": self.shape, "rank": r}
        else:
            self.tm = tm or gen.named_tree_model(ctx, d)
            self.active = active or gen.random_active(ctx, self.tm, 0.4)
            ranks = {n: ctx.randint(1, rank) if self.active[n] else 0 for n in self.tm.children}
            ranks[self.tm.root] = self.nout
            gen.make_admissible(self.tm, self.shape, ranks, self.active)
            ranks[self.tm.root] = self.nout
            self.ranks = np.array([ranks[n + 1] for n in range(self.tm.nb)])
            self.net = self.network(ranks)
            self.truth = self.net.dense
            self.npar = sum(c.size for c in self.net.cores.values())
            desc = self.net.describe()
        self.N = factor * self.npar + ctx.randint(5, 20)
        self.noise = ctx.choice([0, 0, 0.1, 1.0]) if noise is None else noise
        self.unit = None
        self.x, self.y = self.sample(self.N)
        self.B = self.evals(self.x)
        self.xt, self.yt = self.sample(ctx.randint(5, 30))
        self.Bt = self.evals(self.xt)
        ctx.case(bases=self.law, orthonormal=self.orthonormal, N=self.N, noise=self.noise, outputs=self.nout, **desc)
        if self.npar < 2:
            ctx.trivial()

    def network(self, ranks):
        cores = {n: self.rng.standard_normal(gen.core_shape(self.tm, self.shape, ranks, self.active, n))
                 for n in self.tm.children if self.active[n]}
        return gen.TBT(self.tm, self.shape, ranks, self.active, cores)

    def wide(self):
        """DMRG evaluates nodes on the whole grid of the samples in their inactive children."""
        k = max(sum(not self.active[c] for c in ch) + (n == self.tm.root) for n, ch in self.tm.children.items() if ch)
        return self.N ** k > 5e6

    def means(self, inits):
        """Initialisations that need the means of the basis functions."""
        return inits if self.orthonormal or self.mode == "evaluations" else []

    def points(self, n):
        return np.stack([self.rng.uniform(-1, 1, n) if k[0] == "u" else self.rng.standard_normal(n)
                         for k in self.law], axis=1)

    def evals(self, x):
        return [np.asarray(b) for b in self.bases.eval(x)]

    def sample(self, n):
        x = self.points(n)
        y = gen.eval_diag_product(self.truth, self.evals(x), self.dims)
        if self.unit is None:
            self.unit = np.sqrt(np.mean(y ** 2)) + 1e-12
        return x, y / self.unit + self.noise * self.rng.standard_normal(y.shape)

    def pred(self, f, B):
        return gen.eval_diag_product(dense(f.tensor), B, self.dims)

    def risk(self, f, B=None, y=None):
        p = self.pred(f, self.B if B is None else B)
        y = self.y if y is None else y
        return np.mean(np.sum(((p - y) ** 2).reshape(y.shape[0], -1), 1))

    def test_error(self, f):
        p = self.pred(f, self.Bt)
        return np.sqrt(np.sum((p - self.yt) ** 2) / np.sum(self.yt ** 2))

    def blur(self, f):
        """Accuracy of a test error, given the cancellations in the representation of f."""
        return 1e-7 + 1e-13 * network_scale(f, self, self.xt) / np.sqrt(np.mean(self.yt ** 2))

    def solver(self, loss=None):
        ctx = self.ctx
        loss = loss or tensap.SquareLossFunction()
        if self.canonical:
            s = tensap.CanonicalTensorLearning(self.d, loss)
        else:
            s = tensap.TreeBasedTensorLearning(
                self.tm.tree(), [self.active[n + 1] for n in range(self.tm.nb)], loss)
        s.display = ctx.coin(0.15)
        s.alternating_minimization_parameters["display"] = ctx.coin(0.15)
        mode = ctx.choice(["points", "points", "evaluations", "both"])
        ctx.case(given=mode)
        self.mode = mode
        self.feed(s)
        s.linear_model_learning.display = False
        return s

    def feed(self, s):
        s.bases_eval = s.bases = None
        y = self.y.copy()
        if self.mode != "evaluations":
            s.bases = self.bases
            s.training_data = [self.x.copy(), y]
        if self.mode != "points":
            s.bases_eval = [b.copy() for b in self.B]
            s.training_data = [None if self.ctx.coin() else self.x.copy(), y]

    def with_test(self, s):
        s.test_error = True
        s.test_data = [self.xt.copy(), self.yt.copy()]
        if self.mode != "points":
            s.bases_eval_test = [b.copy() for b in self.Bt]


def solve(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return s.solve()


@contextlib.contextmanager
def visits(s, log):
    """Record the parameters the solver updates, in order."""
    cls = type(s)
    name = "prepare_alternating_minimization_system"
    original = getattr(cls, name, None)
    if original is None:
        yield
        return

    @functools.wraps(original)
    def recorded(self, f, mu, *args, **kwargs):
        if self is s:
            log.append(int(mu))
        return original(self, f, mu, *args, **kwargs)

    own = name in vars(cls)
    setattr(cls, name, recorded)
    try:
        yield
    finally:
        if own:
            setattr(cls, name, original)
        else:
            delattr(cls, name)


def judge_sweeps(ctx, log, n, parameters):
    """Each sweep updates every parameter exactly once, whatever the order."""
    if log:
        ctx.equal("sweep:number-of-updates", len(log), n * len(parameters))
        for k in range(n):
            seen = sorted(log[k * len(parameters):(k + 1) * len(parameters)])
            ctx.check("sweep:every-parameter", seen == sorted(parameters), "sweep %d updates %s" % (k, seen))


@contextlib.contextmanager
def orders(log):
    """Record the random orders of exploration drawn by the solvers, with the parameters to explore."""
    name = "randomize_exploration_strategy"
    undo = []
    for cls in (tensap.TreeBasedTensorLearning, tensap.CanonicalTensorLearning):
        original = vars(cls).get(name)
        if original is None:
            continue

        def recorded(self, *args, _original=original, **kwargs):
            before = getattr(self, "_exploration_strategy", None)
            before = None if before is None else [int(v) for v in before]
            out = _original(self, *args, **kwargs)
            log.append((before, [int(v) for v in out]))
            return out

        setattr(cls, name, functools.wraps(original)(recorded))
        undo.append((cls, original))
    try:
        yield
    finally:
        for cls, original in undo:
            setattr(cls, name, original)


def judge_orders(ctx, log):
    for before, drawn in log:
        if before is not None:
            ctx.check("sweep:random-order", sorted(before) == sorted(drawn),
                      "parameters %s explored as %s" % (before, drawn))


STATE = ["tree", "is_active_node", "bases", "bases_eval", "bases_eval_test", "training_data", "test_data", "rank",
         "initial_guess", "initialization_type", "rank_adaptation", "model_selection", "test_error", "tolerance"]


def state(s):
    out = {}
    for k in STATE:
        v = getattr(s, k, None)
        if k == "tree" and v is not None:
            v = (np.array(v.adjacency_matrix), np.array(v.dim2ind))
        elif isinstance(v, tensap.TreeBasedTensor):
            v = [np.array(c.data) for c in v.tensors]
        elif isinstance(v, tensap.CanonicalTensor):
            v = [np.array(u) for u in v.space] + [np.array(v.core.data)]
        elif k == "bases":
            v = id(v)
        out[k] = gen.freeze(v)
    return out


def same_state(ctx, before, s):
    after = state(s)
    for k in before:
        ctx.check("solver:kept", before[k] == after[k], "solve changed %s" % k)


def judge_function(ctx, p, f, what="f"):
    """The returned object is a functional tensor over the bases it was asked for."""
    ctx.check("result:type", isinstance(f, tensap.FunctionalTensor), "%s is %s" % (what, type(f).__name__))
    if not p.canonical:
        check_rep(ctx, f.tensor, what)
        ctx.equal("result:outputs", f.tensor.ranks[f.tensor.tree.root - 1], p.nout)
    ctx.equal("result:shape", [int(n) for n in f.tensor.shape], p.shape)
    D = dense(f.tensor)
    ctx.check("result:finite", np.all(np.isfinite(D)), "coefficients are not finite")
    if p.mode != "evaluations":
        x = p.points(3)
        ref = gen.eval_diag_product(D, p.evals(x), p.dims)
        ctx.close("result:values", f.eval(x), ref, shape=False, rtol=1e-8, scale=network_scale(f, p, x))


def network_scale(f, p, x):
    B = [np.abs(b) for b in p.evals(x)]
    if p.canonical:
        c = np.abs(np.ravel(f.tensor.core.data))
        return np.max(np.prod([b @ np.abs(u) for b, u in zip(B, f.tensor.space)], 0) @ c)
    tm = gen.model_of(f.tensor.tree)
    act = {n: bool(f.tensor.is_active_node[n - 1]) for n in tm.children}
    m = gen.contract(tm, act, {n: np.abs(f.tensor.tensors[n - 1].data) for n in tm.children if act[n]})
    return np.max(gen.eval_diag_product(m, B, p.dims))


def same_function(ctx, oracle, p, f, g):
    a, b = dense(f.tensor), dense(g.tensor)
    ctx.close(oracle, a, b, rtol=1e-9, scale=np.max(np.abs(b)) + 1e-300)


def monotone(ctx, oracle, risks, ref, tol=1e-8):
    for k in range(1, len(risks)):
        ctx.check(oracle, risks[k] <= risks[k - 1] * (1 + tol) + tol * ref,
                  "training risk %.6g after %.6g (iterate %d)" % (risks[k], risks[k - 1], k))


def design(p, f, alpha):
    """Design matrix of the least-squares problem for one parameter of a tree-based tensor, the others fixed
    (rows: samples, then outputs)."""
    t = f.tensor
    tm = gen.model_of(t.tree)
    act = {n: bool(t.is_active_node[n - 1]) for n in tm.children}
    cores = {n: np.asarray(t.tensors[n - 1].data) for n in tm.children if act[n]}
    sh = cores[alpha].shape
    cols = []
    for k in range(int(np.prod(sh))):
        e = np.zeros(int(np.prod(sh)))
        e[k] = 1
        D = gen.contract(tm, act, {**cores, alpha: e.reshape(sh)})
        cols.append(gen.eval_diag_product(D, p.B, p.dims).ravel())
    return np.stack(cols, 1)


def optimal(ctx, oracle, p, f, alpha, gap=1e-7):
    """No other value of the parameter gives a lower training risk."""
    A = design(p, f, alpha)
    y = p.y.ravel()
    r = p.pred(f, p.B).ravel() - y
    d = np.linalg.norm(A, axis=0)
    A = A[:, d > 1e-12 * max(d.max(), 1e-300)]
    u, s, _ = np.linalg.svd(A / np.linalg.norm(A, axis=0), full_matrices=False)
    u = u[:, s > 1e-6 * s[0]]
    g = np.linalg.norm(u.T @ r)
    ctx.check(oracle, g <= gap * np.linalg.norm(y) + 1e-12,
              "residual is not orthogonal to the parameter's columns: %.3g (outputs %.3g)" % (g, np.linalg.norm(y)))


def leave_one_out(ctx, p, f, alpha, options):
    """Reported estimate of the last least-squares problem (node alpha), recomputed at f."""
    t = f.tensor.orth_at_node(alpha)
    A = design(p, tensap.FunctionalTensor(t, p.bases), alpha)
    y = p.y.ravel()
    m = int(t.ranks[t.tree.root - 1])
    if alpha == t.tree.root and m > 1:
        # one problem per output, with the same matrix: the errors are gathered
        A = A[::m, ::m] if np.array_equal(A[::m, ::m], A[1::m, 1::m]) else A[::m, :A.shape[1] // m]
        y = p.y.reshape(-1, m)
    if A.shape[0] <= A.shape[1] + 1 or not good(A):
        return None
    e = estimate(A, y, options.get("correction", True))
    return np.sqrt(np.sum(np.square(e) * np.sum(y ** 2, 0)) / np.sum(y ** 2))


def last_node(p, tm, active):
    """Last node visited by the default strategy: levels downwards, by node number."""
    return max((tm.level(n), n) for n in tm.children if active[n])[1]


def judge_reports(ctx, p, s, out, iterates, errors=True):
    n = len(iterates)
    if s.test_error:
        ctx.equal("report:test-errors", len(out["test_error_iterations"]), n)
        for k, g in enumerate(iterates):
            ctx.close("report:test-error", out["test_error_iterations"][k], p.test_error(g), rtol=1e-6,
                      atol=p.blur(g), shape=False)
    if errors and "error_iterations" in out and len(out["error_iterations"]):
        ctx.equal("report:errors", len(out["error_iterations"]), n)


def judge_selection(ctx, p, s, f, out, iterates):
    """The returned function is the selected iterate and its errors are reported."""
    k = len(iterates) - 1
    if s.model_selection:
        kind = s.model_selection_options["type"]
        crit = [p.test_error(g) for g in iterates] if kind == "test_error" else list(out["error_iterations"])
        k = int(out["selected_model_number"])
        ctx.check("selection:best", 0 <= k < len(crit) and crit[k] <= np.min(crit) * (1 + 1e-6)
                  + max(p.blur(g) for g in iterates),
                  "iterate %d selected among %s" % (k, crit))
    same_function(ctx, "selection:returned", p, f, iterates[k])
    if s.test_error:
        ctx.close("report:final-test-error", out["test_error"], p.test_error(f), rtol=1e-6, atol=p.blur(f), shape=False)
    if "error_iterations" in out and len(out["error_iterations"]):
        ctx.close("report:final-error", out["error"], out["error_iterations"][k], rtol=1e-12, shape=False)
    return k


@P.scenario(60)
def tree_fixed_rank(ctx):
    """Alternating minimisation at fixed ranks in tree-based format."""
    p = Problem(ctx)
    s = p.solver()
    am = s.alternating_minimization_parameters
    one = bool(np.all(p.ranks[[n - 1 for n in p.tm.children if p.active[n] and n != p.tm.root]] == 1))
    init = ctx.choice(["random", "random", "initial_guess", "lower_guess"] + p.means(["canonical"])
                      + (p.means(["mean", "mean_randomized"] * 2) if one else []))
    s.rank = p.ranks.copy()
    guess = None
    if init == "initial_guess":
        guess = p.network({n + 1: int(r) for n, r in enumerate(p.ranks)})
    elif init == "lower_guess":
        low = {n + 1: int(min(r, 1)) for n, r in enumerate(p.ranks)}
        if ctx.coin():  # some of the ranks only
            low = {n + 1: int(min(r, ctx.randint(1, r)) if r > 1 and ctx.coin() else r)
                   for n, r in enumerate(p.ranks)}
        low[p.tm.root] = p.nout
        guess = p.network(low)
    s.initialization_type = "initial_guess" if guess else init
    if guess:
        s.initial_guess = guess.build()
    am["max_iterations"] = ctx.choice([1, 2, 5, 30, 30])
    am["random"] = ctx.coin(0.25)
    am["stagnation"] = ctx.choice([1e-6, 1e-10])
    lm = s.linear_model_learning
    s.error_estimation = ctx.coin(0.4)
    lm.error_estimation = s.error_estimation
    lm.error_estimation_options = {"correction": ctx.coin()}
    if ctx.coin(0.5):
        p.with_test(s)
        if ctx.coin(0.3):
            s.tolerance["on_error"] = ctx.choice([1e-3, 0.05, 0.3, 1.0])
    if ctx.coin(0.4) and (s.test_error or s.error_estimation):
        s.model_selection = True
        s.model_selection_options["type"] = ctx.choice(
            (["test_error"] if s.test_error else []) + (["cv_error"] if s.error_estimation else []))
    ctx.case(init=init, random=am["random"], max_iterations=am["max_iterations"], error=s.error_estimation,
             test=s.test_error, selection=s.model_selection)
    before = state(s)
    log = []
    with visits(s, log):
        f, out = solve(s)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    ctx.equal("tree:same-tree", np.asarray(f.tensor.tree.adjacency_matrix), p.tm.adjacency())
    ctx.equal("tree:same-dims", np.asarray(f.tensor.tree.dim2ind), p.tm.dim2ind())
    ctx.equal("tree:ranks", f.tensor.ranks, p.ranks)
    its = out["iterates"]
    n = len(its)
    ctx.check("iterations:number", 1 <= n <= am["max_iterations"] and n == out["iter"] + 1, "%d iterates" % n)
    ref = np.mean(np.sum((p.y ** 2).reshape(p.N, -1), 1))
    risks = [p.risk(g) for g in its]
    monotone(ctx, "risk:monotone", risks, ref)
    if init == "initial_guess":
        g0 = tensap.FunctionalTensor(guess.build(), p.bases)
        monotone(ctx, "risk:below-initial-guess", [p.risk(g0), risks[0]], ref)
    D = [dense(g.tensor) for g in its]
    st = out["stagnation_criterion"]
    ctx.equal("stagnation:number", len(st), n)
    for k in range(1, n):
        ctx.close("stagnation:value", st[k], np.linalg.norm(D[k] - D[k - 1]) / np.linalg.norm(D[k - 1]),
                  rtol=1e-5, atol=1e-7)
    small = [k > 0 and v < am["stagnation"] for k, v in enumerate(st)]
    done = s.test_error and out["test_error_iterations"][-1] < s.tolerance["on_error"]
    ctx.check("stop:flag", (out["flag"] == 1) == bool(small[-1] or done), "flag %s" % out["flag"])
    ctx.check("stop:first", not any(small[:-1]), "stagnation reached before the last iterate")
    if s.test_error:
        ctx.check("stop:first-error", all(e >= s.tolerance["on_error"] for e in out["test_error_iterations"][:-1]),
                  "test error below the tolerance before the last iterate")
    ctx.check("stop:reason", out["flag"] == 1 or n == am["max_iterations"], "stopped early")
    judge_sweeps(ctx, log, n, [q for q in p.tm.children if p.active[q]])
    judge_reports(ctx, p, s, out, its)
    judge_selection(ctx, p, s, f, out, its)
    if not am["random"]:
        alpha = last_node(p, p.tm, p.active)
        for k in range(n):
            optimal(ctx, "risk:last-parameter", p, its[k], alpha)
        if s.error_estimation:
            for k in {0, n - 1}:
                e = leave_one_out(ctx, p, its[k], alpha, lm.error_estimation_options)
                if e is not None:
                    ctx.close("report:leave-one-out", out["error_iterations"][k], e, rtol=1e-4, atol=1e-7,
                              shape=False)


@P.scenario(40)
def linear_formats(ctx):
    """Formats that contain every function: the global least-squares solution is returned."""
    d = ctx.randint(2, 3)
    if ctx.coin(0.5):  # only the root is active
        tm = gen.model_of(tensap.DimensionTree.trivial(d))
        active = {n: n == tm.root for n in tm.children}
    else:
        tm = gen.named_tree_model(ctx, d)
        active = gen.random_active(ctx, tm, 0.5)
    p = Problem(ctx, tm=tm, active=active, rank=100, degmax=2 if d == 2 else 1, factor=3)
    s = p.solver()
    s.rank = p.ranks.copy()
    s.initialization_type = ctx.choice(["random"] + p.means(["canonical"]))
    s.linear_model_learning.error_estimation = ctx.coin()
    f, out = solve(s)
    judge_function(ctx, p, f)
    ctx.equal("tree:ranks", f.tensor.ranks, p.ranks)
    A = gen.eval_diag_product(np.eye(int(np.prod(p.shape))).reshape(p.shape + [-1], order="F"), p.B, p.dims)
    full = all(p.ranks[n - 1] == np.prod([p.shape[k] for k in p.tm.dims(n)]) or n == p.tm.root
               for n in p.tm.children if p.active[n])
    if not full or not good(A):
        ctx.trivial()
        return
    ref = lsq(A, p.y)
    sc = np.linalg.norm(p.y)
    ctx.close("linear:predictions", p.pred(f, p.B), A @ ref, rtol=1e-6, scale=np.max(np.abs(p.y)))
    if np.linalg.cond(A) < 1e4:
        ctx.close("linear:coefficients", dense(f.tensor).reshape(A.shape[1], -1, order="F"),
                  ref.reshape(A.shape[1], -1), rtol=1e-6, scale=sc / np.sqrt(p.N))


@P.scenario(30)
def recovery(ctx):
    """A function of the format is found from enough noise-free data, and kept when given."""
    canonical = ctx.coin(0.4)
    p = Problem(ctx, noise=0, factor=6, orthonormal=True, canonical=canonical, nout=None if not canonical else 1)
    s = p.solver()
    s.rank = p.rank if canonical else p.ranks.copy()
    am = s.alternating_minimization_parameters
    am["max_iterations"], am["stagnation"] = 200, 1e-14
    s.linear_model_learning.error_estimation = False
    # kept
    if not canonical:
        s.initialization_type, s.initial_guess = "initial_guess", p.net.build()
        s.initial_guess.tensors[p.tm.root - 1].data = s.initial_guess.tensors[p.tm.root - 1].data / p.unit
        f, _ = solve(s)
        judge_function(ctx, p, f)
        ctx.check("recovery:kept", p.risk(f) < 1e-12 * np.mean(p.y ** 2) * p.nout,
                  "risk %.3g from the function itself" % p.risk(f))
    best = np.inf
    starts = ["canonical", "random"] if not canonical else ["mean", "random"]
    for k in range(80):
        s.initialization_type = starts[min(k, 1)]
        f, _ = solve(s)
        judge_function(ctx, p, f)
        best = min(best, p.risk(f, p.Bt, p.yt))
        if best < 1e-6:
            break
    ctx.case(starts=k + 1)
    ctx.check("recovery:found", best < 1e-2, "relative test risk %.3g after %d starts" % (best, k + 1))


def judge_enrichment(ctx, p, t, nodes, theta):
    """Without correction, the ranks that are increased are those with the largest of the smallest singular values:
    all those above theta times the maximum, and more only if these alone are not admissible."""
    D = dense(t)
    tm, act, rank = p.tm, p.active, t.ranks
    low, norm = {}, np.linalg.norm(D)
    for a in tm.children:
        if a == tm.root or not act[a]:
            continue
        dims = tm.dims(a)
        sv = np.linalg.svd(np.moveaxis(D, dims, range(len(dims))).reshape(
            int(np.prod([p.shape[k] for k in dims])), -1), compute_uv=False)
        r = int(rank[a - 1])
        if r > len(sv):
            return
        low[a] = sv[r - 1]
    top = max((v for v in low.values()), default=0)
    if not top or min(low.values()) < 1e-8 * norm:
        return
    full = {}
    for a in sorted(tm.children, key=lambda n: -tm.level(n)):
        ch = tm.children[a]
        if ch:
            full[a] = all(full[c] for c in ch) and rank[a - 1] == np.prod([rank[c - 1] for c in ch])
        else:
            full[a] = not act[a] or rank[a - 1] == p.shape[tm.dims(a)[0]]
    cand = {a: v for a, v in low.items() if not full[a]}
    if not cand:
        ctx.equal("ranks:none-left", len(nodes), 0)
        return
    bound = theta * max(cand.values())
    if sum(abs(v - bound) < 1e-6 * bound for v in cand.values()) > (theta == 1):
        return
    want = {a for a, v in cand.items() if v >= bound * (1 - 1e-9)}
    up = np.zeros(tm.nb, dtype=int)
    up[[a - 1 for a in want]] = 1
    got = {int(a) for a in nodes}
    if t.is_admissible_rank(rank + up):
        ctx.check("ranks:largest", got == want, "enriched %s, expected %s: smallest singular values %s, theta %s, ranks %s" % (got, want, cand, theta, rank))
    else:
        # the next largest are added, one at a time, until the ranks are admissible
        rest = sorted((v for a, v in cand.items() if a not in want), reverse=True)
        if any(v * (1 + 1e-6) < u < 1.03 * v for u, v in zip(rest, rest[1:])):
            return
        for v in rest:
            more = want | {a for a, u in cand.items() if u >= v * (1 - 1e-6)}
            up[[a - 1 for a in more]] = 1
            if t.is_admissible_rank(rank + up):
                ctx.check("ranks:next-largest", got == more, "enriched %s, expected %s" % (got, more))
                return
        ctx.check("ranks:none-admissible", not got, "enriched %s, no admissible ranks expected" % got)


def judge_early(ctx, p, s, out, its):
    """Early stopping: no iterate kept before the last has an error above the factor times the best one before it
    (the last possible iterate and one below the tolerance are not tested)."""
    ra, n = s.rank_adaptation_options, len(its)
    if not ra["early_stopping"] or out["flag"] == -2:
        return
    last = n - (n == ra["max_iterations"] or out["flag"] == 1)
    for name, e in (("test errors", [p.test_error(g) for g in its] if s.test_error else []),
                    ("errors", list(out.get("error_iterations", [])))):
        for k in range(1, min(last, len(e))):
            ctx.check("early-stopping", e[k] <= ra["early_stopping_factor"] * np.min(e[:k]) * (1 + 1e-6) + 1e-7,
                      "%s %s" % (name, e))


def judge_stop(ctx, p, s, out, its):
    """Stopping rules of rank adaptation, without tree adaptation."""
    n, ra, tol = len(its), s.rank_adaptation_options, s.tolerance
    if out["flag"] == -2:
        return
    te = [p.test_error(g) for g in its] if s.test_error else None
    e = out.get("error_iterations")
    D = [dense(g.tensor) for g in its]
    if p.canonical:
        nr = [np.linalg.norm(x) for x in D]
        st = [np.inf] + [2 * abs(a - b) / (a + b) for a, b in zip(nr[1:], nr)]
    else:
        st = [np.inf] + [np.linalg.norm(a - b) / np.linalg.norm(b) for a, b in zip(D[1:], D)]

    def small(k, f):
        return te is not None and te[k] < tol["on_error"] * f or e is not None and e[k] < tol["on_error"] * f

    for k in range(n - 1):
        ctx.check("stop:error", not small(k, 0.99), "went on after errors %s %s" % (te, e))
        ctx.check("stop:stagnation", st[k] >= tol["on_stagnation"] * 0.99 - 1e-9, "went on after stagnation %s" % st)
    if n < ra["max_iterations"]:
        ctx.check("stop:reason", {1: small(n - 1, 1.01), 0: st[-1] <= tol["on_stagnation"] * 1.01 + 1e-9,
                                  -1: ra["early_stopping"]}[out["flag"]],
                  "stopped with flag %s, errors %s %s, stagnation %s" % (out["flag"], te, e, st))
    else:
        ctx.equal("stop:flag", out["flag"], 0)


@P.scenario(40)
def rank_adaptation(ctx):
    """Adaptation of the ranks, with or without adaptation of the tree."""
    p = Problem(ctx, factor=5, degmax=3)
    s = p.solver()
    am, ra = s.alternating_minimization_parameters, s.rank_adaptation_options
    s.rank_adaptation = True
    ra["max_iterations"] = ctx.choice([1, 2, 4, 5])
    ra["early_stopping"] = ctx.coin(0.4)
    ra["early_stopping_factor"] = ctx.choice([10, 1.0, 1.02, 1.1, 1.1])
    ra["rank_one_correction"] = ctx.coin(0.5)
    ra["theta"] = ctx.choice([0.8, 0.5, 1.0])
    am["max_iterations"] = ctx.choice([2, 5, 15])
    s.initialization_type = ctx.choice(["random"] + p.means(["canonical"]))
    s.tolerance["on_stagnation"] = ctx.choice([1e-6, 1e-2])
    s.tolerance["on_error"] = ctx.choice([1e-6, 1e-2])
    s.linear_model_learning.error_estimation = ctx.coin(0.6)
    if ctx.coin(0.6):
        p.with_test(s)
    err = s.linear_model_learning.error_estimation
    if ctx.coin(0.4):
        s.tree_adaptation = True
        s.tree_adaptation_options["max_iterations"] = 20
        s.tree_adaptation_options["tolerance"] = ctx.choice([1e-8, 1e-3, 0.5] + ([None] if err else []))
        s.tree_adaptation_options["force_rank_adaptation"] = ctx.coin()
    if ctx.coin(0.4) and (s.test_error or err):
        s.model_selection = True
        s.model_selection_options["type"] = ctx.choice(
            (["test_error"] if s.test_error else []) + (["cv_error"] if err else []))
    ctx.case(init=s.initialization_type, test=s.test_error, error=err, tree_adaptation=s.tree_adaptation,
             correction=ra["rank_one_correction"], early=ra["early_stopping"], max_iterations=ra["max_iterations"],
             selection=s.model_selection)
    before = state(s)
    am["random"] = ctx.coin(0.25)
    log = []
    with orders(log):
        f, out = solve(s)
    judge_orders(ctx, log)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    its = list(out["iterates"])
    n = len(its)
    ctx.check("iterations:number", 1 <= n <= ra["max_iterations"], "%d iterates" % n)
    for g in its:
        judge_function(ctx, p, g, "iterate")
    if not s.tree_adaptation:
        for g in its + [f]:
            ctx.equal("tree:same-tree", np.asarray(g.tensor.tree.adjacency_matrix), p.tm.adjacency())
        ctx.check("ranks:start", np.all(its[0].tensor.ranks[[k for k in range(p.tm.nb)
                  if k + 1 != p.tm.root]] <= 1), "first ranks %s" % its[0].tensor.ranks)
        for k in range(1, n):
            r0, r1 = its[k - 1].tensor.ranks, its[k].tensor.ranks
            up = np.zeros(len(r0), dtype=int)
            up[np.asarray(out["enriched_nodes_iterations"][k - 1], dtype=int) - 1] = 1
            ctx.check("ranks:enriched", np.all(r1 <= r0 + up), "%s, then %s; enriched %s" % (
                r0, r1, out["enriched_nodes_iterations"][k - 1]))
            if p.nout == 1 and its[k - 1].tensor.is_admissible_rank():
                ctx.check("ranks:admissible", its[k - 1].tensor.is_admissible_rank(r0 + up), "ranks %s" % (r0 + up))
            if p.nout == 1 and not ra["rank_one_correction"]:
                judge_enrichment(ctx, p, its[k - 1].tensor, out["enriched_nodes_iterations"][k - 1], ra["theta"])
        judge_stop(ctx, p, s, out, its)
        if err and out["flag"] != -2 and not am["random"]:
            alpha = last_node(p, p.tm, p.active)
            for k in {0, n - 1}:
                e = leave_one_out(ctx, p, its[k], alpha, s.linear_model_learning.error_estimation_options)
                if e is not None:
                    ctx.close("report:leave-one-out", out["error_iterations"][k], e, rtol=1e-4, atol=1e-7, shape=False)
    else:
        for g in its + [f]:
            ctx.equal("tree:dims", sorted(gen.model_of(g.tensor.tree).dims(g.tensor.tree.root)), p.dims)
    judge_reports(ctx, p, s, out, its)
    if s.test_error:
        ctx.close("report:final-test-error", out["test_error"], p.test_error(f), rtol=1e-6, atol=p.blur(f), shape=False)
    if not s.tree_adaptation:
        judge_early(ctx, p, s, out, its)
    judge_selection(ctx, p, s, f, out, its)
    ctx.check("stop:flag", out["flag"] in (-2, -1, 0, 1), "")


def merged(p, f, alpha):
    """Design matrix of the problem in the merged parameters of alpha and its parent, and the candidate supports of
    the parameter when each inactive leaf below them is restricted to its first functions."""
    t, tm = f.tensor, p.tm
    act = {n: bool(t.is_active_node[n - 1]) for n in tm.children}
    cores = {n: np.asarray(t.tensors[n - 1].data) for n in tm.children if act[n]}
    gamma = tm.parent[alpha]
    pos = list(tm.children[gamma]).index(alpha)
    a, g = cores[alpha].shape[:-1], list(cores[gamma].shape)
    g[pos] = 1
    cols = []
    for i in range(int(np.prod(a))):
        e = np.zeros(int(np.prod(a)))
        e[i] = 1
        for j in range(int(np.prod(g))):
            h = np.zeros(int(np.prod(g)))
            h[j] = 1
            D = gen.contract(tm, act, {**cores, alpha: e.reshape(a + (1,)), gamma: h.reshape(g)})
            cols.append(gen.eval_diag_product(D, p.B, p.dims).ravel())
    parts = []
    for n, sh in ((alpha, a), (gamma, g)):
        ch = tm.children[n]
        if not ch:
            parts.append([np.arange(sh[0]) < m + 1 for m in range(sh[0])])
        for i, c in enumerate(ch):
            parts.append([np.ones(sh[i], bool)] if act[c] or c == alpha
                         else [np.arange(sh[i]) < m + 1 for m in range(sh[i])])
    sup = [np.ones((), bool)]
    for part in parts:
        sup = [np.multiply.outer(u, v) for u in sup for v in part]
    return np.stack(cols, 1), [m.ravel() for m in sup]


@P.scenario(25)
def dmrg(ctx):
    """Inner rank adaptation: the ranks are found by truncation of merged parameters."""
    p = Problem(ctx, nout=1, factor=6, rank=3)
    s = p.solver()
    am, ra = s.alternating_minimization_parameters, s.rank_adaptation_options
    s.rank_adaptation = True
    ra["type"] = ctx.choice(["dmrg", "dmrg", "dmrg_low_rank"])
    if ctx.coin(0.7):
        ra["max_rank"] = ctx.randint(1, 4)
    cap = ra.get("max_rank", 100)
    ra["post_alternating_minimization"] = ctx.coin(0.3)
    s.initialization_type = ctx.choice(["random"] + p.means(["canonical"]))
    s.rank = ctx.randint(1, 2) if ctx.coin() else p.ranks.copy()
    s.tolerance["on_error"] = ctx.choice([1e-6, 1e-10])
    am["max_iterations"] = ctx.choice([1, 3, 6])
    s.linear_model_learning.error_estimation = ctx.coin(0.4)
    if ctx.coin(0.5):
        p.with_test(s)
    am["random"] = ctx.coin(0.25)
    lm = s.linear_model_learning
    corr = ctx.coin()
    lm.error_estimation_options = {"correction": corr}
    sparse = p.mode != "evaluations" and p.orthonormal and lm.error_estimation and ctx.coin(0.6)
    lm.basis_adaptation = sparse
    ctx.case(type=ra["type"], random=am["random"], sparse=sparse, max_rank=cap, post=ra["post_alternating_minimization"], init=s.initialization_type,
             iterations=am["max_iterations"])
    if not any(p.active[n] for n in p.tm.children if n != p.tm.root) or p.wide():
        ctx.trivial()
        return
    before = state(s)
    try:
        f, out = solve(s)
    except AttributeError as e:
        # the sparse local problem has no other solution than zero at the first step
        if sparse and "'NoneType' object has no attribute 'tensor'" in str(e):
            raise Skip("no first iterate")
        raise
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    its = list(out["iterates"])
    ctx.check("iterations:number", 1 <= len(its) <= am["max_iterations"], "%d iterates" % len(its))
    for g in its + [f]:
        judge_function(ctx, p, g, "iterate")
        ctx.equal("tree:same-tree", np.asarray(g.tensor.tree.adjacency_matrix), p.tm.adjacency())
        # (a sparse local problem without solution leaves the ranks of the edge as they were)
        top = max(cap, np.max(s.rank)) if sparse else cap
        ctx.check("ranks:max", np.max(g.tensor.ranks) <= top, "ranks %s, maximum %d" % (g.tensor.ranks, cap))
    ref = np.mean(p.y ** 2)
    best = ra["type"] == "dmrg" and out["flag"] != -2 and not ra["post_alternating_minimization"]
    if best and not am["random"]:
        alpha = max(n for n in p.tm.children if p.tm.level(n) == 1 and p.active[n])
        A, sup = merged(p, its[-1], alpha)
        if not sparse or p.tm.children[alpha] and all(p.active[c] for c in p.tm.children[alpha]):
            sup = [np.ones(A.shape[1], bool)]
        if len(sup) * A.size < 3e6 and all(p.N > m.sum() + 1 and good(A[:, m]) for m in sup):
            scores = [0.0] if not lm.error_estimation else [float(estimate(A[:, m], p.y, corr)) for m in sup]
            if lm.error_estimation:
                ctx.close("dmrg:leave-one-out", out["error"], min(scores), rtol=1e-4, atol=1e-7, shape=False)
            if cap >= 100:
                r = p.pred(its[-1], p.B) - p.y
                gs = []
                for m, e in zip(sup, scores):
                    if e <= min(scores) * (1 + 1e-6) + 1e-9:
                        u = np.linalg.svd(A[:, m], full_matrices=False)[0]
                        gs.append(np.linalg.norm(u.T @ r))
                ctx.check("dmrg:optimal", min(gs) <= (20 * s.tolerance["on_error"] + 1e-7) * np.linalg.norm(p.y),
                          "residual not orthogonal to the columns of the merged parameters: %s" % gs)
    if cap >= 100 and best and not sparse:
        monotone(ctx, "risk:monotone", [p.risk(g) for g in its], ref, tol=50 * s.tolerance["on_error"] ** 2 + 1e-8)
    judge_reports(ctx, p, s, out, its, errors=False)
    same_function(ctx, "selection:returned", p, f, its[-1])
    if s.test_error:
        ctx.close("report:final-test-error", out["test_error"], p.test_error(f), rtol=1e-6, atol=1e-7, shape=False)


def factor_design(p, f, mu):
    """Columns of the least-squares problem of one parameter (factor or weights) of a canonical tensor."""
    U = [np.asarray(u) for u in f.tensor.space]
    w = np.ravel(f.tensor.core.data)
    V = [b @ u for b, u in zip(p.B, U)]
    if mu == p.d:
        return np.prod(V, 0)
    rest = np.prod([v for k, v in enumerate(V) if k != mu], 0).reshape(p.N, -1)
    return np.concatenate([rest[:, [r]] * p.B[mu] for r in range(len(w))], 1)


@P.scenario(60)
def canonical_fixed_rank(ctx):
    p = Problem(ctx, canonical=True, rank=3, factor=5)
    s = p.solver()
    am = s.alternating_minimization_parameters
    s.rank = p.rank if ctx.coin(0.7) else ctx.randint(1, 3)
    if p.d == 2:  # beyond, the factors are not determined and the weights blow up
        s.rank = min(s.rank, min(p.shape))
    init = ctx.choice(["random", "random", "initial_guess"] + p.means(["mean", "mean_randomized", "greedy"])
                      + (["ones"] if s.rank == 1 else []))
    s.initialization_type = init
    guess = None
    if init == "initial_guess":
        guess = [ctx.rng.standard_normal((n, s.rank)) for n in p.shape], ctx.rng.standard_normal(s.rank)
        s.initial_guess = tensap.CanonicalTensor([u.copy() for u in guess[0]], guess[1].copy())
    am["max_iterations"] = ctx.choice([1, 2, 10, 30])
    am["stagnation"] = ctx.choice([1e-6, 1e-10])
    am["random"] = ctx.coin(0.25)
    if ctx.coin(0.2):
        am["one_by_one_factor"], am["inner_loops"] = True, ctx.randint(1, 2)
    one_by_one = am.get("one_by_one_factor", False) and s.rank > 1
    s.truncate_initialization = ctx.coin(0.8)
    lm = s.linear_model_learning
    s.error_estimation = lm.error_estimation = ctx.coin(0.4)
    lm.error_estimation_options = {"correction": ctx.coin()}
    if ctx.coin(0.5):
        p.with_test(s)
        if ctx.coin(0.3):
            s.tolerance["on_error"] = ctx.choice([1e-3, 0.05, 0.3, 1.0])
    if ctx.coin(0.4) and (s.test_error or s.error_estimation):
        s.model_selection = True
        s.model_selection_options["type"] = ctx.choice(
            (["test_error"] if s.test_error else []) + (["cv_error"] if s.error_estimation else []))
    ctx.case(init=init, asked=s.rank, random=am["random"], one_by_one=one_by_one, test=s.test_error,
             error=s.error_estimation, iterations=am["max_iterations"])
    before = state(s)
    log = []
    with visits(s, log):
        f, out = solve(s)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    its = out["iterates"]
    n = len(its)
    ctx.check("iterations:number", 1 <= n <= am["max_iterations"] and n == out["iter"] + 1, "%d iterates" % n)
    for g in its:
        r = np.size(g.tensor.core.data)
        ctx.check("canonical:rank", r == s.rank or p.d == 2 and r <= s.rank, "rank %d, asked %d" % (r, s.rank))
    ref = np.mean(p.y ** 2)
    well = True
    for g in its:
        A = factor_design(p, g, p.d)
        nrm = np.linalg.norm(A, axis=0)
        A = A / np.maximum(nrm, 1e-300)
        well = well and nrm.min() > 1e-6 * nrm.max() and np.linalg.svd(A, compute_uv=False)[-1] > 1e-4
    if well and out["flag"] != -2:
        monotone(ctx, "risk:monotone", [p.risk(g) for g in its], ref)
        for k in range(n):
            A = factor_design(p, its[k], p.d)
            c = np.ravel(its[k].tensor.core.data)
            ctx.close("risk:last-parameter", c, lsq(A, p.y), rtol=1e-6, scale=np.max(np.abs(c)))
            if s.error_estimation:
                ctx.close("report:leave-one-out", out["error_iterations"][k],
                          estimate(A, p.y, lm.error_estimation_options["correction"]), rtol=1e-4, atol=1e-7,
                          shape=False)
    if s.test_error:
        ctx.check("stop:first-error", all(e >= s.tolerance["on_error"] for e in out["test_error_iterations"][:-1]),
                  "test error below the tolerance before the last iterate")
        if out["test_error_iterations"][-1] < s.tolerance["on_error"]:
            ctx.equal("stop:flag", out["flag"], 1)
    if out["flag"] != -2 and not one_by_one:
        judge_sweeps(ctx, log, n, range(1, p.d + 2))
    judge_reports(ctx, p, s, out, its)
    judge_selection(ctx, p, s, f, out, its)
    nrm = [np.linalg.norm(dense(g.tensor)) for g in its]
    for k in range(1, n if well else 0):
        ctx.close("stagnation:value", out["stagnation_criterion"][k],
                  2 * abs(nrm[k] - nrm[k - 1]) / (nrm[k] + nrm[k - 1]), rtol=1e-5, atol=1e-7)


@P.scenario(80)
def canonical_adaptation(ctx):
    """The canonical rank grows by one at each step."""
    rough = ctx.coin()
    p = Problem(ctx, canonical=True, rank=3, factor=2 if rough else 8, orthonormal=True, noise=1.0 if rough else None)
    s = p.solver()
    am, ra = s.alternating_minimization_parameters, s.rank_adaptation_options
    s.rank_adaptation = True
    ra["max_iterations"] = ctx.randint(1, 6)
    ra["early_stopping"] = ctx.coin(0.6)
    ra["early_stopping_factor"] = ctx.choice([10, 1.0, 1.02, 1.1, 1.1])
    am["max_iterations"] = ctx.choice([3, 15])
    s.tolerance["on_error"] = ctx.choice([1e-6, 1e-2])
    err = s.linear_model_learning.error_estimation = ctx.coin(0.6)
    if ctx.coin(0.6):
        p.with_test(s)
    if ctx.coin(0.4) and (s.test_error or err):
        s.model_selection = True
        s.model_selection_options["type"] = ctx.choice(
            (["test_error"] if s.test_error else []) + (["cv_error"] if err else []))
    before = state(s)
    am["random"] = ctx.coin(0.25)
    log = []
    with orders(log):
        f, out = solve(s)
    judge_orders(ctx, log)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    its = list(out["iterates"])
    ctx.check("iterations:number", 1 <= len(its) <= ra["max_iterations"], "%d iterates" % len(its))
    for k, g in enumerate(its):
        r = np.size(g.tensor.core.data)
        ctx.check("canonical:rank", r == k + 1 or p.d == 2 and r <= k + 1, "rank %d at step %d" % (r, k))
    judge_reports(ctx, p, s, out, its)
    judge_selection(ctx, p, s, f, out, its)
    judge_stop(ctx, p, s, out, its)
    judge_early(ctx, p, s, out, its)


@P.scenario(70)
def greedy(ctx):
    """Greedy rank-one corrections with optimal weights."""
    rough = ctx.coin()
    p = Problem(ctx, canonical=True, rank=3, factor=2 if rough else 8, orthonormal=True, noise=1.0 if rough else None)
    s = p.solver()
    s.algorithm = "greedy"
    s.rank = ctx.randint(1, 6)
    s.tolerance["on_error"] = ctx.choice([1e-6, 1e-2, 0.2])
    s.tolerance["on_stagnation"] = ctx.choice([1e-6, 1e-2, 0.1])
    err = s.linear_model_learning.error_estimation = ctx.coin(0.6)
    corr = ctx.coin()
    s.linear_model_learning.error_estimation_options = {"correction": corr}
    if ctx.coin(0.5):
        p.with_test(s)
    before = state(s)
    f, out = solve(s)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    seq = [tensap.FunctionalTensor(t, p.bases) for t in out["sequence"] if t is not None]
    n = len(seq)
    ctx.check("greedy:number", 1 <= n <= s.rank, "%d terms" % n)
    ctx.equal("greedy:stagnation", len(np.ravel(out["stagnation"])), n)
    D = [np.zeros(p.shape)] + [dense(g.tensor) for g in seq]
    # from there on the terms are dependent and the weights arbitrary
    sound = next((k for k, g in enumerate(seq) if not good(factor_design(p, g, p.d))), n)
    for k, g in enumerate(seq):
        ctx.equal("canonical:rank", np.size(g.tensor.core.data), k + 1)
        a, b = D[k + 1], D[k]
        if k < sound:
            ctx.close("greedy:stagnation", np.ravel(out["stagnation"])[k],
                      2 * np.linalg.norm(a - b) / (np.linalg.norm(a) + np.linalg.norm(b)), rtol=1e-4, atol=1e-6, shape=False)
    e = list(np.ravel(out["errors"])) if err else [1.0] * n
    ends = [e[k] < s.tolerance["on_error"] or np.ravel(out["stagnation"])[k] < s.tolerance["on_stagnation"]
            or k > 1 and e[k] > e[k - 1] > e[k - 2] for k in range(n)]
    ctx.check("greedy:stop", not any(ends[:min(n - 1, sound)]) and (sound < n or ends[-1] or n == s.rank), "errors %s, stagnation %s, %d of %d" % (
        e, out["stagnation"], n, s.rank))
    risks = [p.risk(g) for g in seq]
    ref = np.mean(p.y ** 2)
    tiny = [k for k in range(n) if risks[k] < 1e-10 * ref]
    m = min(sound, tiny[0] + 1 if tiny else n)
    monotone(ctx, "risk:monotone", risks[:m], ref)
    for k in range(m):
        A = factor_design(p, seq[k], p.d)
        if good(A):
            c = np.ravel(seq[k].tensor.core.data)
            ctx.close("greedy:weights", c, lsq(A, p.y), rtol=1e-6, scale=np.max(np.abs(c)))
            if err:
                ctx.close("report:leave-one-out", out["errors"][k], estimate(A, p.y, corr), rtol=1e-4, atol=1e-7,
                          shape=False)
    sel = seq[-1]
    if err:
        ctx.equal("greedy:errors", np.size(out["errors"]), n)
        k = int(out["selected_iterate"])
        ctx.check("selection:best", out["errors"][k] == np.min(out["errors"]), "%s" % out["errors"])
        ctx.close("report:final-error", out["error"], out["errors"][k], rtol=1e-12, shape=False)
        sel = seq[k]
    if sound == n:
        same_function(ctx, "selection:returned", p, f, sel)
    if s.test_error and sound == n:
        ctx.close("report:final-test-error", out["test_error"], p.test_error(f), rtol=1e-6, atol=1e-7, shape=False)


@P.scenario(25)
def density(ctx):
    """L2 density estimation in tree-based format, fixed or adapted ranks."""
    p = Problem(ctx, nout=1, noise=0, orthonormal=True, factor=3)
    s = p.solver(tensap.DensityL2LossFunction())
    s.training_data = p.x.copy()
    s.bases = p.bases
    p.mode = "points"
    am = s.alternating_minimization_parameters
    s.initialization_type = "random"
    s.tolerance["on_error"] = -np.inf
    am["max_iterations"] = ctx.choice([1, 5, 20])
    am["random"] = ctx.coin(0.2)
    adapt = ctx.coin(0.4)
    s.linear_model_learning.error_estimation = ctx.coin(0.4)
    if ctx.coin():
        s.test_error = True
        s.test_data = p.xt.copy()
        if ctx.coin():
            s.bases_eval_test = [b.copy() for b in p.Bt]
    if adapt:
        s.rank_adaptation = True
        s.rank_adaptation_options["max_iterations"] = ctx.choice([3, 3, 5])
        if ctx.coin(0.4):       # the factor is below one as the risk is negative
            s.rank_adaptation_options["early_stopping"] = True
            s.rank_adaptation_options["early_stopping_factor"] = ctx.choice([0.1, 0.8, 0.99])
        if ctx.coin(0.4):
            s.tree_adaptation = True
            s.tree_adaptation_options["tolerance"] = 1e-6
            s.tree_adaptation_options["max_iterations"] = 20
    else:
        s.rank = p.ranks.copy()
    if ctx.coin(0.4) and s.test_error:
        s.model_selection = True
        s.model_selection_options["type"] = "test_error"
    ctx.case(adaptation=adapt, test=s.test_error, selection=s.model_selection, iterations=am["max_iterations"])
    before = state(s)
    f, out = solve(s)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)

    def risk(g, B):
        return np.sum(dense(g.tensor) ** 2) - 2 * np.mean(p.pred(g, B))

    its = list(out["iterates"])
    if not adapt:
        ctx.equal("tree:ranks", f.tensor.ranks, p.ranks)
        rk = [risk(g, p.B) for g in its]
        monotone(ctx, "risk:monotone", [r - min(rk) for r in rk], 1 + abs(min(rk)))
        if not am["random"]:
            # optimal in the last parameter: the derivative along it vanishes
            ctx.check("risk:last-parameter", abs(np.sum(dense(f.tensor) ** 2) - np.mean(p.pred(its[-1], p.B)))
                      <= 1e-7 * (1 + abs(rk[-1])) or s.model_selection, "")
    if s.test_error:
        for k, g in enumerate(its):
            ctx.close("report:test-error", out["test_error_iterations"][k], risk(g, p.Bt), rtol=1e-6, atol=1e-7,
                      shape=False)
        ctx.close("report:final-test-error", out["test_error"], risk(f, p.Bt), rtol=1e-6, atol=1e-7, shape=False)
    ra = s.rank_adaptation_options
    if adapt and ra["early_stopping"] and not s.tree_adaptation:
        n = len(its)
        for e in [[risk(g, p.Bt) for g in its] if s.test_error else [], list(out.get("error_iterations", []))]:
            for k in range(1, min(n - (n == ra["max_iterations"]), len(e))):
                ctx.check("early-stopping", e[k] <= ra["early_stopping_factor"] * np.min(e[:k]) + 1e-6, "errors %s" % e)
    elif adapt and not ra["early_stopping"]:
        ctx.check("early-stopping:not-asked", out["flag"] != -1, "flag %s" % out["flag"])
    k = int(out["selected_model_number"]) if s.model_selection else len(its) - 1
    same_function(ctx, "selection:returned", p, f, its[k])


@P.scenario(30)
def again(ctx):
    """A solver gives the same answer as a new one, whatever it solved before."""
    canonical = ctx.coin(0.4)
    p = Problem(ctx, canonical=canonical, orthonormal=True, noise=0.1)
    s, t = p.solver(), None
    copies = tensap.SquareLossFunction()
    if canonical:
        t = tensap.CanonicalTensorLearning(p.d, copies)
    else:
        t = tensap.TreeBasedTensorLearning(p.tm.tree(), [p.active[n + 1] for n in range(p.tm.nb)], copies)
    alone = canonical or not any(p.active[n] for n in p.tm.children if n != p.tm.root)
    kind = ctx.choice(["fixed", "fixed", "adaptation"] + ([] if alone or p.nout > 1 or p.wide() else ["dmrg"]))
    init = ctx.choice(["random"] + p.means(["mean" if canonical else "canonical"]))
    test = ctx.coin()
    ctx.case(canonical=canonical, kind=kind, init=init, test=test)
    opts = ctx.coin(), ctx.coin(0.3)
    for v in (s, t):
        v.display = False
        v.initialization_type = init
        v.alternating_minimization_parameters["max_iterations"] = 5
        v.alternating_minimization_parameters["display"] = False
        v.alternating_minimization_parameters["random"] = opts[1]
        v.linear_model_learning.error_estimation = opts[0]
        if kind == "fixed":
            v.rank = p.rank if canonical else p.ranks.copy()
        else:
            v.rank_adaptation = True
            v.rank_adaptation_options["max_iterations"] = 3
            if kind == "dmrg":
                v.rank_adaptation_options["type"] = "dmrg"
    if test:
        p.with_test(s)
    solve(s)
    # other data, of another size
    p.N = p.N + ctx.randint(0, 4)
    p.x, p.y = p.sample(p.N)
    p.B = p.evals(p.x)
    p.xt, p.yt = p.sample(p.xt.shape[0])
    p.Bt = p.evals(p.xt)
    if p.mode == "points":
        for v in (s, t):
            v.bases = p.bases
            v.training_data = [p.x.copy(), p.y.copy()]
    else:
        for v in (s, t):
            v.bases_eval = [b.copy() for b in p.B]
            v.training_data = [None, p.y.copy()]
            v.bases = s.bases
    if test:
        p.with_test(s)
        p.with_test(t)
    seed = ctx.randint(0, 2 ** 31 - 1)
    res = []
    for v in (s, t):
        np.random.seed(seed)
        res.append(solve(v))
    (f, fo), (g, go) = res
    same_function(ctx, "again:function", p, f, g)
    for key in ["error", "test_error"]:
        ctx.equal("again:reports", key in fo, key in go)
        if key in fo:
            ctx.close("again:" + key, fo[key], go[key], rtol=1e-9, atol=1e-12, shape=False)


@P.scenario(30)
def sparse_parameters(ctx):
    """Basis adaptation and regularisation in the local problems: reports stay those of the returned function."""
    canonical = ctx.coin(0.4)
    p = Problem(ctx, canonical=canonical, orthonormal=True, nout=1, degmax=4, dmax=3, rank=2)
    s = p.solver()
    p.mode = "points"
    s.bases = p.bases
    s.bases_eval = None
    s.training_data = [p.x.copy(), p.y.copy()]
    lm = s.linear_model_learning
    kind = ctx.choice(["adaptation", "adaptation", "regularization"])
    if kind == "adaptation":
        lm.basis_adaptation = True
        lm.error_estimation = True
    else:
        lm.regularization = True
        lm.regularization_type = ctx.choice(["l1", "l2"])
    am = s.alternating_minimization_parameters
    am["max_iterations"] = ctx.choice([2, 6])
    p.with_test(s)
    adapt = ctx.coin(0.4)
    if adapt:
        s.rank_adaptation = True
        s.rank_adaptation_options["max_iterations"] = 3
    else:
        s.rank = p.rank if canonical else p.ranks.copy()
    s.initialization_type = "mean" if canonical else ctx.choice(["random", "canonical"])
    ctx.case(kind=kind, reg=lm.regularization_type, canonical=canonical, adapt=adapt)
    before = state(s)
    f, out = solve(s)
    same_state(ctx, before, s)
    judge_function(ctx, p, f)
    its = list(out["iterates"])
    if not adapt and not canonical:
        # sparse parameters may lose columns
        ctx.check("tree:ranks", np.all(np.asarray(f.tensor.ranks) <= p.ranks), "ranks %s, asked %s" % (
            f.tensor.ranks, p.ranks))
    judge_reports(ctx, p, s, out, its)
    judge_selection(ctx, p, s, f, out, its)


@P.scenario(25)
def stationary(ctx):
    """Where alternating minimisation stagnates, no parameter alone can lower the risk: each one was updated."""
    canonical = ctx.coin(0.4)
    p = Problem(ctx, canonical=canonical, orthonormal=True, noise=ctx.choice([0.1, 1.0]), factor=5, degmax=2)
    s = p.solver()
    am = s.alternating_minimization_parameters
    am["max_iterations"], am["stagnation"] = 150, 1e-12
    am["random"] = ctx.coin(0.3)
    if canonical and ctx.coin(0.6):
        am["one_by_one_factor"], am["inner_loops"] = True, ctx.randint(1, 3)
        am["max_iterations"] = 400
    s.rank = p.rank if canonical else p.ranks.copy()
    s.initialization_type = ctx.choice(["random"] + ([] if canonical else p.means(["canonical"])))
    s.linear_model_learning.error_estimation = False
    ctx.case(canonical=canonical, random=am["random"], one_by_one=am.get("one_by_one_factor"))
    f, out = solve(s)
    judge_function(ctx, p, f)
    its = out["iterates"]
    a, b = [p.pred(g, p.B) for g in its[-2:]]
    move = np.linalg.norm(a - b) / np.linalg.norm(p.y)
    if move > 1e-9:
        ctx.trivial()
        return
    if canonical:
        for mu in range(p.d + 1):
            A = factor_design(p, f, mu)
            A = A / np.maximum(np.linalg.norm(A, axis=0), 1e-300)
            u, sv, _ = np.linalg.svd(A, full_matrices=False)
            g = np.linalg.norm(u[:, sv > 1e-3 * sv[0]].T @ (p.pred(f, p.B) - p.y))
            ctx.check("risk:stationary", g <= 1e-3 * np.linalg.norm(p.y), "parameter %d: projected residual %.3g, last "
                      "move %.3g" % (mu, g / np.linalg.norm(p.y), move))
    else:
        for alpha in p.tm.children:
            if p.active[alpha]:
                optimal(ctx, "risk:stationary", p, f, alpha, gap=1e-5)


@P.scenario(25)
def sparse_leaf(ctx):
    """Basis adaptation of the last parameter, a leaf (or the nodes above inactive leaves): its support is an element
    of the path, it is optimal on it, and it has the lowest leave-one-out error, which is reported."""
    d = ctx.randint(2, 3)
    tm = gen.model_of(tensap.DimensionTree.trivial(d))
    if ctx.coin(0.7):
        active = {n: n == tm.root or ctx.coin(0.7) for n in tm.children}
    else:
        active = {n: n == tm.root for n in tm.children}
    p = Problem(ctx, tm=tm, active=active, orthonormal=True, nout=1, degmax=4 if d == 2 else 3, rank=2, factor=3)
    s = p.solver()
    p.mode = "points"
    s.bases, s.bases_eval = p.bases, None
    s.training_data = [p.x.copy(), p.y.copy()]
    lm = s.linear_model_learning
    lm.basis_adaptation = lm.error_estimation = True
    corr = ctx.coin()
    lm.error_estimation_options = {"correction": corr}
    s.alternating_minimization_parameters["max_iterations"] = ctx.randint(1, 3)
    s.initialization_type = "random"
    s.rank = p.ranks.copy()
    own = ctx.coin(0.3)
    cuts = [sorted(set([n] + [ctx.randint(1, n) for _ in range(2)])) for n in p.shape]
    if own:  # candidate supports chosen by the user
        s.bases_adaptation_path = [np.array([[i < c for c in cs] for i in range(n)]) for n, cs in zip(p.shape, cuts)]
    else:
        cuts = [list(range(1, n + 1)) for n in p.shape]
    ctx.case(active=[bool(active[n]) for n in tm.children], own=own, correction=corr)
    f, out = solve(s)
    judge_function(ctx, p, f)
    t = f.tensor
    alpha = last_node(p, tm, active)
    core = np.asarray(t.tensors[alpha - 1].data)
    if any(active[c] for c in tm.children[alpha]) and all(active[c] for c in tm.children[alpha]):
        ctx.trivial()
        return
    A = design(p, f, alpha)
    # candidate supports
    if not tm.children[alpha]:
        k = tm.dims(alpha)[0]
        sup = [np.broadcast_to((np.arange(core.shape[0]) < c)[:, None], core.shape) for c in cuts[k]]
    else:
        parts = [[np.ones(core.shape[i], bool)] if active[c]
                 else [np.arange(core.shape[i]) < m for m in cuts[tm.dims(c)[0]]]
                 for i, c in enumerate(tm.children[alpha])]
        sup = [np.ones((), bool)]
        for part in parts:
            sup = [np.multiply.outer(a, b) for a in sup for b in part]
        sup = [a.reshape(core.shape) for a in sup]
    scores = []
    for m in sup:
        M = m.ravel()
        if p.N <= M.sum() + 1 or not good(A[:, M]):
            ctx.trivial()
            return
        scores.append(float(estimate(A[:, M], p.y, corr)))
    nz = core != 0
    best = [m for m, e in zip(sup, scores) if e <= min(scores) * (1 + 1e-6) + 1e-9]
    ctx.check("adaptation:support", any(not np.any(nz & ~m) for m in best), "support %s, candidates' errors %s" % (
        nz.astype(int).tolist(), scores))
    ctx.close("report:leave-one-out", out["error"], min(scores), rtol=1e-4, atol=1e-7, shape=False)
    for m in best:
        if not np.any(nz & ~m):
            M = m.ravel()
            ref = np.zeros(M.size)
            ref[M] = lsq(A[:, M], p.y)
            ctx.close("adaptation:optimal", A @ core.ravel(), A @ ref, rtol=1e-6, scale=np.max(np.abs(p.y)))
            break


@P.scenario(15)
def tensor_trains(ctx):
    """Solvers in tensor-train and tensor-train Tucker formats."""
    d = ctx.randint(2, 4)
    tucker = ctx.coin()
    make = tensap.TreeBasedTensorLearning.tensor_train_tucker if tucker else tensap.TreeBasedTensorLearning.tensor_train
    loss = tensap.SquareLossFunction()
    s = make(d, loss)
    lin = tensap.DimensionTree.linear(d)
    ctx.equal("format:tree", np.asarray(s.tree.adjacency_matrix), np.asarray(lin.adjacency_matrix))
    ctx.equal("format:dims", np.asarray(s.tree.dim2ind), np.asarray(lin.dim2ind))
    tm = gen.model_of(s.tree)
    deepest = max(range(d), key=lambda k: (tm.level(int(s.tree.dim2ind[k])), -k))
    want = [tucker or bool(tm.children[n]) or tm.dims(n) == [deepest] or tm.dims(n) == (deepest,)
            for n in range(1, tm.nb + 1)]
    ctx.equal("format:active", [bool(a) for a in s.is_active_node], want)
    ctx.check("format:loss", s.loss_function is loss, "another loss function")
    p = Problem(ctx, tm=tm, active={n: bool(s.is_active_node[n - 1]) for n in tm.children}, orthonormal=True)
    p.mode = "points"
    s.display = False
    s.bases, s.training_data = p.bases, [p.x.copy(), p.y.copy()]
    s.rank = p.ranks.copy()
    s.initialization_type = "random"
    s.alternating_minimization_parameters["max_iterations"] = 5
    f, out = solve(s)
    judge_function(ctx, p, f)
    ctx.equal("tree:ranks", f.tensor.ranks, p.ranks)
    monotone(ctx, "risk:monotone", [p.risk(g) for g in out["iterates"]], np.mean(p.y ** 2) * p.nout)


@P.scenario(25)
def corrections(ctx):
    """Canonical initialisation and corrections of a tensor lower the risk and leave the solver and the tensor."""
    p = Problem(ctx, orthonormal=True, nout=1, factor=5)
    s = p.solver()
    s.display = False
    s.bases_eval = [b.copy() for b in p.B]
    s.training_data = [p.x.copy(), p.y.copy()]
    s.linear_model_learning.error_estimation = ctx.coin()
    p.mode = "evaluations"
    t = p.network({n + 1: int(r) for n, r in enumerate(p.ranks)}).build()
    f = tensap.FunctionalTensor(t, s.bases_eval)
    kind = ctx.choice(["rank_one", "canonical", "initial"])
    r = ctx.randint(1, 3)
    ctx.case(kind=kind, r=r)
    before, D = state(s), dense(t)
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "rank_one":
            g = s.rank_one_correction(f)
        elif kind == "canonical":
            g = s.canonical_correction(f, r)
        else:
            g = s.canonical_initialization(r)
    same_state(ctx, before, s)
    ctx.close("correction:kept", dense(t), D, rtol=1e-12, scale=np.max(np.abs(D)))
    check_rep(ctx, g, "corrected tensor")
    ctx.equal("tree:same-tree", np.asarray(g.tree.adjacency_matrix), p.tm.adjacency())
    ctx.equal("correction:active", [bool(a) for a in g.is_active_node], [bool(p.active[n + 1]) for n in range(p.tm.nb)])
    base = 0 if kind == "initial" else D
    add = gen.eval_diag_product(dense(g) - base, p.B, p.dims)
    res = p.y - (0 if kind == "initial" else gen.eval_diag_product(D, p.B, p.dims))
    sc = np.linalg.norm(res) + 1e-9 * np.linalg.norm(gen.eval_diag_product(D, p.B, p.dims))
    ctx.check("correction:lower", np.linalg.norm(res - add) <= sc * (1 + 1e-7), "residual %.4g, then %.4g" % (
        np.linalg.norm(res), np.linalg.norm(res - add)))
    # the correction is optimal along itself
    ctx.check("correction:scaled", abs(add @ (res - add)) <= 1e-6 * sc * max(sc, np.linalg.norm(add)),
              "the correction is not optimally scaled")
    k = 1 if kind == "rank_one" else r
    for a in p.tm.children:
        if a == p.tm.root or not p.active[a]:
            continue
        old = 0 if kind == "initial" else int(t.ranks[a - 1])
        ctx.check("correction:rank", g.ranks[a - 1] <= old + k, "ranks %s of %s, correction %d" % (g.ranks, t.ranks, k))


@P.scenario(20)
def own_solvers(ctx):
    """One linear solver for each parameter: each keeps its own options; a wrong number of them is refused."""
    canonical = ctx.coin(0.4)
    p = Problem(ctx, canonical=canonical, orthonormal=True, noise=0.1)
    s = p.solver()
    lm = s.linear_model_learning
    n = p.d + 1 if canonical else sum(p.active[k] for k in p.tm.children)
    s.rank = p.rank if canonical else p.ranks.copy()
    s.initialization_type = "random"
    s.alternating_minimization_parameters["max_iterations"] = 3
    if ctx.coin(0.3):
        from copy import deepcopy
        s.linear_model_learning = [deepcopy(lm) for _ in range(n + ctx.choice([-1, 1, 2]))]
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.raises("solvers:number", s.solve)
        return
    from copy import deepcopy
    lms = [deepcopy(lm) for _ in range(n)]
    # the last visited parameter alone estimates its error
    last = n - 1 if canonical else [k for k in sorted(p.tm.children) if p.active[k]].index(
        last_node(p, p.tm, p.active))
    which = ctx.choice([last, last, None])
    for k, x in enumerate(lms):
        x.error_estimation = k == which
    s.linear_model_learning = lms
    f, out = solve(s)
    judge_function(ctx, p, f)
    ctx.check("solvers:kept", s.linear_model_learning is lms and [x.error_estimation for x in lms]
              == [k == which for k in range(n)], "the list of solvers changed")
    ctx.check("solvers:options", ("error" in out) == (which is not None), "errors reported: %s" % out.get("error"))
    its = out["iterates"]
    if not canonical:
        monotone(ctx, "risk:monotone", [p.risk(g) for g in its], np.mean(p.y ** 2) * p.nout)
        optimal(ctx, "risk:last-parameter", p, f, last_node(p, p.tm, p.active))


@P.scenario(200)
def enrichment(ctx):
    """Selection of the ranks to increase in a given tensor."""
    d = ctx.randint(2, 6)
    tm = gen.named_tree_model(ctx, d)
    active = gen.random_active(ctx, tm, ctx.choice([0.0, 0.3]))
    shape = [ctx.randint(2, 4) for _ in range(d)] if ctx.coin(0.4) else [4] * d
    top = ctx.choice([2, 3, 4, 4, 4, 8])
    ranks = {n: ctx.randint(1, top) if active[n] else 0 for n in tm.children}
    ranks[tm.root] = 1
    gen.make_admissible(tm, shape, ranks, active)
    p = Problem.__new__(Problem)
    p.rng, p.tm, p.active, p.shape, p.d, p.dims = ctx.rng, tm, active, shape, d, list(range(d))
    net = p.network(ranks)
    t = net.build()
    s = tensap.TreeBasedTensorLearning(tm.tree(), [active[n + 1] for n in range(tm.nb)], tensap.SquareLossFunction())
    s.rank_adaptation_options["rank_one_correction"] = False
    theta = s.rank_adaptation_options["theta"] = ctx.choice([0.2, 0.5, 0.8, 0.95, 0.99, 1.0])
    ctx.case(theta=theta, **net.describe())
    f = tensap.FunctionalTensor(t, [np.eye(n) for n in shape])
    new, nodes, _ = s.new_rank_selection(f)
    up = np.zeros(tm.nb, dtype=int)
    nodes = np.asarray(nodes, dtype=int)
    up[nodes - 1] = 1
    ctx.equal("ranks:new", np.asarray(new), np.asarray(t.ranks) + up)
    ctx.close("correction:kept", dense(t), net.dense, rtol=1e-12, scale=np.max(np.abs(net.dense)))
    if t.is_admissible_rank():
        ctx.check("ranks:admissible", t.is_admissible_rank(new), "ranks %s" % new)
        judge_enrichment(ctx, p, t, nodes, theta)
