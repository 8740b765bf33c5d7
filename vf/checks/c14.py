"""C14  Grid value-function solvers."""
import contextlib
import io
import itertools

import numpy as np

from vf.core import Skip, to_np

INF = 1e20


# ---- min-plus oracle --------------------------------------------------------
def refine(col, tol=0.0):
    """All values the interpolated minimum of a column may take: the refinement
    at any index attaining the discrete minimum (up to tol)."""
    n = len(col)
    out = []
    for j in np.flatnonzero(col <= col.min() + tol):
        l = col[1] if j == 0 else col[j - 1]
        r = col[n - 2] if j == n - 1 else col[j + 1]
        den = l + r - 2.0 * col[j]
        if den > 0 and max(l, r) < INF / 2:
            out.append(col[j] - (r - l) ** 2 / den / 8.0)
        else:
            out.append(col[j])
    return out


def minplus(A, B):
    return np.array([[min(A[i, j] + B[j, k] for j in range(A.shape[1])) for k in range(B.shape[1])] for i in range(A.shape[0])])


def minplus_interp(A, B):
    """First minimiser (exact float ties only)."""
    R = np.empty((A.shape[0], B.shape[1]))
    for i in range(A.shape[0]):
        for k in range(B.shape[1]):
            R[i, k] = refine(A[i, :] + B[:, k])[0]
    return R


def close_any(ctx, label, got, A, B, rtol=1e-12):
    """got[i,k] is the refinement at some minimising index."""
    got = to_np(got)
    if not ctx.true(label + ":shape", got.shape == (A.shape[0], B.shape[1]), "shape %s" % (got.shape,)):
        return
    worst, where = 0.0, None
    for i in range(A.shape[0]):
        for k in range(B.shape[1]):
            col = A[i, :] + B[:, k]
            fin = col[col < INF / 2]
            sc = max(1.0, np.abs(fin).max() if fin.size else col.min())
            d = min(abs(got[i, k] - w) for w in refine(col, 1e-14 * sc)) / (rtol * sc)
            if not d <= worst:
                worst, where = d, (i, k, got[i, k], list(col))
    ctx.true(label, worst <= 1.0, "deviation %.3g tolerances at %s" % (worst, where))


def rand_V(rng, s, kind):
    if kind == "int":
        return rng.integers(-3, 4, size=s).astype(float)
    V = rng.standard_normal(s) * float(rng.choice([0.1, 1.0, 30.0]))
    if kind == "holes":
        V[rng.uniform(size=s) < 0.4] = INF
    if kind == "intholes":
        V = rng.integers(0, 3, size=s).astype(float)
        V[rng.uniform(size=s) < 0.4] = INF
    if kind == "convex":
        x = np.linspace(-1, 1, s[0])
        y = np.linspace(-1, 1, s[1])
        V = 0.5 * rng.uniform(0, 2) * x[:, None] ** 2 + rng.uniform(0.3, 4) * (y[None, :] - rng.uniform(0.5, 1.2) * x[:, None] - rng.uniform(-.3, .3)) ** 2
    return V


KINDS = ["real", "int", "holes", "intholes", "convex"]


def g_combine(ctx):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht

    def body(rng, i):
        kind = KINDS[i % 5]
        n = [2, 3, 4, 6, 9, 14][(i // 5) % 6]
        A, B = rand_V(rng, (n, n), kind), rand_V(rng, (n, n), kind)
        ctx.note(kind=kind, n=n, digest=[A, B])
        want = minplus(A, B)
        ctx.close("min-plus", ctx.call("combine_V", hn.combine_V, A, B), want, 0, 0)
        ctx.close("min-plus argmin", ctx.call("combine_V2", hn.combine_V2, A, B), want, 0, 0)
        close_any(ctx, "interp", ctx.call("combine_V_interp", hn.combine_V_interp, A, B), A, B)
        if n <= 6 and (i // 30) % 3 == 0:
            close_any(ctx, "interp loop", ctx.call("combine_V_interp2", hn.combine_V_interp2, A, B), A, B)
        bt = int(rng.integers(1, 5))
        As, Bs = [A] + [rand_V(rng, (n, n), kind) for _ in range(bt - 1)], [B] + [rand_V(rng, (n, n), kind) for _ in range(bt - 1)]
        ta, tb = tf.constant(np.array(As)), tf.constant(np.array(Bs))
        wants = np.array([minplus(a, b) for a, b in zip(As, Bs)])
        ctx.close("tensor min-plus", ctx.call("tf combine_V", ht.combine_V, ta, tb), wants, 0, 0)
        ctx.close("tensor min-plus argmin", ctx.call("tf combine_V2", ht.combine_V2, ta, tb), wants, 0, 0)
        ctx.close("tensor min-plus reversed", ctx.call("tf combine_V_rev", ht.combine_V_rev, tb, ta), wants, 0, 0)
        g1 = to_np(ctx.call("tf combine_V_interp", ht.combine_V_interp, ta, tb))
        g2 = to_np(ctx.call("tf combine_V_interp_rev", ht.combine_V_interp_rev, tb, ta))
        for q, (a, b) in enumerate(zip(As, Bs)):
            close_any(ctx, "tensor interp", g1[q], a, b)
            close_any(ctx, "tensor interp reversed", g2[q], a, b)
        # rectangular products (start, middle and end grids of different sizes)
        r, s, t = (int(z) for z in rng.integers(1, 7, size=3))
        A, B = rand_V(rng, (r, s), "holes"), rand_V(rng, (s, t), "holes")
        want = minplus(A, B)
        ctx.close("min-plus rectangular", ctx.call("combine_V", hn.combine_V, A, B), want, 0, 0)
        ctx.close("tensor min-plus rectangular", ctx.call("tf combine_V", ht.combine_V, A[None], B[None]), want[None], 0, 0)
        ctx.feature("kind " + kind)
    ctx.cases(180, 1800, body)


# ---- block passes ----------------------------------------------------------
def brackets(bV, VT, blocks):
    """Q[m]: every value of (block^m)(terminal) over all bracketings."""
    P = {1: [bV]}
    for m in range(2, blocks + 1):
        P[m] = [minplus_interp(a, b) for k in range(1, m) for a in P[k] for b in P[m - k]]
    Q = {0: [VT]}
    for m in range(1, blocks + 1):
        Q[m] = [minplus_interp(a, b) for k in range(1, m + 1) for a in P[k] for b in Q[m - k]]
    return Q


def make_block(rng, n, kind):
    xg = np.linspace(*(sorted(rng.uniform(-3, 3, size=2)) + np.array([0, .5])), n)
    if kind == "generic":
        bV = rng.standard_normal((n, n))
    elif kind == "holes":
        bV = rng.standard_normal((n, n))
        bV[rng.uniform(size=(n, n)) < 0.4] = INF
    else:
        a, b, c = rng.uniform(.6, 1.2), rng.uniform(-.2, .2), rng.uniform(.2, 3)
        bV = 0.5 * rng.uniform(0, 1) * xg[:, None] ** 2 + 0.5 * (xg[None, :] - a * xg[:, None] - b) ** 2 / c
    return xg, bV


def g_blocks(ctx):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht

    def body(rng, i):
        kind = ["generic", "quadratic", "holes"][i % 3]
        blocks = [1, 2, 3, 4, 5, 1, 2, 3, 4][i % 9]
        n = int(rng.integers(2, 6))
        xg, bV = make_block(rng, n, kind)
        a0, a1, a2 = rng.standard_normal(3)
        LT = lambda x: a0 + a1 * x + a2 * x ** 2
        VTc = np.array([LT(x) for x in xg])
        VT = np.tile(VTc[:, None], (1, n))
        ctx.note(kind=kind, blocks=blocks, n=n, digest=[xg, bV])
        ctx.feature("blocks %d" % blocks)
        hjb = hn.HJB_Grid_1d(None, None, LT, 1.0, blocks, 3, xg)
        V = [VT]
        for _ in range(blocks):
            V.append(minplus_interp(bV, V[-1]))
        V.reverse()
        want = np.array([z[:, 0] for z in V])
        fin = want[want < INF / 2]
        sc = max(1.0, np.abs(fin).max() if fin.size else 1.0)
        # a tie could go to another index once rounding differs
        def seqcheck(label, got):
            g = to_np(got)
            if not ctx.true(label + ":shape", g.shape == (blocks + 1, n), "shape %s" % (g.shape,)):
                return
            ctx.close(label + " terminal", g[-1], VTc, 1e-14, 1e-14)
            for k in range(blocks):
                close_any(ctx, label + " step", g[k][:, None], bV, g[k + 1][:, None], 1e-11)
        seqcheck("sequential", ctx.call("seqBackwardPass_assoc", hjb.seqBackwardPass_assoc, bV))
        seqcheck("tensor sequential", ctx.call("tf seq_bw_pass_assoc", ht.seq_bw_pass_assoc, LT, blocks, tf.constant(xg), tf.constant(bV)))
        Q = brackets(bV, VT, blocks)

        def parcheck(label, got):
            g = to_np(got)
            if not ctx.true(label + ":shape", g.shape == (blocks + 1, n), "shape %s" % (g.shape,)):
                return
            for k in range(blocks + 1):
                d = []
                for w in Q[blocks - k]:
                    w = w[:, 0]
                    dd = np.abs(g[k] - w) / np.where(np.abs(w) > INF / 10, np.abs(w), sc)
                    d.append(np.max(dd) if np.all(np.isfinite(dd)) else np.inf)
                ctx.true(label + " is a bracketing of the blocks", min(d) <= 1e-10,
                         "block %d: nearest bracketing at %.3g" % (k, min(d)), got=g[k], want=Q[blocks - k][0][:, 0])
        parcheck("parallel", ctx.call("parBackwardPass", hjb.parBackwardPass, bV))
        mp = int(rng.choice([blocks + 1, 2 * blocks + 2, 64, 10000]))
        parcheck("tensor parallel", ctx.call("tf par_bw_pass", ht.par_bw_pass, LT, blocks, tf.constant(xg), tf.constant(bV), max_parallel=mp))
    ctx.cases(72, 600, body)


def lin_ref(x0, y, tau):
    """Conditional value of dx=x+u, L=.5x^2+.5u^2 over a time tau."""
    r2 = np.sqrt(2.0)
    J = 1 - r2 * np.tanh(np.arctanh(1 / r2) - r2 * tau)
    A = 1 / (np.cosh(r2 * tau) - r2 * np.sinh(r2 * tau) / 2)
    return 0.5 * J * x0 ** 2 + 0.5 * (y - A * x0) ** 2 / J


def g_agree(ctx):
    """Smooth problems: the sequential and parallel passes agree with the true
    value function up to grid error, for any number of blocks."""
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht

    def riccati(XT, tau):
        # -dS = 1 + 2S - S^2 backwards from XT
        r2 = np.sqrt(2.0)
        return 1 - r2 * np.tanh(np.arctanh((1 - XT) / r2) - r2 * tau) if abs((1 - XT) / r2) < 1 else None

    def body(rng, i):
        blocks = int(rng.integers(1, 17))
        n = int(rng.integers(60, 110))
        X = 2.0
        XT = float(rng.uniform(0.2, 2.2))
        # the transition kernel must be resolved by the grid: long enough blocks
        tau = float(rng.uniform(0.12, 0.3))
        xg = np.linspace(-X, X, n)
        bV = lin_ref(xg[:, None], xg[None, :], tau)
        LT = lambda x: 0.5 * XT * x ** 2
        ctx.note(blocks=blocks, n=n, tau=round(tau, 3), XT=round(XT, 3))
        hjb = hn.HJB_Grid_1d(None, None, LT, blocks * tau, blocks, 3, xg)
        want = np.array([0.5 * riccati(XT, (blocks - k) * tau) * xg ** 2 for k in range(blocks + 1)])
        mid = np.abs(xg) < 0.5 * X
        dx = xg[1] - xg[0]
        got = dict(sequential=ctx.call("seqBackwardPass_assoc", hjb.seqBackwardPass_assoc, bV),
                   parallel=ctx.call("parBackwardPass", hjb.parBackwardPass, bV),
                   tfseq=ctx.call("tf seq_bw_pass_assoc", ht.seq_bw_pass_assoc, LT, blocks, tf.constant(xg), tf.constant(bV)),
                   tfpar=ctx.call("tf par_bw_pass", ht.par_bw_pass, LT, blocks, tf.constant(xg), tf.constant(bV)))
        for k, g in got.items():
            g = to_np(g)
            ctx.true("blocks returned", g.shape == want.shape, "%s: %s" % (k, g.shape), abort=True)
            ctx.close("value " + k, g[:, mid], want[:, mid], 0, 1e-6)
            ctx.close("terminal value", g[-1], want[-1], 1e-13, 1e-13)
    ctx.cases(10, 80, body)


# ---- finite differences ----------------------------------------------------
class Mod:
    """Random scalar model usable with numpy, jax and tensorflow arrays."""

    def __init__(self, rng, quad=False):
        a = rng.standard_normal(6) * [0.5, 0.7, 1.0, 0.3, 0.4, 0.3]
        if quad:
            a[3:] = 0.0
            a[2] = rng.choice([-1, 1]) * rng.uniform(0.6, 1.5)
        b = np.concatenate((rng.standard_normal(3) * 0.4, rng.uniform(0.2, 1.5, size=2), 0.3 * rng.standard_normal(1)))
        self.a, self.b = [float(z) for z in a], [float(z) for z in b]
        self.c = [float(z) for z in rng.standard_normal(3)]

    def f(self, x, u):
        a = self.a
        return a[0] + a[1] * x + a[2] * u + a[3] * x * x + a[4] * x * u + a[5] * x * x * x / 3.0

    def L(self, x, u):
        b = self.b
        return b[0] + b[1] * x + b[2] * u + b[3] * x * x + b[4] * u * u + b[5] * x * u

    def LT(self, x):
        return self.c[0] + self.c[1] * x + self.c[2] * x * x


def fd_ref(f, L, LT, T, blocks, steps, xg, ug, upwind):
    n = len(xg)
    dx, dt = xg[1] - xg[0], T / (blocks * steps)
    V = np.array([float(LT(x)) for x in xg])
    out = [V]
    for _ in range(blocks):
        for _ in range(steps):
            N = np.empty(n)
            for j in range(n):
                fw = (V[j + 1] - V[j]) / dx if j < n - 1 else (V[j] - V[j - 1]) / dx
                bk = (V[j] - V[j - 1]) / dx if j > 0 else (V[j + 1] - V[j]) / dx
                ce = (V[j + 1] - V[j - 1]) / (2 * dx) if 0 < j < n - 1 else fw
                q = []
                for u in ug:
                    fx = float(f(xg[j], u))
                    q.append(float(L(xg[j], u)) + fx * ((fw if fx > 0 else bk) if upwind else ce))
                N[j] = V[j] + dt * min(q)
            V = N
        out.append(V)
    return np.array(out[::-1])


def fd_case(rng, i=0):
    M = Mod(rng)
    if i % 8 == 7:      # larger grids, more blocks
        n, m = int(rng.integers(20, 60)), int(rng.integers(9, 31))
        xg, ug = np.linspace(-float(rng.uniform(.5, 2)), float(rng.uniform(.5, 2)), n), rng.uniform(-2, 2, size=m)
        return M, xg, ug, float(rng.uniform(0.02, 0.15)), int(rng.integers(5, 13)), int(rng.integers(1, 9))
    n, m = int(rng.integers(2, 14)), int(rng.integers(1, 9))
    xg = np.linspace(-float(rng.uniform(.5, 2)), float(rng.uniform(.5, 2)), n)
    ug = np.sort(rng.uniform(-2, 2, size=m))
    blocks, steps = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    T = float(rng.uniform(0.05, 0.4))
    return M, xg, ug, T, blocks, steps


def g_fd_np(ctx):
    from parallel_control import hjb_grid_1d_np as hn

    def body(rng, i):
        import jax.numpy as jnp
        M, xg, ug, T, blocks, steps = fd_case(rng, i)
        ctx.note(n=len(xg), m=len(ug), blocks=blocks, steps=steps, digest=[M.a, M.b, M.c])
        hjb = hn.HJB_Grid_1d(M.f, M.L, M.LT, T, blocks, steps, jnp.array(xg))
        for nm, fn, up in (("symmetric", hjb.seqBackwardPass_symfd, False), ("upwind", hjb.seqBackwardPass_upwind, True)):
            want = fd_ref(M.f, M.L, M.LT, T, blocks, steps, xg, ug, up)
            if np.abs(want).max() > 1e5:
                raise Skip()
            got = ctx.call(nm, fn, jnp.array(ug))
            ctx.close(nm + " differences", np.array(got), want, 1e-11, 1e-11)
    ctx.cases(40, 300, body)


def g_fd_tf(ctx):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_tf as ht

    def body(rng, i):
        M, xg, ug, T, blocks, steps = fd_case(rng, i)
        ctx.note(n=len(xg), m=len(ug), blocks=blocks, steps=steps, digest=[M.a, M.b, M.c])
        c = lambda a: tf.constant(np.asarray(a), tf.float64)
        for nm, fn, up in (("tensor symmetric", ht.seq_bw_pass_symfd, False), ("tensor upwind", ht.seq_bw_pass_upwind, True)):
            want = fd_ref(M.f, M.L, M.LT, T, blocks, steps, xg, ug, up)
            if np.abs(want).max() > 1e5:
                raise Skip()
            got = ctx.call(nm, fn, M.f, M.L, M.LT, c(T), blocks, steps, c(xg), c(ug))
            ctx.close(nm + " differences", got, want, 1e-11, 1e-11)
    ctx.cases(40, 300, body)


def g_models(ctx):
    """Shipped models: both finite-difference passes, both implementations."""
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht, cnonlin_models_np as mn, cnonlin_models_tf as mt

    def body(rng, i):
        name = ["linear_model", "velocity_model", "upwind_model"][i % 3]
        nx, nu = int(rng.integers(8, 22)), int(rng.integers(3, 14))
        blocks, steps = int(rng.integers(1, 5)), int(rng.integers(1, 8))
        f, L, LT, T, xg, ug = getattr(mn, name)(nx, nu)
        f2, L2, LT2, T2, xg2, ug2 = getattr(mt, name)(nx, nu)
        T, T2 = 0.2 * T, 0.2 * T2
        ctx.note(model=name, nx=nx, nu=nu, blocks=blocks, steps=steps)
        hjb = hn.HJB_Grid_1d(f, L, LT, T, blocks, steps, xg)
        for nm, up in (("symfd", False), ("upwind", True)):
            want = fd_ref(f, L, LT, T, blocks, steps, np.array(xg), np.array(ug), up)
            got = ctx.call("np " + nm, getattr(hjb, "seqBackwardPass_" + nm), ug)
            ctx.close("shipped models " + nm, np.array(got), want, 1e-9, 1e-9)
            got = ctx.call("tf " + nm, getattr(ht, "seq_bw_pass_" + nm), f2, L2, LT2, T2, blocks, steps, xg2, ug2)
            ctx.close("shipped models tensor " + nm, got, want, 1e-9, 1e-9)
        if name == "upwind_model":
            inf = hn._HJB_GRID_NP_INFTY
            bV = np.array(mn.upwind_model_block_V(inf, T / blocks, xg))
            got = np.array(ctx.call("seqBackwardPass_assoc", hjb.seqBackwardPass_assoc, bV))
            par = np.array(ctx.call("parBackwardPass", hjb.parBackwardPass, bV))
            for nm, g in (("sequential", got), ("parallel", par)):
                # the state can stay put or drift outwards: value between -e^T x and -x (+ refinement of one cell)
                x = np.array(xg)
                dx = x[1] - x[0]
                ctx.true("upwind blocks " + nm, np.all(np.isfinite(g)) and np.all(g <= -x + 1e-9)
                         and np.all(g >= -np.maximum(x, x * np.exp(T)) - dx), "values %s" % g[0][:8])
    ctx.cases(9, 60, body)


# ---- direct shooting -------------------------------------------------------
def shoot_ref(f, L, T, x0, a, b):
    """Own RK4 of the joint state/cost under piecewise affine controls."""
    h = T / len(a)
    x, c = float(x0), 0.0
    for ai, bi in zip(a, b):
        g = lambda x_, s: (f(x_, ai + bi * s), L(x_, ai + bi * s))
        k1 = g(x, 0.0)
        k2 = g(x + h / 2 * k1[0], h / 2)
        k3 = g(x + h / 2 * k2[0], h / 2)
        k4 = g(x + h * k3[0], h)
        x, c = x + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]), c + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
    return x, c


def params(method, theta, T, steps):
    if method == 1:
        return theta[0::2], theta[1::2]
    h = T / steps
    b = theta[1:]
    a = theta[0] + np.concatenate(([0.0], np.cumsum(b[:-1]) * h))
    return a, b


def g_rollout(ctx):
    """Cost and constraint of arbitrary control parameters."""
    import jax.numpy as jnp
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht
    TM = Mod(np.random.default_rng(0))
    va, vb = tf.Variable(np.zeros(6)), tf.Variable(np.zeros(6))

    def tf_f(x, u):
        a = va
        return a[0] + a[1] * x + a[2] * u + a[3] * x * x + a[4] * x * u + a[5] * x * x * x / 3.0

    def tf_L(x, u):
        b = vb
        return b[0] + b[1] * x + b[2] * u + b[3] * x * x + b[4] * u * u + b[5] * x * u

    def body(rng, i):
        steps = [1, 2, 3, 5, 7, 10][i % 6]
        bt = 3
        M = Mod(rng)
        T = float(rng.uniform(0.1, 0.8))
        x0, xf = rng.uniform(-1, 1, size=(2, bt))
        th1, th2 = 0.5 * rng.standard_normal((bt, 2 * steps)), 0.5 * rng.standard_normal((bt, steps + 1))
        ctx.note(steps=steps, T=round(T, 3), digest=[M.a, M.b, th1, th2])
        w1, w2 = [], []
        for q in range(bt):
            for th, w, m in ((th1, w1, 1), (th2, w2, 2)):
                x, c = shoot_ref(M.f, M.L, T, x0[q], *params(m, th[q], T, steps))
                if abs(x) > 50:
                    raise Skip()
                w.append((c, x - xf[q]))
        w1, w2 = np.array(w1), np.array(w2)
        for q in range(bt):
            c, g = ctx.call("fun_and_con_1", hn.fun_and_con_1, M.f, M.L, T, x0[q], xf[q], jnp.array(th1[q, 0::2]), jnp.array(th1[q, 1::2]))
            ctx.close("cost and constraint 1", [float(c), float(g[0])], w1[q], 1e-11, 1e-11)
            c, g = ctx.call("fun_and_con_2", hn.fun_and_con_2, M.f, M.L, T, x0[q], xf[q], jnp.array(th2[q]))
            ctx.close("cost and constraint 2", [float(c), float(g[0])], w2[q], 1e-11, 1e-11)
            ctx.true("one constraint", g.shape == (1,))
        va.assign(M.a)
        vb.assign(M.b)
        k = lambda z: tf.constant(z, tf.float64)
        c, g = ctx.call("tf fun_and_con_1", ht.fun_and_con_1, tf_f, tf_L, k(T), k(x0), k(xf), k(th1[:, 0::2]), k(th1[:, 1::2]))
        ctx.close("tensor cost 1", c, w1[:, 0], 1e-11, 1e-11)
        ctx.close("tensor constraint 1", g, w1[:, 1:], 1e-11, 1e-11)
        c, g = ctx.call("tf fun_and_con_2", ht.fun_and_con_2, tf_f, tf_L, k(T), k(x0), k(xf), k(th2))
        ctx.close("tensor cost 2", c, w2[:, 0], 1e-11, 1e-11)
        ctx.close("tensor constraint 2", g, w2[:, 1:], 1e-11, 1e-11)
    ctx.cases(18, 120, body)


def qp_value(M, method, T, steps, x0, xf):
    """Exact optimum for affine dynamics and quadratic cost: the rollout is
    affine/quadratic in the parameters, so recover it by evaluation."""
    d = 2 * steps if method == 1 else steps + 1
    ev = lambda th: shoot_ref(M.f, M.L, T, x0, *params(method, th, T, steps))
    z = np.zeros(d)
    x_0, c_0 = ev(z)
    e = np.eye(d)
    xs = np.array([ev(e[k])[0] for k in range(d)])
    cp, cm = np.array([ev(e[k])[1] for k in range(d)]), np.array([ev(-e[k])[1] for k in range(d)])
    A = (xs - x_0)[None, :]
    g = (cp - cm) / 2
    H = np.zeros((d, d))
    for k in range(d):
        H[k, k] = cp[k] + cm[k] - 2 * c_0
        for l in range(k):
            H[k, l] = H[l, k] = ev(e[k] + e[l])[1] - cp[k] - cp[l] + c_0
    w = np.linalg.eigvalsh(H)
    if w[0] < 1e-7 * w[-1]:
        raise Skip()
    K = np.block([[H, A.T], [A, np.zeros((1, 1))]])
    s = np.linalg.solve(K, np.concatenate((-g, [xf - x_0])))[:d]
    return c_0 + g @ s + 0.5 * s @ H @ s


def g_shoot_np(ctx):
    from parallel_control import hjb_grid_1d_np as hn

    def body(rng, i):
        import jax.numpy as jnp
        M = Mod(rng, quad=True)
        method = [2, 1, None, 7][i % 4]
        steps, n, blocks = int(rng.integers(1, 7)), int(rng.integers(2, 5)), int(rng.integers(1, 4))
        T = float(rng.uniform(0.3, 1.0)) * blocks
        xg = np.sort(rng.uniform(-2, 2, size=n))
        ctx.note(method=str(method), steps=steps, n=n, blocks=blocks, digest=[M.a, M.b])
        want = np.array([[qp_value(M, 1 if method in (1, 7) else 2, T / blocks, steps, a, b) for b in xg] for a in xg])
        hjb = hn.HJB_Grid_1d(M.f, M.L, M.LT, T, blocks, steps, jnp.array(xg))
        kw = {} if method is None else dict(method=method)
        with contextlib.redirect_stdout(io.StringIO()):
            got = ctx.call("directShootingValueFunction", hjb.directShootingValueFunction, **kw)
        ctx.close("shooting optimum", got, want, 1e-7, 1e-7)
        # a single Newton-KKT step is exact on affine-quadratic problems
        if i % 4 == 0:
            with contextlib.redirect_stdout(io.StringIO()):
                got = ctx.call("directShootingValueFunction", hjb.directShootingValueFunction, method=2, max_iter=1)
            ctx.close("shooting optimum in one iteration", got, want, 1e-7, 1e-7)
    ctx.cases(5, 60, body)


def g_shoot_nl(ctx):
    """Nonlinear dynamics: no admissible control found by an independent
    optimizer is cheaper, and the value belongs to a feasible control."""
    from parallel_control import hjb_grid_1d_np as hn
    from scipy.optimize import minimize

    def body(rng, i):
        import jax.numpy as jnp
        steps = int(rng.integers(1, 5))
        M = Mod(rng)
        M.a[2] = 1.0 + abs(M.a[2])
        M.a[3] *= 0.4
        M.a[4] *= 0.3
        M.a[5] *= 0.4
        T = float(rng.uniform(0.3, 0.7))
        xg = np.linspace(-1, 1, 3) * float(rng.uniform(0.3, 1))
        method = 1 + i % 2
        ctx.note(method=method, steps=steps, digest=[M.a, M.b])
        hjb = hn.HJB_Grid_1d(M.f, M.L, M.LT, T, 1, steps, jnp.array(xg))
        with contextlib.redirect_stdout(io.StringIO()):
            got = to_np(ctx.call("directShootingValueFunction", hjb.directShootingValueFunction, method=method, max_iter=30))
        d = 2 * steps if method == 1 else steps + 1
        for p, q in ((0, 0), (0, 2), (2, 1)):
            ev = lambda th: shoot_ref(M.f, M.L, T, xg[p], *params(method, th, T, steps))
            r = minimize(lambda th: ev(th)[1], np.zeros(d), constraints=[dict(type="eq", fun=lambda th: ev(th)[0] - xg[q])],
                         method="SLSQP", options=dict(ftol=1e-12, maxiter=300))
            if not r.success or abs(ev(r.x)[0] - xg[q]) > 1e-8:
                ctx.feature("reference did not converge")
                continue
            ctx.close("nonlinear shooting optimum", got[p, q], r.fun, 1e-5, 1e-5)
    ctx.cases(5, 40, body)


def tf_shoot(cfgs, graph=False):
    """Graph tracing of the nested derivatives takes minutes, so the quick tier
    runs the functions op by op; the thorough tier also runs them traced."""
    def g(ctx):
        import tensorflow as tf
        from parallel_control import hjb_grid_1d_tf as ht
        if graph and not ctx.thorough:
            ctx.true("graph mode runs in the thorough tier", True)
            ctx.cases(1, 1, lambda rng, i: None)
            return
        tf.config.run_functions_eagerly(not graph)
        va, vb = tf.Variable(np.zeros(6)), tf.Variable(np.zeros(6))
        f = lambda x, u: va[0] + va[1] * x + va[2] * u
        L = lambda x, u: vb[0] + vb[1] * x + vb[2] * u + vb[3] * x * x + vb[4] * u * u + vb[5] * x * u
        k = lambda z: tf.constant(z, tf.float64)

        def body(rng, i):
            method, steps, n, it = cfgs[i % len(cfgs)]
            M = Mod(rng, quad=True)
            va.assign(M.a)
            vb.assign(M.b)
            T = float(rng.uniform(0.3, 1.0))
            xg = np.sort(rng.uniform(-2, 2, size=n))
            ctx.note(method=method, steps=steps, n=n, graph=graph, digest=[M.a, M.b])
            if method == 0:
                yg = xg
                got = ctx.call("direct_shooting_block_V", ht.direct_shooting_block_V, f, L, k(T), steps, k(xg), max_iter=it)
            else:
                yg = np.sort(rng.uniform(-2, 2, size=n + 1))
                got = ctx.call("tf V_eval_%d" % method, getattr(ht, "V_eval_%d" % method), f, L, k(T), steps, k(xg), k(yg), it)
            want = np.array([[qp_value(M, method or 2, T, steps, a, b) for b in yg] for a in xg])
            ctx.close("tensor shooting optimum", got, want, 1e-7, 1e-7)
        ctx.cases(len(cfgs), 12 * len(cfgs), body)
    return g


GROUPS = dict(combine=g_combine, blocks=g_blocks, agree=g_agree, fd_np=g_fd_np, fd_tf=g_fd_tf, models=g_models, rollout=g_rollout,
              shoot_np=g_shoot_np, shoot_nl=g_shoot_nl, shoot_tf=tf_shoot([(0, 3, 4, 1), (2, 1, 2, 2)]),
              shoot_tf1=tf_shoot([(1, 2, 3, 1), (1, 1, 2, 2)]), shoot_graph=tf_shoot([(0, 3, 3, 2)], True))
