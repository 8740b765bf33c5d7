"""C16: equality-constrained programming against independent KKT algebra."""
import contextlib
import io

import numpy as np

from vf.core import Skip, big_dims, to_np


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Prob:
    """fun = 1/2 x'Px + q'x + sum a cos(Wx+p),  con_j = A_j x - b_j + 1/2 x'Q_j x."""

    def __init__(self, rng, n, m, nl=1.0, curv=1.0):
        g, _ = np.linalg.qr(rng.normal(size=(n, n)))
        self.P = (g * rng.uniform(0.8, 3.0, size=n)) @ g.T
        self.q = rng.normal(size=n)
        self.W, self.p = 0.7 * rng.normal(size=(2, n)), rng.normal(size=2)
        self.a = nl * 0.4 * rng.uniform(-1, 1, size=2)
        A, _ = np.linalg.qr(rng.normal(size=(n, m)))
        self.A = A.T * rng.uniform(0.7, 1.6, size=(m, 1))
        self.b = 0.6 * rng.normal(size=m)
        Qs = rng.normal(size=(m, n, n)) * curv * 0.25 / n
        self.Q = 0.5 * (Qs + Qs.transpose(0, 2, 1))
        self.n, self.m = n, m
        if rng.uniform() < 0.25:    # absent terms
            z = rng.uniform(size=4) < 0.4
            self.q, self.b = self.q * (not z[0]), self.b * (not z[1])
            self.a = self.a * (not z[2])
            if z[3]:
                self.Q[int(rng.integers(0, m))] = 0.0

    def digest(self):
        return [self.P, self.q, self.a, self.A, self.b, self.Q]

    # generic in the array module
    def fun(self, xp):
        return lambda x: 0.5 * x @ (self.P @ x) + self.q @ x + xp.sum(self.a * xp.cos(self.W @ x + self.p))

    def con(self, xp):
        return lambda x: self.A @ x - self.b + 0.5 * xp.stack([x @ (self.Q[j] @ x) for j in range(self.m)])

    def f(self, x):
        return float(self.fun(np)(x))

    def c(self, x):
        return self.con(np)(x)

    def g(self, x):
        return self.P @ x + self.q - self.W.T @ (self.a * np.sin(self.W @ x + self.p))

    def J(self, x):
        return self.A + np.array([Q @ x for Q in self.Q])

    def H(self, x, lam):
        return self.P - self.W.T @ ((self.a * np.cos(self.W @ x + self.p))[:, None] * self.W) - np.einsum("j,jkl->kl", lam, self.Q)

    def grad_lag(self, x, lam):
        return self.g(x) - self.J(x).T @ lam

    def residual(self, x):
        """Distance from the first-order conditions, over all multipliers."""
        J, g = self.J(x), self.g(x)
        lam = np.linalg.lstsq(J.T, g, rcond=None)[0]
        return np.linalg.norm(g - J.T @ lam), np.linalg.norm(self.c(x))


def kkt(G, c, A, b):
    m = A.shape[0]
    K = np.block([[G, A.T], [A, np.zeros((m, m))]])
    if np.linalg.cond(K) > 1e6:
        raise Skip()
    z = np.linalg.solve(K, np.concatenate((-c, b)))
    return z[:len(c)], -z[len(c):]


def newton(P, x0, iters):
    """Newton-KKT iterates [(x, lam)], starting multipliers zero."""
    x, lam, out = np.array(x0), np.zeros(P.m), []
    for _ in range(iters):
        s, l2 = kkt(P.H(x, lam), P.g(x), P.J(x), -P.c(x))
        out.append((x, lam))
        x, lam = x + s, l2
        if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e3:
            raise Skip()
    out.append((x, lam))
    return out


def dims(rng, i=0):
    n = big_dims(rng, i, int(rng.integers(1, 7)), hi=16)
    return n, int(rng.integers(1, n + 1))


def rand_qp(rng, n, m):
    """Strictly convex on the constraint surface, maybe indefinite off it."""
    A = rng.normal(size=(m, n))
    N = np.linalg.svd(A)[2][m:].T
    G = rng.normal(size=(n, n))
    G = G + G.T
    if n > 1 and rng.uniform() < 0.4:
        # no curvature at all in some directions (the constraints fix them), or
        # zero diagonal entries: only the whole system is regular
        r = int(rng.integers(0, n))
        if rng.uniform() < 0.5:
            V = rng.normal(size=(n, r))
            G = V @ V.T
        else:
            G[r, r] = 0.0
    if n > m:
        w = np.linalg.eigvalsh(N.T @ G @ N)[0]
        if w < 0.3:
            G = G + (0.3 - w) * (N @ N.T if rng.uniform() < 0.5 else np.eye(n))
    c, b = rng.normal(size=n), rng.normal(size=m)
    if rng.uniform() < 0.3:     # terms that are absent
        z = rng.uniform(size=5) < 0.4
        if z[0]:
            c = np.zeros(n)
        if z[1]:
            b = np.zeros(m)
        if z[2]:
            A = np.eye(n)[rng.permutation(n)[:m]]
            G = G @ G.T + 0.3 * np.eye(n)
        if z[3]:
            G = np.eye(n) if rng.uniform() < 0.5 else np.diag(rng.uniform(0.3, 3, size=n))
        if z[4] and n == m:
            G = np.zeros((n, n))
    return G, c, A, b


def qp_judge(ctx, lab, G, c, A, b, x, lam):
    s = max(1.0, np.abs(x).max(), np.abs(lam).max()) * max(1.0, np.abs(G).max(), np.abs(A).max())
    ctx.close(lab + ": constraints", A @ x, b, 0, 1e-8 * s)
    ctx.close(lab + ": stationarity", G @ x + c, A.T @ lam, 0, 1e-8 * s)
    wx, wl = kkt(G, c, A, b)
    ctx.close(lab + ": solution", x, wx, 1e-7, 1e-8)
    ctx.close(lab + ": multipliers", lam, wl, 1e-7, 1e-8 * s)


def g_qp(ctx):
    import jax.numpy as jnp
    import tensorflow as tf
    from parallel_control import sqp_np, sqp_tf

    def body(rng, i):
        n, m = dims(rng, i)
        bt = int(rng.integers(1, 5))
        P = [rand_qp(rng, n, m) for _ in range(bt)]
        for p in P:
            kkt(*p)
        ctx.note(n=n, m=m, batch=bt, digest=[z for z in P[0]])
        x, lam = ctx.call("lqe_solve", sqp_np.lqe_solve, *[jnp.array(z) for z in P[0]])
        qp_judge(ctx, "qp", *P[0], to_np(x), to_np(lam))
        x, lam = ctx.call("tf lqe_solve", sqp_tf.lqe_solve, *[tf.constant(z) for z in P[0]])
        ctx.true("qp tensor: shapes", tuple(x.shape) == (n,) and tuple(lam.shape) == (m,), "%s %s" % (x.shape, lam.shape), abort=True)
        qp_judge(ctx, "qp tensor", *P[0], to_np(x), to_np(lam))
        xs, ls = ctx.call("tf lqe_solve batched", sqp_tf.lqe_solve, *[tf.constant(np.array(z)) for z in zip(*P)])
        ctx.true("qp tensor: shapes", tuple(xs.shape) == (bt, n) and tuple(ls.shape) == (bt, m), "%s %s" % (xs.shape, ls.shape), abort=True)
        for k in range(bt):
            qp_judge(ctx, "qp tensor batched", *P[k], to_np(xs)[k], to_np(ls)[k])
        # a feasible move never lowers the objective
        G, c, A, b = P[0]
        x = to_np(x)
        if n > m:
            N = np.linalg.svd(A)[2][m:].T
            y = x + N @ rng.normal(size=n - m)
            ctx.true("qp: minimal", 0.5 * x @ G @ x + c @ x <= 0.5 * y @ G @ y + c @ y + 1e-7 * (1 + y @ y))
        else:
            ctx.feature("fully determined")
    ctx.cases(150, 1500, body)


def start(rng, P, i):
    if i % 5 == 0:
        x = np.zeros(P.n)
        if np.linalg.norm(P.g(x)) + np.linalg.norm(P.c(x)) < 1e-6:
            raise Skip()        # already the solution: no step to form an update from
        return x
    if i % 5 == 1:      # stationary point of the objective: only the constraints are violated
        x = np.zeros(P.n)
        for _ in range(60):
            x = x - np.linalg.solve(P.H(x, np.zeros(P.m)), P.g(x))
        if np.linalg.norm(P.g(x)) > 1e-10:
            raise Skip()
        return x
    x = rng.normal(size=P.n) * 0.7
    if rng.uniform() < 0.25:    # a feasible point: only the objective is left to improve
        for _ in range(60):
            x = x - np.linalg.lstsq(P.J(x), P.c(x), rcond=None)[0]
        if not np.linalg.norm(P.c(x)) < 1e-12:
            raise Skip()
    return x


def g_newton(ctx):
    import jax.numpy as jnp
    from parallel_control import sqp_np

    def body(rng, i):
        n, m = dims(rng, i)
        quad = i % 4 == 3
        P = Prob(rng, n, m, nl=0.0 if quad else 1.0, curv=0.0 if quad else 1.0)
        x0 = start(rng, P, i)
        ctx.note(n=n, m=m, quadratic=quad, start=i % 5, digest=P.digest() + [x0])
        fun, con = P.fun(jnp), P.con(jnp)
        ref = newton(P, x0, 12)
        for k in (1, 2, 4) if i % 2 else (3, 5):
            with quiet():
                x, it, crit = ctx.call("local_eq_fast", sqp_np.local_eq_fast, fun, con, jnp.array(x0), k)
            ctx.close("newton iterate", x, ref[k][0], 1e-7, 1e-8)
            ctx.true("iterations reported", int(it) == k, "%s" % it)
            ctx.close("lagrangian gradient reported", float(crit), np.linalg.norm(P.grad_lag(*ref[k - 1])), 1e-6, 1e-7)
        if quad:
            ctx.feature("quadratic")
            x, it, crit = ctx.call("local_eq_fast", sqp_np.local_eq_fast, fun, con, jnp.array(x0), 1)
            r = P.residual(to_np(x))
            ctx.true("one step solves a quadratic program", max(r) < 1e-8 * (1 + np.abs(to_np(x)).max()), "%s" % (r,))
        mi, tol = int(rng.choice([1, 2, 3, 100])), float(rng.choice([1e-6, 1e-3]))
        with quiet():
            kw = {} if mi == 100 and tol == 1e-6 else dict(max_iter=mi, tol=tol)
            if not kw:
                mi, tol = 100, 1e-6
            x, it, crit = ctx.call("local_eq", sqp_np.local_eq, fun, con, jnp.array(x0), quiet=bool(i % 2), **kw)
        it, crit, x = int(it), float(crit), to_np(x)
        ctx.true("iteration budget", 1 <= it <= mi and (crit <= tol or it == mi), "iter %d of %d, crit %g tol %g" % (it, mi, crit, tol))
        if it <= 12:
            ctx.close("sqp iterate", x, ref[it][0], 1e-7, 1e-8)
            # the reported number is the residual of the point the last step left from
            px, pl = ref[it - 1]
            ctx.close("residual reported", crit, np.hypot(np.linalg.norm(P.grad_lag(px, pl)), np.linalg.norm(P.c(px))), 1e-5, 1e-8)
            first = next((k for k in range(12) if np.hypot(np.linalg.norm(P.grad_lag(*ref[k])), np.linalg.norm(P.c(ref[k][0]))) < 0.9 * tol), None)
            if first is not None:
                ctx.true("stops when converged", it <= first + 1, "iter %d, converged after %d" % (it, first))
        if crit <= tol:
            ctx.feature("newton converged")
            r = P.residual(x)
            ctx.true("converged point is optimal", max(r) <= 5 * tol, "stationarity %.3g feasibility %.3g at tol %g" % (*r, tol))
    ctx.cases(24, 200, body)


def g_units(ctx):
    """Other units of variables, objective and constraints: the same steps."""
    import jax.numpy as jnp
    import tensorflow as tf
    from parallel_control import sqp_np, sqp_tf
    N2, M2 = 3, 2
    V = dict(P=(N2, N2), q=(N2,), W=(2, N2), p=(2,), a=(2,), A=(M2, N2), b=(M2,), Q=(M2, N2, N2), ua=(), us=(), ub=())
    V = {k: tf.Variable(np.zeros(z)) for k, z in V.items()}

    def tfun(z, par):
        x = z * V["us"]
        return V["ua"] * (0.5 * tf.reduce_sum(x * tf.linalg.matvec(V["P"], x), -1) + tf.reduce_sum(V["q"] * x, -1)
                          + tf.reduce_sum(V["a"] * tf.cos(tf.linalg.matvec(V["W"], x) + V["p"]), -1))

    def tcon(z, par):
        x = z * V["us"]
        return V["ub"] * (tf.linalg.matvec(V["A"], x) - V["b"] + 0.5 * tf.einsum("...k,jkl,...l->...j", x, V["Q"], x))

    def body(rng, i):
        a, s = 2.0 ** int(rng.integers(-30, 31)), 2.0 ** int(rng.integers(-20, 21))
        b = a * s * 2.0 ** int(rng.integers(-8, 9))
        n, m = dims(rng, i)
        G, c, A, h = rand_qp(rng, n, m)
        wx, wl = kkt(G, c, A, h)
        ctx.note(n=n, m=m, units="2^%d,%d,%d" % tuple(np.log2([a, s, b])), digest=[G, c])
        for lab, mod, to in (("qp", sqp_np, jnp.array), ("qp tensor", sqp_tf, tf.constant)):
            x, lam = ctx.call(lab + " lqe_solve", mod.lqe_solve, to(G * (a * s * s)), to(c * (a * s)), to(A * (b * s)), to(h * b))
            ctx.close("units: %s solution" % lab, to_np(x) * s, wx, 1e-6, 1e-7)
            ctx.close("units: %s multipliers" % lab, to_np(lam) * (b / a), wl, 1e-6, 1e-7 * max(1.0, np.abs(wl).max()))
        tens = i % 4 == 3
        if i % 2 == 0:
            return
        if tens:
            n, m = N2, M2
        P = Prob(rng, n, m, nl=1.0, curv=1.0)
        x0 = start(rng, P, i)
        k = int(rng.integers(1, 6))
        ref = newton(P, x0, k)
        if tens:
            for nm in ("P", "q", "W", "p", "a", "A", "b", "Q"):
                V[nm].assign(getattr(P, nm))
            V["ua"].assign(a), V["us"].assign(s), V["ub"].assign(b)
            xs, ls, crits = ctx.call("tf local_eq_fast", sqp_tf.local_eq_fast, tfun, tcon, tf.constant(x0 / s), tf.constant(0.0, tf.float64), k)
            for j in range(k):
                ctx.close("units: tensor iterate", to_np(xs)[j] * s, ref[j + 1][0], 1e-6, 1e-7)
                ctx.close("units: tensor multipliers", to_np(ls)[j] * (b / a), ref[j + 1][1], 1e-6, 1e-7 * (1 + np.abs(ref[j + 1][1]).max()))
                ctx.close("units: tensor criterion", to_np(crits)[j] / (a * s), np.linalg.norm(P.grad_lag(*ref[j])), 1e-5, 1e-6)
        else:
            f0, c0 = P.fun(jnp), P.con(jnp)
            fun, con = (lambda z: a * f0(z * s)), (lambda z: b * c0(z * s))
            with quiet():
                x, it, crit = ctx.call("local_eq_fast", sqp_np.local_eq_fast, fun, con, jnp.array(x0 / s), k)
            ctx.close("units: iterate", to_np(x) * s, ref[k][0], 1e-6, 1e-7)
            ctx.close("units: criterion", float(crit) / (a * s), np.linalg.norm(P.grad_lag(*ref[k - 1])), 1e-5, 1e-6)
            # stopping is in the problem's own units: with a tolerance of zero the budget is used up
            if i % 8 == 1:
                with quiet():
                    x, it, crit = ctx.call("local_eq", sqp_np.local_eq, fun, con, jnp.array(x0 / s), max_iter=k, tol=0.0)
                if int(it) == k:
                    ctx.close("units: sqp iterate", to_np(x) * s, ref[k][0], 1e-6, 1e-7)
                else:
                    ctx.true("units: early stop only at zero residual", float(crit) == 0.0, "stopped after %d of %d with %g" % (it, k, crit))
    ctx.cases(64, 600, body)


def bfgs_ref(P, x0, max_iter, tol, max_bt, damped):
    """Quasi-Newton with l1 merit backtracking, as documented; yields iterates."""
    x, B, lam = np.array(x0), np.eye(P.n), np.zeros(P.m)
    merit = lambda z: P.f(z) + np.abs(P.c(z)).sum()
    out = []
    for it in range(max_iter):
        p, hl = kkt(B, P.g(x), P.J(x), -P.c(x))
        m0, alf, bt, edge = merit(x), 1.0, 0, False
        while bt < max_bt:
            mm = merit(x + alf * p)
            edge = edge or abs(mm - m0) < 1e-9 * (1 + abs(m0))
            if not mm > m0:
                break
            alf, bt = alf / 2, bt + 1
        leap = bt == max_bt
        if leap:
            alf = 1.0
        s = alf * p
        lam = lam + alf * (hl - lam)
        y = P.grad_lag(x + s, lam) - P.grad_lag(x, lam)
        x = x + s
        Bs, sy = B @ s, s @ y
        if damped:
            th = 1.0 if sy >= 0.2 * s @ Bs else 0.8 * s @ Bs / (s @ Bs - sy)
            edge = edge or abs(sy - 0.2 * s @ Bs) < 1e-9 * s @ Bs
            y = th * y + (1 - th) * Bs
        if damped or sy > 0:
            B = B + np.outer(y, y) / (s @ y) - np.outer(Bs, Bs) / (s @ Bs)
        crit = np.hypot(np.linalg.norm(P.grad_lag(x, lam)), np.linalg.norm(P.c(x)))
        out.append(dict(x=x, crit=crit, edge=edge or np.abs(x).max() > 1e2, bt=bt, leap=leap))
        if crit <= tol:
            break
    return out


def g_bfgs(ctx):
    import jax.numpy as jnp
    from parallel_control import sqp_np

    def body(rng, i):
        n, m = dims(rng, i)
        damped = bool(i % 3)
        P = Prob(rng, n, m, nl=1.5, curv=1.0)
        P.P *= float(rng.choice([1.0, 4.0]))        # makes the unit step overshoot: backtracking
        x0 = start(rng, P, i)
        mi, mb = [(1, 10), (2, 10), (4, 1), (6, 3), (40, 10)][i % 5]
        ctx.note(n=n, m=m, damped=damped, max_iter=mi, max_backtrack=mb, digest=P.digest() + [x0])
        ref = bfgs_ref(P, x0, mi, 1e-6, mb, damped)
        kw = {} if damped and i % 2 else dict(damped=damped)
        with quiet():
            x, it, crit = ctx.call("bfgs_eq_bt", sqp_np.bfgs_eq_bt, P.fun(jnp), P.con(jnp), jnp.array(x0), max_iter=mi, max_backtrack=mb, quiet=bool(i % 2), **kw)
        it, crit, x = int(it), float(crit), to_np(x)
        ctx.true("quasi-Newton iteration budget", 1 <= it <= mi and (crit <= 1e-6 or it == mi), "iter %d of %d, crit %g" % (it, mi, crit))
        for r in ref:
            if r["bt"]:
                ctx.feature("backtracked")
            if r["leap"]:
                ctx.feature("leap of faith")
        if not any(r["edge"] for r in ref) and it <= len(ref):
            ctx.close("quasi-Newton iterate", x, ref[it - 1]["x"], 1e-5, 1e-6)
            ctx.close("quasi-Newton residual", crit, ref[it - 1]["crit"], 1e-3, 1e-6)
        # whatever multipliers were used, the reported residual cannot be below the smallest possible
        r = P.residual(x)
        ctx.true("residual is not understated", crit >= np.hypot(*r) * (1 - 1e-6) - 1e-9, "crit %.3g, actual %.3g" % (crit, np.hypot(*r)))
        if crit <= 1e-6:
            ctx.feature("quasi-Newton converged")
            ctx.true("converged point is optimal", max(r) <= 2e-6, "stationarity %.3g feasibility %.3g" % r)
    ctx.cases(30, 250, body)


def g_update(ctx):
    import jax.numpy as jnp
    from parallel_control import sqp_np

    def body(rng, i):
        n = int(rng.integers(1, 8))
        g, _ = np.linalg.qr(rng.normal(size=(n, n)))
        B = (g * np.exp(rng.uniform(-1.5, 1.5, size=n))) @ g.T
        B = 0.5 * (B + B.T)
        s = rng.normal(size=n) * float(rng.choice([1e-3, 1.0]))
        Bs = B @ s
        y = rng.normal(size=n) * np.linalg.norm(Bs) / np.sqrt(n)
        t = [None, -1.0, 0.05, 0.19, 0.21, 2.0][i % 6]      # place s'y relative to s'Bs
        if t is not None:
            y = y + (t * s @ Bs - s @ y) / (s @ s) * s
        sy, sBs = s @ y, s @ Bs
        ctx.note(n=n, ratio=round(sy / sBs, 3), digest=[B, s, y])
        ctx.feature("s'y<=0" if sy <= 0 else "s'y<0.2s'Bs" if sy < 0.2 * sBs else "s'y large")
        with quiet():
            b1 = to_np(ctx.call("bfgs_basic_update", sqp_np.bfgs_basic_update, jnp.array(B), jnp.array(s), jnp.array(y), bool(i % 2)))
            b2 = to_np(ctx.call("bfgs_damped_update", sqp_np.bfgs_damped_update, jnp.array(B), jnp.array(s), jnp.array(y), bool(i % 2)))

        def judge(lab, N, yy):
            big = 1 + np.abs(N).max()
            ctx.close(lab + " secant", N @ s, yy, 1e-8, 1e-10 * big * np.linalg.norm(s))
            ctx.close(lab + " symmetric", N, N.T, 0, 1e-10 * big)
            ctx.true(lab + " positive definite", np.linalg.eigvalsh(N)[0] > -1e-10 * big, "%s" % np.linalg.eigvalsh(N))
            # least change: directions B-orthogonal and y-orthogonal are kept
            K = np.linalg.svd(np.vstack([Bs, yy]))[2][np.linalg.matrix_rank(np.vstack([Bs, yy])):]
            ctx.close(lab + " keeps the complement", N @ K.T, B @ K.T, 1e-8, 1e-9 * big)
        if sy <= 0:
            ctx.close("basic update is skipped", b1, B, 0, 0)
        else:
            judge("basic update", b1, y)
        th = 1.0 if sy >= 0.2 * sBs else 0.8 * sBs / (sBs - sy)
        judge("damped update", b2, th * y + (1 - th) * Bs)
        ctx.true("damped curvature", s @ b2 @ s >= 0.2 * sBs * (1 - 1e-8))
    ctx.cases(120, 1200, body)


def tf_group(shapes):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import sqp_tf
        store = {}

        def funs(n, m):
            """The whole problem comes in through `par` (batched or not)."""
            if (n, m) not in store:
                sizes = [n * n, n, 2 * n, 2, 2, m * n, m, m * n * n]
                off = np.concatenate(([0], np.cumsum(sizes)))

                def cut(par, k, *shape):
                    z = par[..., off[k]:off[k + 1]]
                    return tf.reshape(z, tf.concat((tf.shape(z)[:-1], shape), 0)) if len(shape) > 1 else z
                mv = tf.linalg.matvec

                def fun(x, par):
                    ph = mv(cut(par, 2, 2, n), x) + cut(par, 3)
                    return 0.5 * tf.reduce_sum(x * mv(cut(par, 0, n, n), x), -1) + tf.reduce_sum(cut(par, 1) * x, -1) + tf.reduce_sum(cut(par, 4) * tf.cos(ph), -1)

                def con(x, par):
                    Qx = tf.reduce_sum(cut(par, 7, m, n, n) * x[..., None, None, :], -1)
                    return mv(cut(par, 5, m, n), x) - cut(par, 6) + 0.5 * tf.reduce_sum(Qx * x[..., None, :], -1)
                store[n, m] = fun, con
            return store[n, m]

        def pack(P):
            return np.concatenate([z.ravel() for z in (P.P, P.q, P.W, P.p, P.a, P.A, P.b, P.Q)])

        def body(rng, i):
            n, m, bt, iters = shapes[i % len(shapes)]
            fun, con = funs(n, m)
            Ps = [Prob(rng, n, m) for _ in range(bt)]
            xs = [start(rng, P, i + k) for k, P in enumerate(Ps)]
            ls = rng.normal(size=(bt, m))
            ref = [newton(P, x, iters) for P, x in zip(Ps, xs)]
            ctx.note(n=n, m=m, batch=bt, iters=iters, digest=Ps[0].digest() + xs)
            k = lambda z: tf.constant(np.array(z), tf.float64)
            par = k([pack(P) for P in Ps])
            vg = ctx.call("fun_value_grad", sqp_tf.fun_value_grad, fun, k(xs), par, True)
            ctx.close("objective value", vg[0], np.array([P.f(x) for P, x in zip(Ps, xs)]), 1e-10, 1e-10)
            ctx.close("objective gradient", vg[1], np.array([P.g(x) for P, x in zip(Ps, xs)]), 1e-10, 1e-10)
            cj = ctx.call("con_value_jac", sqp_tf.con_value_jac, con, k(xs), par, True)
            ctx.close("constraint value", cj[0], np.array([P.c(x) for P, x in zip(Ps, xs)]), 1e-10, 1e-10)
            ctx.close("constraint jacobian", cj[1], np.array([P.J(x) for P, x in zip(Ps, xs)]), 1e-10, 1e-10)
            lg = ctx.call("lag_value_grad_hess", sqp_tf.lag_value_grad_hess, fun, con, k(xs), k(ls), par, True)
            ctx.close("lagrangian value", lg[0], np.array([P.f(x) - l @ P.c(x) for P, x, l in zip(Ps, xs, ls)]), 1e-10, 1e-10)
            ctx.close("lagrangian gradient", lg[1], np.array([P.grad_lag(x, l) for P, x, l in zip(Ps, xs, ls)]), 1e-10, 1e-10)
            ctx.close("lagrangian hessian", lg[2], np.array([P.H(x, l) for P, x, l in zip(Ps, xs, ls)]), 1e-10, 1e-10)
            X, Lm, crit = ctx.call("tf local_eq_fast batched", sqp_tf.local_eq_fast, fun, con, k(xs), par, iters, True)
            ctx.close("tensor newton iterates", X, np.array([[r[j + 1][0] for r in ref] for j in range(iters)]), 1e-7, 1e-8)
            ctx.close("tensor newton multipliers", Lm, np.array([[r[j + 1][1] for r in ref] for j in range(iters)]), 1e-7, 1e-8)
            wc = [np.sqrt(sum(np.linalg.norm(P.grad_lag(*r[j])) ** 2 for P, r in zip(Ps, ref))) for j in range(iters)]
            ctx.close("tensor residuals", crit, np.array(wc), 1e-6, 1e-7)
            # one problem on its own, without a batch dimension
            P, x, r, p1 = Ps[0], xs[0], ref[0], k(pack(Ps[0]))
            vg = ctx.call("fun_value_grad", sqp_tf.fun_value_grad, fun, k(x), p1)
            cj = ctx.call("con_value_jac", sqp_tf.con_value_jac, con, k(x), p1)
            lg = ctx.call("lag_value_grad_hess", sqp_tf.lag_value_grad_hess, fun, con, k(x), k(ls[0]), p1)
            for nm, got, want in (("objective value", vg[0], P.f(x)), ("objective gradient", vg[1], P.g(x)), ("constraint value", cj[0], P.c(x)),
                                  ("constraint jacobian", cj[1], P.J(x)), ("lagrangian value", lg[0], P.f(x) - ls[0] @ P.c(x)),
                                  ("lagrangian gradient", lg[1], P.grad_lag(x, ls[0])), ("lagrangian hessian", lg[2], P.H(x, ls[0]))):
                ctx.close("single " + nm, got, want, 1e-10, 1e-10)
            X1, L1, c1 = ctx.call("tf local_eq_fast", sqp_tf.local_eq_fast, fun, con, k(x), p1, iters)
            ctx.close("single newton iterates", X1, np.array([r[j + 1][0] for j in range(iters)]), 1e-7, 1e-8)
            ctx.close("single newton multipliers", L1, np.array([r[j + 1][1] for j in range(iters)]), 1e-7, 1e-8)
            ctx.close("single residuals", c1, np.array([np.linalg.norm(P.grad_lag(*r[j])) for j in range(iters)]), 1e-6, 1e-7)
            ctx.close("batch members are independent", to_np(X)[:, 0], to_np(X1), 1e-9, 1e-9)
        ctx.cases(5 * len(shapes), 40 * len(shapes), body)
    return g


GROUPS = dict(units=g_units, qp=g_qp, newton=g_newton, bfgs=g_bfgs, update=g_update, tf1=tf_group([(3, 2, 4, 4), (1, 1, 2, 3)]),
              tf2=tf_group([(4, 1, 3, 5)]), tf3=tf_group([(2, 2, 1, 3), (5, 3, 2, 2)]))
