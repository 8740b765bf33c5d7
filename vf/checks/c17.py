"""C17: discretization and the one-step integrator."""
import numpy as np
from vf.core import big_dims

from vf.core import Skip, to_np

GL_X, GL_W = np.polynomial.legendre.leggauss(14)


def expm_ld(A):
    """Scaled Taylor series in extended precision."""
    A = np.asarray(A, dtype=np.longdouble)
    nrm = float(np.abs(A).sum(axis=1).max()) if A.size else 0.0
    s = max(0, int(np.ceil(np.log2(max(nrm, 1e-30) / 0.25))))
    B = A / np.longdouble(2) ** s
    E = T = np.eye(A.shape[0], dtype=np.longdouble)
    for k in range(1, 26):
        T = T @ B / k
        E = E + T
    for _ in range(s):
        E = E @ E
    return E


def disc_ref(F, LQL, G, dt):
    """Transition by series; integrals by Gauss-Legendre on short pieces."""
    n = F.shape[0]
    F = np.asarray(F, float)
    p = max(1, int(np.ceil(np.abs(F).sum(axis=1).max() * dt / 0.5)))
    h = dt / p
    Ah = expm_ld(F * h)
    nodes = [(0.5 * h * (x + 1), 0.5 * h * w) for x, w in zip(GL_X, GL_W)]
    Es = [(expm_ld(F * s), w) for s, w in nodes]
    Qh = sum(w * E @ LQL @ E.T for E, w in Es)
    Bh = sum(w * E @ G for E, w in Es)
    A, Q, B = np.eye(n), np.zeros((n, n)), np.zeros(G.shape)
    for _ in range(p):
        A, Q, B = Ah @ A, Ah @ Q @ Ah.T + Qh, Ah @ B + Bh
    return A.astype(float), B.astype(float), Q.astype(float)


def cond(F, dt, N, G, e=1.0):
    """First-order condition (absolute) of transition, input gain and noise covariance.

    Each is read off one matrix exponential of a block matrix that also holds N or G
    (in the caller's units: e), whose size counts.
    """
    F = np.asarray(F, float)
    k = 12
    E, P = expm_ld(F * dt / k).astype(float), [np.eye(F.shape[0])]
    for _ in range(k):
        P.append(P[-1] @ E)
    h = [np.linalg.norm(p, 2) for p in P]
    kap = max(h[a] * h[b] for a in range(k + 1) for b in range(k + 1 - a))
    f, g, q = (np.linalg.norm(M, 2) * dt for M in (F, G, N))
    mq, mg = 10 + f + q * e * e, 10 + f + g * e
    return mq * kap, mg * kap * g, mq * kap * max(h) * q


def draw_F(rng, n):
    k = str(rng.choice(["dense", "stable", "unstable", "nilpotent", "zero", "singular", "companion", "skew", "int", "slow"]))
    F = rng.normal(size=(n, n))
    if k == "stable":
        F = -F @ F.T - 0.1 * np.eye(n)
    elif k == "unstable":
        F = F @ F.T
    elif k == "nilpotent":
        F = np.triu(F, 1)
    elif k == "zero":
        F = np.zeros((n, n))
    elif k == "singular":
        F[:, int(rng.integers(n))] = 0.0
    elif k == "companion":
        F = np.eye(n, k=1)
        F[-1] = rng.normal(size=n)
    elif k == "skew":
        F = F - F.T
    elif k == "slow":
        # time constants many orders of magnitude apart: nearly singular
        F = F @ np.diag(10.0 ** -rng.uniform(0, 14, size=n)) / n
    elif k == "int":
        F = rng.integers(-1, 2, size=(n, n))
    return F, k


def g_disc(ctx):
    from parallel_control.disc import lti_disc, lti_disc_u

    def body(rng, i):
        n, l, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        F, kind = draw_F(rng, n)
        form = ["none", "scalar", "matrix", "npscalar"][i % 4]
        if form in ("scalar", "npscalar"):
            l = 1
        L = rng.integers(-1, 3, size=(n, l)) if i % 3 == 0 else rng.normal(size=(n, l))
        G = [None, rng.normal(size=(n, m)), rng.integers(-2, 3, size=(n, m))][int(rng.integers(3))]
        dt = float(np.exp(rng.uniform(np.log(1e-3), np.log(3.0))))
        nrm = np.abs(F).sum(axis=1).max()
        grow = np.linalg.eigvals(np.asarray(F, float)).real.max()
        if i % 5 == 0 and nrm > 0:          # long against the slowest or the fastest motion
            dt = min(float(rng.uniform(6, 60)) / nrm, 1e3)
            ctx.feature("step much longer than the time constants")
        elif nrm * dt > 6:
            dt = 6 / nrm
        if grow > 0:
            dt = min(dt, 12 / grow)
        one = i % 7 == 6 and nrm <= 6       # default step
        dt = 1.0 if one else dt
        if form == "none":
            Qc, Qm = None, np.eye(l)
        elif form == "matrix":
            g = rng.normal(size=(l, l))
            Qc = Qm = g @ g.T * float(rng.choice([0.01, 1.0, 0.0]))
        else:
            q = float(rng.uniform(0.1, 2)) if i % 8 else int(rng.integers(1, 4))
            Qc, Qm = (q if form == "scalar" else np.float64(q)), np.array([[float(q)]])
        ctx.note(n=n, kind=kind, Qc=form, G=G is None, dt=round(dt, 4), digest=[F, L])
        ctx.feature("system " + kind)
        ctx.feature("noise " + form)
        Gm = np.eye(n) if G is None else G
        A, B, Q = disc_ref(F, L @ Qm @ L.T, Gm, dt)
        tA, tB, tQ = (3e-11 * t for t in cond(F, dt, L @ Qm @ L.T, Gm))
        kw = {} if form == "none" and i % 2 else dict(Qc=Qc)
        if not one:
            kw["dt"] = dt
        a, q = ctx.call("lti_disc", lti_disc, F, L, **kw)
        ctx.close("transition", a, A, 1e-13, tA)
        ctx.close("noise covariance", q, Q, 1e-13, tQ)
        if G is not None:
            kw["G"] = G
        a, b, q = ctx.call("lti_disc_u", lti_disc_u, F, L, **kw)
        ctx.close("transition", a, A, 1e-13, tA)
        ctx.close("input gain", b, B, 1e-13, tB)
        ctx.close("noise covariance", q, Q, 1e-13, tQ)
        ctx.true("covariance is positive", np.linalg.eigvalsh(0.5 * (q + q.T))[0] >= -tQ - 1e-13 * np.abs(q).max())
        # two half steps make a whole one
        kw["dt"] = dt / 2
        a2, b2, q2 = ctx.call("lti_disc_u", lti_disc_u, F, L, **kw)
        ctx.close("half steps: transition", a2 @ a2, A, 1e-13, 2 * tA)
        ctx.close("half steps: input", a2 @ b2 + b2, B, 1e-13, 2 * tB)
        ctx.close("half steps: noise", a2 @ q2 @ a2.T + q2, Q, 1e-13, 2 * tQ)
    ctx.cases(400, 4000, body)


def g_units(ctx):
    """Time, states and noise in other units; steps from very short to very long."""
    from parallel_control.disc import lti_disc, lti_disc_u
    from parallel_control.diffeq_np import rk4

    def body(rng, i):
        n, l, m = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        F, kind = draw_F(rng, n)
        F = np.asarray(F, float)
        L, G = rng.normal(size=(n, l)), rng.normal(size=(n, m))
        dt = float(np.exp(rng.uniform(np.log(1e-2), np.log(2.0))))
        nrm = np.abs(F).sum(axis=1).max()
        if nrm * dt > 4:
            dt = 4 / nrm
        g = rng.normal(size=(l, l))
        Qc = g @ g.T + 0.1 * np.eye(l)
        A, B, Q = disc_ref(F, L @ Qc @ L.T, G, dt)
        tA, tB, tQ = (3e-11 * t for t in cond(F, dt, L @ Qc @ L.T, G))
        # time in units of 1/a, noise power in units of a: the same numbers come back
        a = 4.0 ** int(rng.integers(-20, 21))
        x, q = ctx.call("lti_disc", lti_disc, F * a, L, Qc=Qc * a, dt=dt / a)
        ctx.close("units: transition", x, A, 1e-13, tA)
        ctx.close("units: noise covariance", q, Q, 1e-13, tQ)
        e = 2.0 ** int(rng.integers(-12, 13))
        x, b, q = ctx.call("lti_disc_u", lti_disc_u, F * a, L * e, G=G * a * e, Qc=Qc * a, dt=dt / a)
        tA, tB, tQ = (3e-11 * t for t in cond(F, dt, L @ Qc @ L.T, G, e))
        ctx.close("units: transition", x, A, 1e-13, tA)
        ctx.close("units: input gain", b / e, B, 1e-13, tB)
        ctx.close("units: noise covariance", q / e ** 2, Q, 1e-13, tQ)
        # short steps: the leading terms of the series
        h = dt * 2.0 ** -int(rng.integers(14, 40))
        x, b, q = ctx.call("lti_disc_u", lti_disc_u, F, L, G=G, Qc=Qc, dt=h)
        N = L @ Qc @ L.T
        ctx.close("short step: transition", (x - np.eye(n)) / h, F + 0.5 * h * F @ F, 1e-8 + 4e-16 / h, 1e-8 + 4e-16 / h)
        ctx.close("short step: input gain", b / h, G + 0.5 * h * F @ G, 1e-7, 1e-7)
        ctx.close("short step: noise covariance", q / h, N + 0.5 * h * (F @ N + N @ F.T), 1e-7, 1e-7)
        # long steps of a decaying system: stationary values
        D = -(F - F.T) * 0.3 - np.eye(n) * rng.uniform(0.5, 2.0)
        H = float(np.exp(rng.uniform(np.log(6), np.log(120))))
        x, b, q = ctx.call("lti_disc_u", lti_disc_u, D, L, G=G, Qc=Qc, dt=H)
        rA, rB, rQ = disc_ref(D, N, G, H)
        ctx.close("long step: transition", x, rA, 1e-9, 1e-10)
        ctx.close("long step: input gain", b, rB, 1e-9, 1e-10)
        ctx.close("long step: noise covariance", q, rQ, 1e-9, 1e-10)
        # the integrator does not know the unit of time or of the state either
        R = Rhs(rng, (n,))
        z, t = rng.normal(size=n), float(rng.uniform(-2, 2))
        want = rk_ref(lambda x_, t_, p_: R(np, x_, t_, p_), dt, z, t, 0.7)
        got = ctx.call("rk4 f(x,t,param)", rk4, lambda x_, t_, p_: R(np, x_ * e, t_ * a, p_) * (a / e), dt / a, z / e, t=t / a, param=0.7)
        ctx.close("units: integrator", np.asarray(got) * e, want, 1e-12, 1e-12)
        ctx.note(n=n, kind=kind, units="2^%d,%d" % (np.log2(a), np.log2(e)), digest=[F, L])
    ctx.cases(150, 1500, body)


# ---- integrator ------------------------------------------------------------
C = np.array([0.0, 0.5, 0.5, 1.0])
Aij = np.array([[0, 0, 0, 0], [0.5, 0, 0, 0], [0, 0.5, 0, 0], [0, 0, 1.0, 0]])
Bw = np.array([1, 2, 2, 1]) / 6.0


def rk_ref(f, dt, x, t, p):
    k = []
    for s in range(4):
        xs = x + dt * sum((Aij[s, j] * k[j] for j in range(s)), 0.0 * x)
        k.append(f(xs, t + C[s] * dt, p))
    return x + dt * sum(b * kk for b, kk in zip(Bw, k))


class Rhs:
    """Smooth right-hand sides for scalar, vector, matrix and batched states, in any array module."""

    def __init__(self, rng, shape):
        self.shape = shape
        self.A = 0.6 * rng.normal(size=shape)
        self.w = rng.uniform(0.5, 2.0, size=shape)
        self.M = 0.4 * rng.normal(size=(shape[-1], shape[-1])) if len(shape) else None

    def __call__(self, xp, x, t, p):
        z = self.A * xp.sin(self.w * x) + 0.3 * x * xp.cos(3.0 * t + 0.0 * x) + (p if not isinstance(p, tuple) else p[0] + p[1] * x)
        if self.M is not None and len(self.shape):
            z = z + (x @ self.M if len(self.shape) > 1 else xp.reshape(xp.reshape(x, (1, -1)) @ self.M, (-1,)))
        return z - 0.2 * t * t


SHAPES = [(), (1,), (3,), (2, 2), (4, 3), (2, 3, 2)]


def g_rk_np(ctx):
    from parallel_control.diffeq_np import rk4
    import jax
    import jax.numpy as jnp

    def body(rng, i):
        shape = SHAPES[i % len(SHAPES)]
        R = Rhs(rng, shape)
        x = rng.normal(size=shape)
        if shape == ():
            x = float(x)
        dt = float(rng.choice([-1, 1]) * np.exp(rng.uniform(np.log(1e-3), np.log(0.8))))
        t = float([0.0, rng.uniform(-2, 2), rng.uniform(-2, 2)][i % 3]) if i % 4 else [0, 2, -1][i % 3]     # zero and integer times included
        p = [0.0, 0.7, 0, (0.3, 0.5)][(i // 2) % 4]
        if i % 5 == 4 and shape:
            p = rng.normal(size=shape)
        ctx.note(shape=list(shape), dt=round(dt, 4), t=t, param=str(type(p).__name__), digest=[x, R.A])
        ctx.feature("dt<0" if dt < 0 else "dt>0")
        if not shape:
            ctx.feature("scalar state")
        z = 0.0
        for lab, f, kw, g in (("f(x)", lambda x_: R(np, x_, z, z), {}, lambda x_, t_, p_: R(np, x_, z, z)),
                              ("f(x,param)", lambda x_, p_: R(np, x_, z, p_), dict(param=p), lambda x_, t_, p_: R(np, x_, z, p_)),
                              ("f(x,t)", lambda x_, t_: R(np, x_, t_, z), dict(t=t), lambda x_, t_, p_: R(np, x_, t_, z)),
                              ("f(x,t,param)", lambda x_, t_, p_: R(np, x_, t_, p_), dict(t=t, param=p), lambda x_, t_, p_: R(np, x_, t_, p_))):
            want = rk_ref(g, dt, x, t, p)
            before = np.array(x, copy=True)
            got = ctx.call("rk4 " + lab, rk4, f, dt, x, **kw)
            ctx.close("integrator " + lab, np.asarray(got), np.asarray(want), 1e-13, 1e-13)
            ctx.close("state kept", np.asarray(x), before, 0, 0)
        # right-hand sides that hand out stored data, their own argument or one reused buffer
        if shape:
            cst, buf = rng.normal(size=shape), np.zeros(shape)
            held = cst.copy()

            def reuse(x_, t_, p_):
                buf[...] = R(np, x_, t_, z)
                return buf
            for how, h in (("stored data", lambda x_, t_, p_: cst), ("its argument", lambda x_, t_, p_: x_), ("a view of its argument", lambda x_, t_, p_: x_[::-1]),
                           ("a reused buffer", reuse)):
                for lab, f, kw in (("f(x)", lambda x_: h(x_, 0.0, z), {}), ("f(x,param)", lambda x_, p_: h(x_, 0.0, p_), dict(param=p)),
                                   ("f(x,t)", lambda x_, t_: h(x_, t_, z), dict(t=t)), ("f(x,t,param)", h, dict(t=t, param=p))):
                    tt = kw.get("t")
                    want = rk_ref(lambda x_, t_, p_: np.array(h(x_, t_ if tt is not None else 0.0, p_), copy=True), dt, x, t, p)
                    before = np.array(x, copy=True)
                    got = ctx.call("rk4 " + lab, rk4, f, dt, x, **kw)
                    ctx.close("integrator of %s %s" % (how, lab), np.array(got, copy=True), want, 1e-13, 1e-13)
                    ctx.close("state kept (%s)" % how, x, before, 0, 0)
                    ctx.close("right-hand side's own data kept", cst, held, 0, 0)
                    if how == "stored data":
                        ctx.true("result is not the stored data", not np.shares_memory(got, cst) and not np.shares_memory(got, x))
        if i % 6 == 0:
            fj = lambda x_, t_: R(jnp, x_, t_, z)
            got = ctx.call("rk4 traced", jax.jit(lambda xx, tt: rk4(fj, dt, xx, tt)), jnp.asarray(x), t)
            ctx.close("integrator traced", np.array(got), np.asarray(rk_ref(lambda a, b, c: R(np, a, b, z), dt, x, t, p)), 1e-12, 1e-12)
        # exact on time polynomials up to cubic, fifth-order local error in general
        a = rng.normal(size=4)
        got = ctx.call("rk4 f(x,t)", rk4, lambda x_, s: a[0] + a[1] * s + a[2] * s ** 2 + a[3] * s ** 3, dt, 0.0, t)
        ctx.close("quadrature of cubics", got, sum(a[k] * ((t + dt) ** (k + 1) - t ** (k + 1)) / (k + 1) for k in range(4)), 1e-12, 1e-12)
        lam = float(rng.uniform(-2, 2))
        got = ctx.call("rk4 f(x)", rk4, lambda x_: lam * x_, dt, 1.5)
        zz = lam * dt
        ctx.close("linear growth", got, 1.5 * (1 + zz + zz ** 2 / 2 + zz ** 3 / 6 + zz ** 4 / 24), 1e-14, 1e-14)
    ctx.cases(240, 2400, body)


def g_rk_tf(ctx):
    import tensorflow as tf
    from parallel_control.diffeq_tf import rk4

    class TFX:
        sin, cos, reshape = tf.sin, tf.cos, tf.reshape

    def body(rng, i):
        shape = SHAPES[i % len(SHAPES)]
        f32 = i % 4 == 3
        ty = tf.float32 if f32 else tf.float64
        R = Rhs(rng, shape)
        if f32:
            for nm in ("A", "w", "M"):
                if getattr(R, nm) is not None:
                    setattr(R, nm, np.asarray(getattr(R, nm), np.float32))
        x = np.asarray(rng.normal(size=shape), np.float32 if f32 else np.float64)
        dt = float(np.float32(rng.choice([-1, 1]) * np.exp(rng.uniform(np.log(1e-3), np.log(0.8)))))
        t = float(np.float32([0.0, rng.uniform(-2, 2)][i % 2]))
        p = float(np.float32(rng.normal()))
        rt = 2e-5 if f32 else 1e-12
        ctx.note(shape=list(shape), dt=round(dt, 4), t=round(t, 3), dtype=ty.name, digest=[x, R.A])
        ctx.feature("dt<0" if dt < 0 else "dt>0")
        ctx.feature(ty.name)
        c = lambda a: tf.constant(a, dtype=ty)
        f = lambda x_, t_, p_: R(TFX, x_, t_, p_)
        g = lambda x_, t_, p_: R(np, x_, t_, p_)
        x64 = np.asarray(x, float)
        X = c(x)
        got = ctx.call("tf rk4", rk4, f, c(dt), X, c(t), c(p))
        ctx.true("tensor dtype", got.dtype == ty, "%s" % got.dtype)
        ctx.close("tensor integrator", got, rk_ref(g, dt, x64, t, p), rt, rt)
        got = ctx.call("tf rk4 keywords", rk4, f, c(dt), X, param=c(p), t=c(t))
        ctx.close("tensor integrator keywords", got, rk_ref(g, dt, x64, t, p), rt, rt)
        got = ctx.call("tf rk4 no parameter", rk4, f, c(dt), X, c(t))
        ctx.close("tensor integrator no parameter", got, rk_ref(g, dt, x64, t, 0.0), rt, rt)
        got = ctx.call("tf rk4 plain", rk4, f, c(dt), X)
        ctx.close("tensor integrator defaults", got, rk_ref(g, dt, x64, 0.0, 0.0), rt, rt)
        if i % 3 == 0:
            got = ctx.call("tf rk4 python step", rk4, f, dt, X, t)
            ctx.close("tensor integrator python step", got, rk_ref(g, dt, x64, t, 0.0), rt, rt)
        # the same right-hand side object at another time and step (no stale trace)
        t2, d2 = t + 0.5, 0.5 * dt
        got = ctx.call("tf rk4", rk4, f, c(d2), X, c(t2), c(p))
        ctx.close("tensor integrator again", got, rk_ref(g, d2, x64, t2, p), rt, rt)
        a = rng.normal(size=4)
        got = ctx.call("tf rk4", rk4, lambda x_, s, p_: c(a[0]) + c(a[1]) * s + c(a[2]) * s ** 2 + c(a[3]) * s ** 3, c(dt), c(0.0), c(t))
        ctx.close("tensor quadrature of cubics", got, sum(a[k] * ((t + dt) ** (k + 1) - t ** (k + 1)) / (k + 1) for k in range(4)), rt, rt)
    ctx.cases(48, 400, body)


GROUPS = dict(units=g_units, disc=g_disc, rk_np=g_rk_np, rk_tf=g_rk_tf)
