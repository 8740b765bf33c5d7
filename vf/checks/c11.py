"""C11  Continuous-time tracking: sequential solvers converge to the optimum."""
import numpy as np
from scipy import linalg

from vf.core import Skip, to_np
from vf import oracles_ct as o


def err(a, b):
    a = to_np(a)
    if a.shape != b.shape:
        return np.inf
    return float(np.max(np.abs(a - b))) if a.size else 0.0


def levels(ctx, level, order=4, orders={}, floor=1e-9, max_mult=32, prefix="order of "):
    """Refine until every quantity's error falls at its order (or is at the
    rounding floor).  level(mult) -> {name: (got, want)} with h ~ 1/mult.  Only
    an order that is still wrong at the finest refinement is a violation, so a
    pre-asymptotic draw is never one."""
    errs, scale, mult = {}, {}, 1
    while True:
        for k, (g, w) in level(mult).items():
            w = to_np(w)
            g = to_np(g)
            if g.shape != w.shape:
                ctx.true(prefix + k, False, "shape %s, expected %s" % (g.shape, w.shape), abort=True)
            if not np.all(np.isfinite(w)):
                raise Skip()
            errs.setdefault(k, []).append(err(g, w))
            scale[k] = max(1.0, float(np.max(np.abs(w)))) if w.size else 1.0
        if mult >= 4:
            bad = []
            for k, e in errs.items():
                p = orders.get(k, order)
                fl = (1e-7 if p == 1 else floor) * scale[k]
                if not o.order_ok(e[-3:], p, fl, 1.9 if p == 1 else 4.0):
                    bad.append(k)
            if not bad or mult >= max_mult:
                break
            ctx.feature("extra refinement")
        mult *= 2
    for k, e in errs.items():
        ctx.true(prefix + k, k not in bad, "errors %s at halved steps do not fall at order %d" % (
            ["%.2e" % x for x in e], orders.get(k, order)))


def check_problem(ctx, P, t0=None, ST=None, vT=None, default=False):
    """All sequential passes of CLQT on [t0, t0+T] at three step sizes."""
    n = P.n
    tb = 0.0 if t0 is None else t0
    N = o.steps_for(P, t0=tb)
    q = P.build()
    S1, v1 = (P.ST(), P.vT()) if ST is None else (ST, vT)
    rng = np.random.default_rng(1)
    A0 = rng.standard_normal((n, n))
    b0 = rng.standard_normal(n)
    C0 = rng.standard_normal((n, n))
    C0 = 0.2 * C0 @ C0.T

    def level(mult):
        st = N * mult
        dt = P.T / st
        ts = tb + dt * np.arange(st + 1)
        Phi = o.magnus(P.ham, ts)
        S, v = o.backward(Phi, S1, v1, n)
        K, d = P.gain(ts[:-1], S[:-1], v[:-1])
        x = o.forward(Phi, S, v, P.x0, n)
        u = d - np.einsum("kij,kj->ki", K, x[:-1])
        kw = {} if default else dict(dt=dt, t0=t0, S=None if ST is None else S1.copy(), v=None if ST is None else v1.copy())
        gK, gd, gS, gv = ctx.call("CLQT.seqBackwardPass", q.seqBackwardPass, st, **kw)
        ctx.true("grid length", len(gK) == len(gd) == st and len(gS) == len(gv) == st + 1,
                 "%d gains, %d value functions for %d steps" % (len(gK), len(gS), st), abort=True)
        kw = {} if default else dict(dt=dt, t0=t0)
        zero = default or ST is None
        fa = np.zeros((n, n)), P.x0, np.zeros((n, n))
        if not zero:
            fa = A0, b0, C0
            kw2 = dict(kw, A=A0, b=b0, C=C0)
        else:
            kw2 = kw
        gA, gb, gC = ctx.call("CLQT.seqFwdBwdPass", q.seqFwdBwdPass, P.x0, st, **kw2)
        rA, rb, rC = o.fwd_abc(Phi, *fa, n)
        gu, gx = ctx.call("CLQT.seqForwardPass", q.seqForwardPass, P.x0, gK, gd, **kw)
        rec = dict(K=(gK, K), d=(gd, d), S=(gS, S), v=(gv, v), A=(gA, rA), b=(gb, rb), C=(gC, rC), x1=(gx, x), u1=(gu, u))
        if zero:
            ctx.true("A stays zero", err(gA, np.zeros_like(rA)) == 0.0, "A is not zero from zero initial A")
            uc, xc = ctx.call("CLQT.combineForwardBackward", q.combineForwardBackward, gK, gd, gS, gv, gA, gb, gC)
            rec.update(xc=(xc, x), uc=(uc, u))
        ctx.close("S symmetric", np.array(gS), np.swapaxes(np.array(gS), 1, 2), 1e-12, 1e-13)
        ctx.true("terminal value", np.array_equal(gS[-1], S1) and np.array_equal(gv[-1], v1), "terminal value function")
        ctx.true("initial state", np.array_equal(gx[0], P.x0), "first state is not x0")
        ctx.close("control law along trajectory", np.array(gu),
                  np.array(gd) - np.einsum("kij,kj->ki", np.array(gK), np.array(gx)[:-1]), 1e-12, 1e-12)
        return rec
    levels(ctx, level, orders=dict(x1=1, u1=1))
    ctx.feature("steps", N)


def g_np(ctx):
    def body(rng, i):
        P = o.rand_prob(rng)
        ctx.note(n=P.n, m=P.m, p=P.p, T=round(P.T, 3), digest=P.digest())
        check_problem(ctx, P, default=True)
    ctx.cases(30, 250, body)


def g_sub(ctx):
    """Sub-intervals: non-default start time, step, terminal value function."""
    def body(rng, i):
        P = o.rand_prob(rng, invariant=False)
        t0 = float(rng.uniform(-2, 3))
        P.shift(t0)
        ST = vT = None
        if i % 2:
            a = rng.standard_normal((P.n, P.n))
            ST, vT = a @ a.T * 0.4, rng.standard_normal(P.n)
            P.XT, P.rT = ST, np.linalg.lstsq(ST, vT, rcond=None)[0]
            P.HT = np.eye(P.n)
        ctx.note(n=P.n, m=P.m, p=P.p, t0=round(t0, 3), own=bool(i % 2), digest=P.digest())
        Q = P
        if i % 2:
            # problem's own horizon and terminal cost must be ignored when both are given
            Q = o.Prob(P.n, P.m, P.p, P.T, P.fs, P.XT, P.HT, P.rT, P.x0)
        check_problem(ctx, Q, t0=t0, ST=ST, vT=vT)
    ctx.cases(24, 200, body)


def g_held(ctx):
    """The forward pass integrates the held feedback law (or held control) at
    fourth order, for arbitrary gains."""
    def body(rng, i):
        P = o.rand_prob(rng)
        zoh = bool(i % 2)
        N = int(rng.integers(1, 9))
        t0 = float(rng.uniform(-1, 2))
        P.shift(t0)
        K = rng.standard_normal((N, P.m, P.n)) * 0.5
        d = rng.standard_normal((N, P.m))
        ctx.note(n=P.n, m=P.m, N=N, zoh=zoh, digest=[K, d] + P.digest())
        q = P.build()
        base = max(1, int(np.ceil(o.steps_for(P, 0.2, t0) / N)))

        def level(mult):
            r = base * mult
            dt = P.T / (N * r)
            # the same law over finer steps: zoh control changes between steps, so
            # each fine step is judged from the previous one
            Kr, dr = np.repeat(K, r, 0), np.repeat(d, r, 0)
            ts = t0 + dt * np.arange(N * r + 1)
            gu, gx = ctx.call("CLQT.seqForwardPass", q.seqForwardPass, P.x0, list(Kr), list(dr), dt=dt, t0=t0, u_zoh=zoh)
            ru, rx = o.held(P, ts, P.x0, Kr, dr, zoh)
            ctx.close("control law along trajectory", np.array(gu),
                      dr - np.einsum("kij,kj->ki", Kr, np.array(gx)[:-1]), 1e-12, 1e-12)
            return {"held roll-out": (gx, rx)}
        levels(ctx, level)
    ctx.cases(24, 200, body)


def clqr(P):
    from parallel_control import clqt_np
    f = P.fs
    H = f["H"].M0
    X = H.T @ f["X"].M0 @ H
    return clqt_np.CLQR(f["F"].M0, f["L"].M0, X, f["U"].M0, P.ST(), P.T)


def g_clqr(ctx):
    def body(rng, i):
        P = o.rand_prob(rng, invariant=True, homogeneous=True)
        q = clqr(P)
        n = P.n
        ctx.note(n=n, m=P.m, T=round(P.T, 3), digest=P.digest())
        N = o.steps_for(P)
        own = bool(i % 3 == 2)
        ST = P.ST()
        T = P.T
        if own:
            a = rng.standard_normal((n, n))
            ST = 0.3 * a @ a.T
            T = P.T * 0.6
        A1, b1 = rng.standard_normal((n, n)), rng.standard_normal(n)

        def level(mult):
            st = N * mult
            dt = T / st
            ts = dt * np.arange(st + 1)
            Phi = o.magnus(P.ham, ts, 1)
            S, v = o.backward(Phi, ST, np.zeros(n), n)
            K, _ = P.gain(ts[:-1], S[:-1], v[:-1])
            x = o.forward(Phi, S, v, P.x0, n)
            u = -np.einsum("kij,kj->ki", K, x[:-1])
            kw = dict(dt=dt, S=ST.copy()) if own else {}
            gK, gS = ctx.call("CLQR.seqBackwardPass rk4", q.seqBackwardPass, st, **kw)
            eK, eS = ctx.call("CLQR.seqBackwardPass exact", q.seqBackwardPass, st, method="exact", **kw)
            ctx.close("exact value function", np.array(eS), S, 1e-7, 1e-8)
            ctx.close("exact gain", np.array(eK), K, 1e-7, 1e-8)
            kd = dict(dt=dt) if own else {}
            A0, b0, C0 = np.zeros((n, n)), P.x0, np.zeros((n, n))
            kk = {}
            if own:
                A0, b0 = A1, b1
                C0 = 0.2 * np.eye(n)
                kk = dict(A=A0, b=b0, C=C0)
            gA, gb, gC = ctx.call("CLQR.seqFwdBwdPass", q.seqFwdBwdPass, P.x0, st, **kd, **kk)
            rA, rb, rC = o.fwd_abc(Phi, A0, b0, C0, n)
            rec = dict(A=(gA, rA), b=(gb, rb), C=(gC, rC), K=(gK, K), S=(gS, S))
            if not own:
                uc, xc = ctx.call("CLQR.combineForwardBackward", q.combineForwardBackward, gK, gS, gA, gb, gC)
                rec.update(xc=(xc, x), uc=(uc, u))
            # roll-out: exact methods are exact for the held law
            for zoh in (False, True):
                hu, hx = o.held(P, ts, P.x0, eK, np.zeros((st, P.m)), zoh, 1)
                gu, gx = ctx.call("CLQR.seqForwardPass exact", q.seqForwardPass, P.x0, eK, method="exact", u_zoh=zoh, **kd)
                ctx.close("exact held roll-out", np.array(gx), hx, 1e-8, 1e-9)
                ctx.close("exact held controls", np.array(gu), hu, 1e-8, 1e-9)
                gu, gx = ctx.call("CLQR.seqForwardPass rk4", q.seqForwardPass, P.x0, eK, u_zoh=zoh, **kd)
                rec["held rk4 zoh=%s" % zoh] = (gx, hx)
                ctx.close("control law along trajectory", np.array(gu),
                          -np.einsum("kij,kj->ki", np.array(eK), np.array(gx)[:-1]), 1e-12, 1e-12)
                if not zoh:
                    rec["x1"] = (gx, x)
            return rec
        levels(ctx, level, orders=dict(x1=1))
        ctx.call_raises("unknown method", ValueError, q.seqBackwardPass, 3, method="euler")
    ctx.cases(24, 200, body)


def long_prob(rng, i, **kw):
    """A horizon of many time constants; N steps at the coarsest level."""
    P = o.rand_prob(rng, **kw)
    P.T = float(rng.uniform(15, 60)) / o.rate(P)
    for k in range(3):                  # the rate itself may depend on the horizon
        P.T = min(P.T, 60 / o.rate(P))
    return P, int(np.ceil(P.T * o.rate(P) / 0.25))


def g_long(ctx):
    """Horizons of many time constants."""
    def body(rng, i):
        inv = i % 2 == 0
        P, N = long_prob(rng, i, invariant=True if inv else None, homogeneous=inv)
        n = P.n
        q = P.build()
        r = clqr(P) if inv else None
        lam = np.abs(np.linalg.eigvals(P.ham(np.array([P.T / 2]))[0]).real).max() * P.T
        ctx.note(n=n, m=P.m, p=P.p, T=round(P.T, 3), N=N, invariant=inv, decay=round(lam, 1), digest=P.digest())
        if lam > 20:
            ctx.feature("horizon of more than 20 time constants")

        def level(mult):
            st = N * mult
            dt = P.T / st
            ts = dt * np.arange(st + 1)
            Phi = o.magnus(P.ham, ts)
            S, v = o.backward(Phi, P.ST(), P.vT(), n)
            K, d = P.gain(ts[:-1], S[:-1], v[:-1])
            x = o.forward(Phi, S, v, P.x0, n)
            u = d - np.einsum("kij,kj->ki", K, x[:-1])
            rA, rb, rC = o.fwd_abc(Phi, np.zeros((n, n)), P.x0, np.zeros((n, n)), n)
            if not np.max([np.abs(z).max() for z in (S, v, x, u, rb, rC)]) <= 1e4:
                raise Skip()
            gK, gd, gS, gv = ctx.call("CLQT.seqBackwardPass", q.seqBackwardPass, st)
            gA, gb, gC = ctx.call("CLQT.seqFwdBwdPass", q.seqFwdBwdPass, P.x0, st)
            uc, xc = ctx.call("CLQT.combineForwardBackward", q.combineForwardBackward, gK, gd, gS, gv, gA, gb, gC)
            gu, gx = ctx.call("CLQT.seqForwardPass", q.seqForwardPass, P.x0, gK, gd)
            rec = dict(K=(gK, K), d=(gd, d), S=(gS, S), v=(gv, v), b=(gb, rb), C=(gC, rC), xc=(xc, x), uc=(uc, u), x1=(gx, x))
            if inv:
                eK, eS = ctx.call("CLQR.seqBackwardPass exact", r.seqBackwardPass, st, method="exact")
                sc = max(1.0, np.abs(S).max(), np.abs(K).max())
                ctx.close("exact value function", np.array(eS), S, 0, 1e-7 * sc)
                ctx.close("exact gain", np.array(eK), K, 0, 1e-7 * sc)
                hu, hx = o.held(P, ts, P.x0, eK, np.zeros((st, P.m)), False, 1)
                eu, ex = ctx.call("CLQR.seqForwardPass exact", r.seqForwardPass, P.x0, eK, method="exact")
                ctx.close("exact held roll-out", np.array(ex), hx, 0, 1e-8 * max(1.0, np.abs(hx).max()))
                gK, gS = ctx.call("CLQR.seqBackwardPass rk4", r.seqBackwardPass, st)
                gA, gb, gC = ctx.call("CLQR.seqFwdBwdPass", r.seqFwdBwdPass, P.x0, st)
                uc, xc = ctx.call("CLQR.combineForwardBackward", r.combineForwardBackward, gK, gS, gA, gb, gC)
                rec.update({"regulator K": (gK, K), "regulator S": (gS, S), "regulator C": (gC, rC), "regulator x": (xc, x), "regulator u": (uc, u)})
            return rec
        levels(ctx, level, orders=dict(x1=1), max_mult=8)
    ctx.cases(10, 80, body)


def g_tf(ctx):
    """Tensor passes give the array passes' numbers, whole horizon, sub-interval
    and batches of intervals."""
    import tensorflow as tf
    from parallel_control import clqt_tf as ct
    shapes = [(1, 1, 1, 3), (3, 2, 2, 6), (2, 1, 3, 1)] if not ctx.thorough else \
        [(1, 1, 1, 3), (3, 2, 2, 6), (2, 1, 3, 1), (4, 2, 1, 11), (2, 3, 2, 2), (1, 2, 4, 8)]
    state = {}

    def one(label, P, q, st, t0, dt, ST, vT, got, b=None):
        K, d, S, v = q.seqBackwardPass(st, dt=dt, t0=t0, S=ST, v=vT)
        pick = lambda z: to_np(z) if b is None else to_np(z)[b]
        sc = max(1.0, np.abs(S).max(), np.abs(v).max())
        for nm, g, w in zip("SvKd", got, (S, v, K, d)):
            ctx.close("%s backward %s" % (label, nm), pick(g), np.array(w), 1e-8, 1e-9, scale=sc)
        return K, d, S, v

    def body(rng, i):
        n, m, p, st = shapes[i % len(shapes)]
        P = o.rand_prob(rng, n, m, p)
        key = (n, m, p, st)
        if key not in state:
            state[key] = o.tf_funs(P)
        f, assign = state[key]
        assign(P)
        P.T = min(P.T, 0.3 * st / o.rate(P))
        q = P.build()
        ctx.note(n=n, m=m, p=p, steps=st, digest=P.digest())
        c = lambda a: tf.constant(np.asarray(a), tf.float64)
        fb = [f[k] for k in P.names]
        ff = [f[k] for k in ("F", "L", "c")]
        # defaults
        dt, t0, ST, vT = ctx.call("clqt_seq_backwardpass_defaults", ct.clqt_seq_backwardpass_defaults, st, c(P.XT), c(P.HT), c(P.rT), c(P.T))
        ctx.close("defaults", [float(dt), float(t0)], [P.T / st, 0.0], 1e-14, 1e-15)
        ctx.close("default terminal S", ST, P.ST(), 1e-12, 1e-13)
        ctx.close("default terminal v", vT, P.vT(), 1e-12, 1e-13)
        got = ctx.call("clqt_seq_backwardpass", ct.clqt_seq_backwardpass, st, dt, t0, ST, vT, *fb)
        K, d, S, v = one("whole", P, q, st, 0.0, P.T / st, P.ST(), P.vT(), got)
        ctx.true("tensor dtype", all(g.dtype == tf.float64 for g in got), "float64 in, %s out" % [g.dtype.name for g in got])
        fd = ctx.call("clqt_seq_fwdbwdpass_defaults", ct.clqt_seq_fwdbwdpass_defaults, c(P.x0), st, c(P.T))
        ctx.close("fwdbwd defaults", [float(fd[0]), float(fd[1])], [P.T / st, 0.0], 1e-14, 1e-15)
        ctx.close("fwdbwd default A,C", [fd[2], fd[4]], np.zeros((2, n, n)))
        ctx.close("fwdbwd default b", fd[3], P.x0)
        ga = ctx.call("clqt_seq_fwdbwdpass", ct.clqt_seq_fwdbwdpass, st, *fd, *fb)
        A, b, C = q.seqFwdBwdPass(P.x0, st)
        for nm, g, w in zip("AbC", ga, (A, b, C)):
            ctx.close("whole forward values " + nm, g, np.array(w), 1e-8, 1e-9)
        u, x = q.combineForwardBackward(K, d, S, v, A, b, C)
        gx, gu = ctx.call("clqt_combine_fwdbwd", ct.clqt_combine_fwdbwd, got[2], got[3], got[0], got[1], *ga)
        ctx.close("combined states", gx, np.array(x), 1e-7, 1e-8)
        ctx.close("combined controls", gu, np.array(u), 1e-7, 1e-8)
        for zoh in (False, True):
            u, x = q.seqForwardPass(P.x0, K, d, u_zoh=zoh)
            gx, gu = ctx.call("clqt_seq_forwardpass", ct.clqt_seq_forwardpass, c(P.x0), got[2], got[3], dt, t0, *ff, u_zoh=zoh)
            ctx.close("whole roll-out x", gx, np.array(x), 1e-8, 1e-9)
            ctx.close("whole roll-out u", gu, np.array(u), 1e-8, 1e-9)
        # batch of intervals with their own start, terminal cost, initial values
        B = 3
        t0s = rng.uniform(-2, 3, B)
        h = float(rng.uniform(0.3, 1.0)) * 0.2 / o.rate(P)
        STs = np.array([z @ z.T * 0.3 for z in rng.standard_normal((B, n, n))])
        vTs = rng.standard_normal((B, n))
        gb_ = ctx.call("clqt_seq_backwardpass batch", ct.clqt_seq_backwardpass, st, c(h), c(t0s), c(STs), c(vTs), *fb)
        Ks, ds = [], []
        for k in range(B):
            K, d, _, _ = one("batch", P, q, st, t0s[k], h, STs[k], vTs[k], gb_, k)
            Ks.append(K)
            ds.append(d)
        g1 = ctx.call("clqt_seq_backwardpass sub-interval", ct.clqt_seq_backwardpass, st, c(h), c(t0s[1]), c(STs[1]), c(vTs[1]), *fb)
        one("sub-interval", P, q, st, t0s[1], h, STs[1], vTs[1], g1)
        xs = rng.standard_normal((B, n))
        for zoh in (False, True):
            gx, gu = ctx.call("clqt_seq_forwardpass batch", ct.clqt_seq_forwardpass, c(xs), c(Ks), c(ds), c(h), c(t0s), *ff, u_zoh=zoh)
            for k in range(B):
                u, x = q.seqForwardPass(xs[k], Ks[k], ds[k], dt=h, t0=t0s[k], u_zoh=zoh)
                ctx.close("batch roll-out x", to_np(gx)[k], np.array(x), 1e-8, 1e-9)
                ctx.close("batch roll-out u", to_np(gu)[k], np.array(u), 1e-8, 1e-9)
        A0, C0 = rng.standard_normal((B, n, n)), np.array([z @ z.T * 0.2 for z in rng.standard_normal((B, n, n))])
        ga = ctx.call("clqt_seq_fwdbwdpass batch", ct.clqt_seq_fwdbwdpass, st, c(h), c(t0s), c(A0), c(xs), c(C0), *fb)
        for k in range(B):
            w = q.seqFwdBwdPass(None, st, dt=h, t0=t0s[k], A=A0[k], b=xs[k], C=C0[k])
            for nm, g, z in zip("AbC", ga, w):
                ctx.close("batch forward values " + nm, to_np(g)[k], np.array(z), 1e-8, 1e-9)
    ctx.cases(9, 90, body)


def g_tf32(ctx):
    """Single precision in, single precision out, and close to double."""
    import tensorflow as tf
    from parallel_control import clqt_tf as ct
    state = {}

    def body(rng, i):
        n, m, p, st = 2, 1, 2, 6
        P = o.rand_prob(rng, n, m, p, T=0.9)
        if "f" not in state:
            state["f"] = o.tf_funs(P, "float32")
        f, assign = state["f"]
        assign(P)
        P.T = min(P.T, 0.3 * st / o.rate(P))
        q = P.build()
        ctx.note(digest=P.digest())
        c = lambda a: tf.constant(np.asarray(a), tf.float32)
        fb = [f[k] for k in P.names]
        dt, t0, ST, vT = ct.clqt_seq_backwardpass_defaults(st, c(P.XT), c(P.HT), c(P.rT), c(P.T))
        got = ctx.call("clqt_seq_backwardpass float32", ct.clqt_seq_backwardpass, st, dt, t0, ST, vT, *fb)
        K, d, S, v = q.seqBackwardPass(st)
        sc = max(1.0, np.abs(S).max(), np.abs(v).max()) ** 2
        for nm, g, w in zip("SvKd", got, (S, v, K, d)):
            ctx.true("tensor dtype", g.dtype == tf.float32, "float32 in, %s out" % g.dtype.name)
            ctx.close("float32 backward " + nm, g, np.array(w), 1e-4, 1e-4, scale=sc)
        gx, gu = ctx.call("clqt_seq_forwardpass float32", ct.clqt_seq_forwardpass, c(P.x0), got[2], got[3], dt, t0, f["F"], f["L"], f["c"])
        ctx.true("tensor dtype", gx.dtype == tf.float32 and gu.dtype == tf.float32, "float32 trajectory")
    ctx.cases(4, 20, body)


def g_units(ctx):
    """Every sequential pass gives the same numbers in other units of states,
    controls, outputs, costs and time; the tensor passes too."""
    import tensorflow as tf
    from parallel_control import clqt_tf as ct
    state = {}
    c = lambda a: tf.constant(np.asarray(a), tf.float64)
    SH = (2, 1, 2, 5)

    def sequential(P, st, inv):
        q = P.build()
        K, d, S, v = ctx.call("CLQT.seqBackwardPass", q.seqBackwardPass, st)
        A, b, C = ctx.call("CLQT.seqFwdBwdPass", q.seqFwdBwdPass, P.x0, st)
        out = dict(K=("K", K), d=("d", d), S=("S", S), v=("v", v), A=("A", A), b=("b", b), C=("C", C))
        for zoh in (False, True):
            u, x = ctx.call("CLQT.seqForwardPass", q.seqForwardPass, P.x0, K, d, u_zoh=zoh)
            out["u %s" % zoh], out["x %s" % zoh] = ("u", u), ("x", x)
        u, x = q.combineForwardBackward(K, d, S, v, A, b, C)
        out["combined u"], out["combined x"] = ("u", u), ("x", x)
        if inv:
            r = clqr(P)
            K, S = ctx.call("CLQR.seqBackwardPass", r.seqBackwardPass, st)
            u, x = ctx.call("CLQR.seqForwardPass", r.seqForwardPass, P.x0, K)
            out.update({"regulator K": ("K", K), "regulator S": ("S", S), "regulator x": ("x", x), "regulator u": ("u", u)})
        return out

    def tensor(P, st):
        if "f" not in state:
            state["f"] = o.tf_funs(P)
        f, assign = state["f"]
        assign(P)
        fb = [f[k] for k in P.names]
        dt, t0, ST, vT = ct.clqt_seq_backwardpass_defaults(st, c(P.XT), c(P.HT), c(P.rT), c(P.T))
        S, v, K, d = ctx.call("clqt_seq_backwardpass", ct.clqt_seq_backwardpass, st, dt, t0, ST, vT, *fb)
        A, b, C = ctx.call("clqt_seq_fwdbwdpass", ct.clqt_seq_fwdbwdpass, st, *ct.clqt_seq_fwdbwdpass_defaults(c(P.x0), st, c(P.T)), *fb)
        x, u = ctx.call("clqt_seq_forwardpass", ct.clqt_seq_forwardpass, c(P.x0), K, d, dt, t0, *[f[k] for k in ("F", "L", "c")])
        return {k: (k, to_np(z)) for k, z in dict(S=S, v=v, K=K, d=d, A=A, b=b, C=C, x=x, u=u).items()}

    def body(rng, i):
        tens = i % 5 == 4
        inv = i % 5 == 1
        P = o.rand_prob(rng, *SH[:3]) if tens else o.rand_prob(rng, invariant=inv or None, homogeneous=inv)
        st = SH[3] if tens else int(rng.integers(1, 20))
        P.T = min(P.T, 0.4 * st / o.rate(P))
        ctx.note(n=P.n, m=P.m, p=P.p, steps=st, tensor=tens, digest=P.digest())
        o.same_in_units(ctx, rng, P, (lambda Q: tensor(Q, st)) if tens else (lambda Q: sequential(Q, st, inv)), rtol=1e-8)
    ctx.cases(60, 600, body)


GROUPS = dict(long=g_long, units=g_units, np=g_np, sub=g_sub, held=g_held, clqr=g_clqr, tf=g_tf, tf32=g_tf32)
