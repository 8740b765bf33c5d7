"""C09: time-invariant regulator."""
import numpy as np
from vf.core import big_dims
from vf import oracles_lq as Q
from vf.checks.c05 import sc
from vf.core import Skip


def draw(rng, i=0):
    for _ in range(100):
        n, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 4)), hi=16)
        F = Q.rand_F(rng, n, str(rng.choice(["plain", "orth", "integrator", "unstable", "singular"])))
        L = rng.normal(size=(n, m))
        X = Q.spd(rng, n, 0.1, 2.0) if rng.uniform() < 0.6 else Q.psd(rng, n, int(rng.integers(1, n + 1)))
        U = Q.spd(rng, m)
        if rng.uniform() < 0.25:
            # sparse structure: a chain driven at one end and penalized at another, or a
            # delay line, so that exact zeros persist for several iterations
            F = np.eye(n, k=1) * float(rng.choice([0.5, 1.0])) + (np.eye(n) * float(rng.choice([0.5, 1.0])) if rng.uniform() < 0.7 else 0.0)
            L = np.zeros((n, m))
            L[n - 1 - np.arange(min(n, m)), np.arange(min(n, m))] = 1.0
            X = np.zeros((n, n))
            j = int(rng.integers(n)) if rng.uniform() < 0.4 else 0
            X[j, j] = 1.0
        XT = Q.spd(rng, n) if rng.uniform() < 0.5 else Q.psd(rng, n, int(rng.integers(0, n + 1)))
        yield n, m, F, L, X, U, XT


def problem(F, L, X, U, XT, T):
    n, m = L.shape
    return dict(F=[F] * T, c=[np.zeros(n)] * T, L=[L] * T, X=[X] * T, U=[U] * T, M=[np.zeros((n, m))] * T, H=[np.eye(n)] * T,
                r=[np.zeros(n)] * T, Z=[np.eye(m)] * T, s=[np.zeros(m)] * T, HT=np.eye(n), XT=XT, rT=np.zeros(n))


def group_finite(ctx):
    from parallel_control.lqt_np import LQR

    def body(rng, i):
        T = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33][i % 15]
        for n, m, F, L, X, U, XT in draw(rng, i):
            pr = problem(F, L, X, U, XT, T)
            sol = Q.dp(pr)
            if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e6:
                break
        else:
            raise Skip()
        lq = LQR(F, L, X, U, XT)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        for lab, bw, rt in (("seq", lq.seqBackwardPass, 1e-9), ("par", lq.parBackwardPass, 1e-8)):
            K, S = ctx.call(lab + "BackwardPass", bw, T)
            ctx.true(lab + ":len", len(K) == T and len(S) == T + 1, "lengths %d %d T=%d" % (len(K), len(S), T), abort=True)
            ctx.close(lab + ":S", np.array(S), np.array(sol["S"]), rtol=rt, scale=sc(sol["S"]))
            ctx.close(lab + ":K", np.array(K), np.array(sol["K"]), rtol=rt, scale=sc(sol["K"], sol["S"]))
            for fl, fw in (("seqForwardPass", lq.seqForwardPass), ("parForwardPass", lq.parForwardPass)):
                us, xs = ctx.call(fl, fw, x0, K)
                ctx.close("%s_%s:x" % (lab, fl), np.array(xs), np.array(xr), rtol=rt * 10, scale=sc(xr, ur))
                ctx.close("%s_%s:u" % (lab, fl), np.array(us), np.array(ur), rtol=rt * 10, scale=sc(xr, ur))
        # arbitrary gain schedules
        Ka = [rng.normal(size=(m, n)) * 0.3 for _ in range(T)]
        xa, ua = Q.roll(pr, x0, Ka, [np.zeros(m)] * T)
        if sc(xa) < 1e5:
            for fl, fw in (("seqForwardPass", lq.seqForwardPass), ("parForwardPass", lq.parForwardPass)):
                us, xs = ctx.call(fl, fw, x0, Ka)
                ctx.close("any_%s:x" % fl, np.array(xs), np.array(xa), rtol=1e-9, scale=sc(xa, ua))
                ctx.close("any_%s:u" % fl, np.array(us), np.array(ua), rtol=1e-9, scale=sc(xa, ua))
        ctx.note(T=T, n=n, m=m, digest=[F, L, X, U, XT])
    ctx.cases(600, 5000, body)


def psqrt(X):
    w, v = np.linalg.eigh(0.5 * (X + X.T))
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def value_at(F, L, X, U, S0, steps):
    """Cost-to-go after `steps` stages starting from terminal S0 (Schur complements)."""
    n, m = L.shape
    S, K = S0, None
    for _ in range(steps):
        W = np.block([[X + F.T @ S @ F, F.T @ S @ L], [L.T @ S @ F, U + L.T @ S @ L]])
        K = np.linalg.solve(W[n:, n:], W[n:, :n])
        S = W[:n, :n] - W[:n, n:] @ K
        S = 0.5 * (S + S.T)
    return K, S


def gain(F, L, U, S):
    return np.linalg.solve(U + L.T @ S @ L, L.T @ S @ F)


def group_iter(ctx):
    from parallel_control.lqt_np import LQR

    def body(rng, i):
        for n, m, F, L, X, U, XT in draw(rng, i):
            # the doubling iteration composes open-loop intervals: keep their growth bounded
            nd = int(rng.integers(0, 6))
            pr = problem(F, L, X, U, np.zeros((n, n)), max(1, 2 ** nd))
            sol = Q.dp(pr)
            if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e6:
                break
        else:
            raise Skip()
        lq = LQR(F, L, X, U, XT)
        ni = int(rng.integers(0, 25))
        Ki, Si = ctx.call("lqrIter", lq.lqrIter, ni)
        # n iterations stand for n+1 stages ahead of a zero terminal cost
        _, Sref = value_at(F, L, X, U, X, ni)
        ctx.close("iter:S", Si, Sref, rtol=1e-9, scale=sc(Sref))
        if ni:
            _, Sprev = value_at(F, L, X, U, X, ni - 1)
            ctx.close("iter:K", Ki, gain(F, L, U, Sprev), rtol=1e-9, scale=sc(Sref))
        Kd, Sd = ctx.call("lqrDouble", lq.lqrDouble, nd)
        _, Sref = value_at(F, L, X, U, np.zeros((n, n)), 2 ** nd)
        ctx.close("double:S", Sd, Sref, rtol=1e-8, scale=sc(Sref))
        ctx.close("double:K", Kd, gain(F, L, U, Sref), rtol=1e-8, scale=sc(Sref))
        _, S2 = ctx.call("lqrIter", lq.lqrIter, 2 ** nd - 1)
        ctx.close("double_vs_iter", Sd, S2, rtol=1e-8, scale=sc(Sref))
        ctx.note(ni=ni, nd=nd, n=n, m=m, digest=[F, L, X, U])
    ctx.cases(600, 5000, body)


def group_stationary(ctx):
    from parallel_control.lqt_np import LQR

    def body(rng, i):
        for n, m, F, L, X, U, XT in draw(rng):
            # controllable and observable enough for a well-conditioned stationary problem
            cm = np.hstack([np.linalg.matrix_power(F, k) @ L for k in range(n)])
            om = np.vstack([psqrt(X) @ np.linalg.matrix_power(F, k) for k in range(n)])
            if np.linalg.svd(cm, compute_uv=False)[n - 1] < 0.05 or np.linalg.svd(om, compute_uv=False)[n - 1] < 0.05:
                continue
            _, S = value_at(F, L, X, U, X, 600)
            if sc(S) < 1e3:
                break
        else:
            raise Skip()
        lq = LQR(F, L, X, U, XT)
        K, S0 = ctx.call("lqrDare", lq.lqrDare)
        rho = np.abs(np.linalg.eigvals(F - L @ gain(F, L, U, S))).max()
        if rho > 0.95:
            raise Skip()
        ctx.close("dare:S", S0, S, rtol=1e-7, scale=sc(S))
        ctx.close("dare:K", K, gain(F, L, U, S), rtol=1e-7, scale=sc(S))
        R = F.T @ S0 @ F - F.T @ S0 @ L @ np.linalg.solve(U + L.T @ S0 @ L, L.T @ S0 @ F) + X
        ctx.close("dare:residual", R, S0, rtol=1e-8, scale=sc(S))
        ctx.true("dare:stabilizing", np.abs(np.linalg.eigvals(F - L @ K)).max() < 1 - 1e-6)
        # enough iterations converge to it
        it = int(np.ceil(np.log(1e-13) / (2 * np.log(max(rho, 0.05))))) + 20
        Ki, Si = ctx.call("lqrIter", lq.lqrIter, it)
        ctx.close("iter:limit", Si, S, rtol=1e-8, scale=sc(S))
        ctx.close("iter:limitK", Ki, gain(F, L, U, S), rtol=1e-8, scale=sc(S))
        nd = int(np.ceil(np.log2(it)))
        pr = problem(F, L, X, U, XT, 2 ** nd)
        if Q.par_cond(pr, dict(S=[S])) < 1e7:
            Kd, Sd = ctx.call("lqrDouble", lq.lqrDouble, nd)
            ctx.close("double:limit", Sd, S, rtol=1e-7, scale=sc(S))
            ctx.close("double:limitK", Kd, gain(F, L, U, S), rtol=1e-7, scale=sc(S))
        # long finite horizon approaches it too, from any terminal cost
        Kl, Sl = ctx.call("seqBackwardPass", lq.seqBackwardPass, it + 20)
        ctx.close("finite:limit", Sl[0], S, rtol=1e-6, scale=sc(S, XT))
        ctx.note(n=n, m=m, iters=it, digest=[F, L, X, U])
    ctx.cases(200, 2000, body)


def group_long(ctx):
    """Hundreds of steps/iterations, also for strongly unstable open loops."""
    from parallel_control.lqt_np import LQR

    def body(rng, i):
        T = int(rng.integers(150, 500))
        for _ in range(50):
            n, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
            F = rng.normal(size=(n, n))
            F *= float(rng.choice([0.9, 1.0, 1.3, 2.0, 3.0])) / max(np.abs(np.linalg.eigvals(F)).max(), 0.05)
            L = rng.normal(size=(n, m))
            X, U, XT = Q.spd(rng, n), Q.spd(rng, m), Q.spd(rng, n)
            pr = problem(F, L, X, U, XT, T)
            sol = Q.dp(pr)
            if Q.well_posed(sol, 1e4, sens=2e3):
                break
        else:
            raise Skip()
        lq = LQR(F, L, X, U, XT)
        K, S = ctx.call("seqBackwardPass", lq.seqBackwardPass, T)
        ctx.close("long:S", np.array(S), np.array(sol["S"]), rtol=1e-8, scale=sc(sol["S"]))
        ctx.close("long:K", np.array(K), np.array(sol["K"]), rtol=1e-8, scale=sc(sol["K"], sol["S"]))
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0, K)
        ctx.close("long:x", np.array(xs), np.array(xr), rtol=1e-7, scale=sc(xr, ur))
        Ki, Si = ctx.call("lqrIter", lq.lqrIter, T)
        _, Sref = value_at(F, L, X, U, X, T)
        ctx.close("long:iterS", Si, Sref, rtol=1e-8, scale=sc(Sref))
        ctx.close("long:iterK", Ki, gain(F, L, U, Sref), rtol=1e-7, scale=sc(Sref))
        ctx.note(T=T, n=n, m=m, digest=[F, L, X, U])
        ctx.feature("rho>1.5" if np.abs(np.linalg.eigvals(F)).max() > 1.5 else "rho<=1.5")
    ctx.cases(60, 800, body)


def group_units(ctx):
    """Same regulators in other units of states, controls and costs."""
    from parallel_control.lqt_np import LQR

    def body(rng, i):
        T = int(rng.integers(1, 20))
        nd = int(rng.integers(0, 5))
        for n, m, F, L, X, U, XT in draw(rng, i):
            pr = problem(F, L, X, U, XT, max(T, 2 ** nd))
            sol = Q.dp(pr)
            if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e6:
                break
        else:
            raise Skip()
        pr = problem(F, L, X, U, XT, T)
        sol = Q.dp(pr)
        un = Q.Units(rng, zt=True)
        a, s, t = un.a, un.s, un.t
        lq = LQR(F, L * (t / s), X * (a * s * s), U * (a * t * t), XT * (a * s * s))
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        for lab, bw, fw in (("seq", lq.seqBackwardPass, lq.seqForwardPass), ("par", lq.parBackwardPass, lq.parForwardPass)):
            K, S = ctx.call(lab + "BackwardPass", bw, T)
            us, xs = ctx.call(lab + "ForwardPass", fw, x0 / s, K)
            K, S = un.back(K=K, S=S)
            ctx.close("units_%s:S" % lab, S, np.array(sol["S"]), rtol=1e-8, scale=sc(sol["S"]))
            ctx.close("units_%s:K" % lab, K, np.array(sol["K"]), rtol=1e-8, scale=sc(sol["K"], sol["S"]))
            ctx.close("units_%s:x" % lab, np.array(xs) * s, np.array(xr), rtol=1e-8, scale=sc(xr, ur))
            ctx.close("units_%s:u" % lab, np.array(us) * t, np.array(ur), rtol=1e-8, scale=sc(xr, ur))
        ni = int(rng.integers(1, 25))
        K, S = un.back(K=(r := ctx.call("lqrIter", lq.lqrIter, ni))[0], S=r[1])
        Kp, Sp = value_at(F, L, X, U, X, ni)
        ctx.close("units:iterS", S, Sp, rtol=1e-8, scale=sc(Sp))
        ctx.close("units:iterK", K, Kp, rtol=1e-8, scale=sc(Sp))
        K, S = un.back(K=(r := ctx.call("lqrDouble", lq.lqrDouble, nd))[0], S=r[1])
        _, Sp = value_at(F, L, X, U, np.zeros((n, n)), 2 ** nd)
        ctx.close("units:doubleS", S, Sp, rtol=1e-8, scale=sc(Sp))
        ctx.close("units:doubleK", K, gain(F, L, U, Sp), rtol=1e-8, scale=sc(Sp))
        ctx.note(T=T, ni=ni, nd=nd, n=n, m=m, digest=[F, L, X, U], **un.note())
    ctx.cases(300, 3000, body)


GROUPS = dict(units=group_units, long=group_long, finite=group_finite, iter=group_iter, stationary=group_stationary)
