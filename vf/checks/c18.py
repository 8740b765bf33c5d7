"""C18: model builders and data generators."""
import math

import numpy as np

from vf.core import Skip, to_np


def unicycle(x, u, dt):
    return np.array([x[0] + x[3] * np.cos(x[2]) * dt, x[1] + x[3] * np.sin(x[2]) * dt, x[2] + u[1] * dt, x[3] + u[0] * dt])


def cdiff(fn, z, h=1e-5):
    """Fourth-order central differences, one column per coordinate."""
    cols = []
    for j in range(len(z)):
        e = np.zeros(len(z))
        e[j] = h * max(1.0, abs(z[j]))
        cols.append((8 * (fn(z + e) - fn(z - e)) - (fn(z + 2 * e) - fn(z - 2 * e))) / (12 * e[j]))
    return np.stack(cols, axis=1)


def g_unicycle(ctx):
    """Dynamics, derivatives (against differences of the code's own dynamics) and array/tensor agreement."""
    import tensorflow as tf
    import parallel_control.nonlinear_model_tf as mt
    from parallel_control.nonlinear_model_np import NonlinearModel

    def body(rng, i):
        dt = 0.1 if i % 3 == 0 else float(np.exp(rng.uniform(-5, 1)))
        N = int(rng.integers(1, 20))
        mag = float(rng.choice([0.1, 1.0, 10.0, 100.0]))
        xs = rng.normal(size=(N, 4)) * mag
        us = rng.normal(size=(N, 2)) * float(rng.choice([0.1, 1.0, 20.0]))
        if i % 5 == 0:
            xs[0, 2] = float(rng.choice([0.0, np.pi, np.pi / 2, -np.pi, 2 * np.pi]))
            xs[0, 3] = 0.0
        if i % 7 == 0:
            xs, us = np.round(xs), np.round(us)
        model = ctx.call("NonlinearModel", NonlinearModel, dt=dt) if dt != 0.1 else ctx.call("NonlinearModel", NonlinearModel)
        kw = {} if dt == 0.1 else dict(dt=dt)
        a = (tf.constant(xs), tf.constant(us))
        tfx, tFx, tFu = (ctx.call(nm, getattr(mt, nm), *a, **kw) for nm in
                         ("nonlinear_model_f", "nonlinear_model_Fx", "nonlinear_model_Fu"))
        fx = np.array([ctx.call("f", model.f, x, u) for x, u in zip(xs, us)])
        Fx = np.array([ctx.call("Fx", model.Fx, x, u) for x, u in zip(xs, us)])
        Fu = np.array([ctx.call("Fu", model.Fu, x, u) for x, u in zip(xs, us)])
        sc = 1 + np.abs(xs).max() + np.abs(us).max()
        ctx.close("dynamics", fx, np.array([unicycle(x, u, dt) for x, u in zip(xs, us)]), rtol=1e-13, scale=sc)
        ctx.close("tensor dynamics", tfx, fx, rtol=1e-13, scale=sc)
        # derivatives of the very same functions the solvers see
        for k in range(min(N, 6)):
            tol = 1e-8 * sc * (1 + dt)
            ctx.close("dF/dx", Fx[k], cdiff(lambda z: model.f(z, us[k]), xs[k]), rtol=0, atol=tol)
            ctx.close("dF/du", Fu[k], cdiff(lambda z: model.f(xs[k], z), us[k]), rtol=0, atol=tol)
            ctx.close("tensor dF/dx", tFx[k], cdiff(lambda z: to_np(mt.nonlinear_model_f(tf.constant(z[None]), a[1][k:k + 1], **kw))[0], xs[k]), rtol=0, atol=tol)
        ctx.close("Fx agree", tFx, Fx, rtol=1e-13, scale=sc)
        ctx.close("Fu agree", tFu, Fu, rtol=1e-13, scale=sc)
        ctx.note(N=N, dt=dt, mag=mag, digest=[xs, us])
    ctx.cases(150, 3000, body)


def g_track(ctx):
    """Generated data and tracking problems of the unicycle model."""
    from parallel_control.nonlinear_model_np import NonlinearModel

    def curve(N):
        t = np.linspace(0, 2 * np.pi, N)
        return 7 + 4 * np.cos(t) + 2 * np.sin(2 * t) + 2 * np.cos(3 * t), 7 + 3 * np.sin(t) - np.sin(2 * t) + 2 * np.sin(3 * t)

    def body(rng, i):
        steps = int(rng.integers(1, 12))
        N = int(rng.integers(2, 160))
        dt = float(rng.uniform(0.01, 0.5))
        model = NonlinearModel(dt=dt, seed=int(rng.integers(1000)))
        if steps == 10 and i % 2:
            xyt, dense = ctx.call("genData", model.genData, N)
        else:
            xyt, dense = ctx.call("genData", model.genData, N, steps)
        x, y = curve(N)
        ctx.close("curve", dense[:2], np.stack([x, y]), rtol=1e-12)
        dx, dy = np.diff(x), np.diff(y)
        ctx.close("heading", np.stack([np.cos(dense[2, :-1]), np.sin(dense[2, :-1])]) * np.hypot(dx, dy), np.stack([dx, dy]), rtol=1e-10)
        ctx.close("last heading", dense[2, -1], dense[2, -2], rtol=1e-10)
        ctx.true("heading continuous", np.abs(np.diff(dense[2])).max() <= np.pi + 1e-9)
        ctx.close("thinned data", xyt, dense[:, ::steps], rtol=0, atol=0)
        ctx.close("reproducible", model.genData(N, steps)[1], dense, rtol=0, atol=0)
        if N > 60:
            xyt = xyt[:, :8]
        n = xyt.shape[1]
        ps = int(rng.integers(1, 14))
        if ps == 10 and i % 2 == 0:
            lqt, x0 = ctx.call("getLQT", model.getLQT, xyt)
        else:
            lqt, x0 = ctx.call("getLQT", model.getLQT, xyt, ps)
        T = n * ps
        H = np.eye(3, 4)
        ctx.close("x0", x0, np.append(xyt[:, 0], 0.0), rtol=0, atol=0)
        for nm in ("F", "L", "X", "U", "H", "r", "c", "Z", "s", "M"):
            ctx.true("length " + nm, len(getattr(lqt, nm)) == T, "%s has %d entries, expected %d" % (nm, len(getattr(lqt, nm)), T), abort=True)
        for k in range(T):
            obs = k % ps == 0
            ctx.close("weight", lqt.X[k], np.diag([100.0, 100.0, 1000.0]) if obs else 1e-6 * np.eye(3), rtol=0, atol=0)
            ctx.close("reference", lqt.r[k], xyt[:, k // ps], rtol=0, atol=0)
            ctx.close("output", lqt.H[k], H, rtol=0, atol=0)
            ctx.close("control weight", lqt.U[k], np.diag([1.0, 100.0]), rtol=0, atol=0)
            ctx.true("no cross terms", not np.any(lqt.M[k]) and not np.any(lqt.s[k]) and np.array_equal(lqt.Z[k], np.eye(2)))
        ctx.close("HT", lqt.HT, H, rtol=0, atol=0)
        ctx.close("XT", lqt.XT, 1e-6 * np.eye(3), rtol=0, atol=0)
        ctx.close("rT", lqt.rT, xyt[:, -1], rtol=0, atol=0)
        for zero in (True, False):
            u, xg = ctx.call("initialGuess", model.initialGuess, lqt, x0, zero)
            ctx.true("guess lengths", len(u) == T and len(xg) == T + 1, abort=True)
            ctx.close("guess start", xg[0], x0, rtol=0, atol=0)
            ctx.true("guess controls", not np.any(np.array(u)) and np.array(u).shape == (T, 2))
            g = np.array(xg[1:])
            if zero:
                ctx.true("zero guess", not np.any(g) and g.shape == (T, 4))
            else:
                ctx.close("tracking guess", g[:, :3], np.array(lqt.r), rtol=0, atol=0)
                ctx.true("guess speed", np.all(np.isfinite(g)) and np.all(g[:, 3] >= 0))
        ctx.note(N=N, steps=steps, ps=ps, dt=dt)
    ctx.cases(80, 800, body)


def g_grid1d(ctx):
    """The scalar models: array and tensor versions, dense samples, both precisions."""
    import jax.numpy as jnp
    import tensorflow as tf
    import parallel_control.cnonlin_models_np as mn
    import parallel_control.cnonlin_models_tf as mt
    spec = dict(linear_model=(lambda x, u: x + u, lambda x, u: .5 * x * x + .5 * u * u, lambda x: x * x, 2.0, (-2., 2.)),
                velocity_model=(lambda x, u: 1 - .1 * x * x + u, lambda x, u: .5 * x * x + .5 * u * u, lambda x: 2 * x * x, 3.0, (-2., 2.)),
                upwind_model=(lambda x, u: u * x, lambda x, u: 0 * x, lambda x: -x, 1.0, (0., 1.)))

    def body(rng, i):
        nm = list(spec)[i % 3]
        f0, L0, LT0, xr, ur = spec[nm]
        nx, nu = int(rng.integers(2, 240)), int(rng.integers(2, 90))
        single = i % 4 == 3
        if i % 9 == 0:
            A, B, nx, nu = ctx.call(nm, getattr(mn, nm)), ctx.call(nm, getattr(mt, nm)), 100, 100
            single = False
        else:
            A = ctx.call(nm, getattr(mn, nm), nx, nu, dtype=jnp.float32 if single else jnp.float64)
            B = ctx.call(nm, getattr(mt, nm), nx, nu, dtype=tf.float32 if single else tf.float64)
        tol = 2e-6 if single else 1e-13
        N = 40
        x = rng.uniform(-1.5 * xr, 1.5 * xr, size=N)
        u = rng.uniform(ur[0] - 1, ur[1] + 1, size=N)
        if i % 5 == 0:
            x[:3], u[:3] = [0.0, xr, -xr], [0.0, 1.0, -1.0]
        dt = np.float32 if single else np.float64
        x, u = x.astype(dt), u.astype(dt)
        for lab, (f, L, LT, T, xg, ug), conv in (("array", A, jnp.asarray), ("tensor", B, tf.constant)):
            X, U = conv(x), conv(u)
            ctx.close(lab + " f", f(X, U), f0(x, u), rtol=tol)
            ctx.close(lab + " L", to_np(L(X, U)) + np.zeros(N), L0(x, u), rtol=tol, atol=1e-12)
            ctx.close(lab + " LT", LT(X), LT0(x), rtol=tol)
            ctx.close(lab + " T", float(T), 1.0, rtol=0, atol=0)
            ctx.close(lab + " x grid", xg, np.linspace(-xr, xr, nx), rtol=tol)
            ctx.close(lab + " u grid", ug, np.linspace(ur[0], ur[1], nu), rtol=tol)
            ctx.true(lab + " precision", to_np(xg).dtype == dt and to_np(ug).dtype == dt, "%s/%s" % (to_np(xg).dtype, to_np(ug).dtype))
        ctx.note(model=nm, nx=nx, nu=nu, single=single, digest=[x, u])
    ctx.cases(150, 3000, body)

    def block(rng, i):
        nx = int(rng.integers(2, 80))
        if i % 3 == 0:
            xg = np.linspace(-1, 1, nx)
        elif i % 3 == 1:
            xg = np.sort(rng.uniform(-2, 2, size=nx))
        else:
            xg = np.sort(np.append(rng.uniform(-1, 1, size=nx - 1), 0.0))
        dt = float(np.exp(rng.uniform(-7, 1)))
        inf = float(rng.choice([1e5, 1e20, 7.0]))
        a = np.exp(dt)
        x0, xf = xg[:, None], xg[None, :]
        lo, hi = np.minimum(x0, a * x0), np.maximum(x0, a * x0)
        edge = np.minimum(np.abs(xf - a * x0), 1) < 1e-12
        want = np.where((xf >= lo) & (xf <= hi), 0.0, inf)
        for lab, mod, conv in (("array", mn, jnp.asarray), ("tensor", mt, tf.constant)):
            V = to_np(ctx.call("upwind_model_block_V", mod.upwind_model_block_V, inf, dt if lab == "array" else tf.constant(dt, tf.float64), conv(xg)))
            ctx.true(lab + " block shape", V.shape == want.shape, "shape %s" % (V.shape,), abort=True)
            ctx.close(lab + " block V", np.where(edge & (x0 != 0), want, V), want, rtol=0, atol=0)
        ctx.feature("reachable", int((want == 0).sum()))
        ctx.note(nx=nx, dt=dt, inf=inf, digest=xg)
    ctx.cases(90, 2000, block, tag="b")


def g_linear(ctx):
    """Constant velocity tracking model: data, discrete problem, continuous problem in both implementations."""
    import tensorflow as tf
    import parallel_control.linear_model_tf as mt
    from parallel_control.linear_model_np import LinearModel

    def body(rng, i):
        seed = int(rng.integers(1 << 31))
        N = int(rng.integers(1, 400 if i % 3 == 0 else 30))
        model = ctx.call("LinearModel", LinearModel, seed) if i % 5 else ctx.call("LinearModel", LinearModel)
        xy = ctx.call("genData", model.genData, N)
        ctx.true("data shape", xy.shape == (2, N), "shape %s" % (xy.shape,), abort=True)
        ctx.true("data range", np.all(xy > 0.0) and np.all(xy < 10.0), "range %s..%s" % (xy.min(), xy.max()))
        if N > 1:
            ctx.close("unit steps", np.hypot(*np.diff(xy, axis=1)), np.ones(N - 1), rtol=1e-9)
        np.random.seed(int(rng.integers(1000)))
        again = (LinearModel(seed) if i % 5 else LinearModel(123)).genData(N)
        ctx.close("reproducible", again, xy, rtol=0, atol=0)
        ctx.close("reproducible from the same object", model.genData(N), xy, rtol=0, atol=0)
        ctx.close("prefix", model.genData(N + 3)[:, :N], xy, rtol=0, atol=0)
        if N > 3:
            ctx.true("seed matters", not np.array_equal(LinearModel(seed + 1).genData(N), xy))
        full, xy = xy, xy[:, :6]
        n = xy.shape[1]
        if i % 2 == 0:
            # the whole data set, more steps: only what depends on the time index
            m = int(rng.integers(1, min(N, 120 if i % 8 == 0 else 25) + 1))
            steps = int(rng.integers(1, 120 if m < 25 else 30))
            long = ctx.call("getLQT", model.getLQT, full[:, :m], steps)[0]
            ctx.close("long reference", np.array(long.r), np.repeat(full[:, :m], steps, axis=1).T, rtol=0, atol=0)
            w = np.full(m * steps, 1e-6)
            w[::steps] = 100.0
            ctx.close("long weights", np.array(long.X), w[:, None, None] * np.eye(2), rtol=0, atol=0)
            ctx.true("long horizon", all(len(getattr(long, nm)) == m * steps for nm in "FLXUHcZsM"))
        steps = int(rng.integers(1, 25))
        lqt, x0 = ctx.call("getLQT", model.getLQT, xy, steps) if steps != 10 else ctx.call("getLQT", model.getLQT, xy)
        h, T = 1.0 / steps, n * steps
        F = np.eye(4) + h * np.eye(4, k=2)
        L = np.vstack([0.5 * h * h * np.eye(2), h * np.eye(2)])
        for nm in ("F", "L", "X", "U", "H", "r", "c", "Z", "s", "M"):
            ctx.true("length " + nm, len(getattr(lqt, nm)) == T, "%s has %d entries, expected %d" % (nm, len(getattr(lqt, nm)), T), abort=True)
        for k in range(T):
            ctx.close("F", lqt.F[k], F, rtol=1e-12)
            ctx.close("L", lqt.L[k], L, rtol=1e-12)
            ctx.close("X", lqt.X[k], (100.0 if k % steps == 0 else 1e-6) * np.eye(2), rtol=0, atol=0)
            ctx.close("r", lqt.r[k], xy[:, k // steps], rtol=0, atol=0)
            ctx.close("U", lqt.U[k], 0.1 * np.eye(2), rtol=0, atol=0)
            ctx.close("H", lqt.H[k], np.eye(2, 4), rtol=0, atol=0)
            ctx.true("no extra terms", not (np.any(lqt.M[k]) or np.any(lqt.s[k]) or np.any(lqt.c[k])) and np.array_equal(lqt.Z[k], np.eye(2)))
        ctx.close("XT", lqt.XT, np.eye(4), rtol=0, atol=0)
        ctx.close("HT", lqt.HT, np.eye(4), rtol=0, atol=0)
        ctx.close("rT", lqt.rT, np.append(xy[:, -1], [0, 0]), rtol=0, atol=0)
        ctx.close("x0", x0, np.append(xy[:, 0], [0, 0]), rtol=0, atol=0)
        ctx.note(seed=seed, N=N, steps=steps)
    ctx.cases(150, 1500, body)

    def cont(rng, i):
        clqt, x0 = ctx.call("getCLQT", LinearModel(int(rng.integers(99))).getCLQT)
        dt = tf.float32 if i % 4 == 3 else tf.float64
        tol = 3e-5 if dt == tf.float32 else 1e-12
        out = ctx.call("get_clqt", mt.get_clqt, dt) if dt != tf.float64 or i % 2 else ctx.call("get_clqt", mt.get_clqt)
        tx0, T, XT, HT, rT, F, L, X, U, c, H, r = out
        for nm, a, b in (("x0", tx0, x0), ("T", T, clqt.T), ("XT", XT, clqt.XT), ("HT", HT, clqt.HT), ("rT", rT, clqt.rT)):
            ctx.close("clqt " + nm, a, b, rtol=tol)
        A = np.eye(4, k=2)
        B = np.vstack([np.zeros((2, 2)), np.eye(2)])
        want = dict(F=A, L=B, X=np.eye(2), U=0.1 * np.eye(2), c=np.zeros(4), H=np.eye(2, 4))
        for t in rng.uniform(-5.0, 80.0, size=12):
            t = float(t)
            tt = tf.constant(t, dtype=dt)
            for nm, fn in (("F", F), ("L", L), ("X", X), ("U", U), ("c", c), ("H", H)):
                ctx.close("array " + nm, getattr(clqt, nm)(t), want[nm], rtol=1e-14)
                ctx.close("tensor " + nm, fn(tt), want[nm], rtol=tol, atol=tol)
            ctx.close("reference curve", r(tt), clqt.r(t), rtol=tol)
            # six harmonics of a 50 s period and nothing else
            tau = np.arange(40) * 50 / 40.0
            co = np.fft.rfft(np.array([clqt.r(v) for v in tau]), axis=0)
            ctx.true("curve is band limited and periodic", np.abs(co[7:]).max() < 1e-8 and np.allclose(clqt.r(t), clqt.r(t + 50.0), atol=1e-8))
        ctx.close("curve starts near the data", clqt.r(0.0), x0[:2], rtol=0, atol=6.0)
        ctx.note(single=dt == tf.float32, t=float(t))
    ctx.cases(24, 200, cont, tag="c")


def g_mass(ctx):
    from parallel_control.mass_model_np import MassModel

    def body(rng, i):
        N = int(rng.integers(1, 13))
        model = ctx.call("MassModel", MassModel, N) if N != 5 else ctx.call("MassModel", MassModel)
        # force balance on random configurations: m=1, c=1, d=0.2, walls on both sides
        for _ in range(4):
            y, v, u = rng.normal(size=N), rng.normal(size=N), rng.normal(size=2)
            x = np.empty(2 * N)
            x[0::2], x[1::2] = y, v
            dx = model.Fc @ x + model.Lc @ u
            yp, vp = np.pad(y, 1), np.pad(v, 1)
            acc = (yp[:-2] - 2 * yp[1:-1] + yp[2:]) + 0.2 * (vp[:-2] - 2 * vp[1:-1] + vp[2:])
            acc[0] += u[0]
            acc[-1] -= u[1]
            ctx.close("velocities", dx[0::2], v, rtol=1e-13)
            ctx.close("forces", dx[1::2], acc, rtol=1e-12)
        ctx.true("stable chain", np.linalg.eigvals(model.Fc).real.max() < 0)
        steps = int(rng.integers(1, 120))
        dt = [0.005, 0.1, 0.02, 0.3, float(rng.uniform(0.001, 0.2))][int(rng.integers(5))]
        Tf = steps * dt
        if i % 4 == 0:
            Tf = float("%.10g" % Tf)        # as one would type it
        if i % 17 == 0:
            lqt, x0 = ctx.call("getLQT", model.getLQT)
            steps, dt = 2000, 0.005
        else:
            lqt, x0 = ctx.call("getLQT", model.getLQT, dt, Tf)
        ctx.true("horizon", len(lqt.F) == steps, "dt=%r Tf=%r gives %d steps, expected %d" % (dt, Tf, len(lqt.F), steps), abort=True)
        # exact sampling: compare with a fine independent integration of the chain
        n = 2 * N
        E = np.zeros((n + 2, n + 2))
        E[:n, :n], E[:n, n:] = model.Fc, model.Lc
        P, term, s = np.eye(n + 2), np.eye(n + 2), 10
        for k in range(1, 20):
            term = term @ (E * dt / 2 ** s) / k
            P = P + term
        for _ in range(s):
            P = P @ P
        k = int(rng.integers(steps))
        ctx.close("F", lqt.F[k], P[:n, :n], rtol=1e-9)
        ctx.close("L", lqt.L[k], P[:n, n:], rtol=1e-9, atol=1e-12)
        for nm in ("L", "X", "U", "H", "r", "c", "Z", "s", "M"):
            ctx.true("length " + nm, len(getattr(lqt, nm)) == steps)
        ctx.close("X", lqt.X[k], np.eye(n), rtol=0, atol=0)
        ctx.close("U", lqt.U[k], 0.1 * np.eye(2), rtol=0, atol=0)
        ctx.close("XT", lqt.XT, np.eye(n), rtol=0, atol=0)
        ctx.close("H", lqt.H[k], np.eye(n), rtol=0, atol=0)
        ctx.close("HT", lqt.HT, np.eye(n), rtol=0, atol=0)
        ctx.true("zero reference", not (np.any(lqt.r[k]) or np.any(lqt.rT) or np.any(lqt.c[k]) or np.any(lqt.M[k]) or np.any(lqt.s[k])))
        want = np.zeros(n)
        want[0] = 1
        want[2 * (N // 2) if N % 2 == 0 else N - 1] = 1
        ctx.close("displaced masses", x0, want, rtol=0, atol=0)
        ctx.note(N=N, dt=dt, steps=steps)
    ctx.cases(200, 2000, body)


def g_game(ctx):
    from parallel_control.finite_model_np import FiniteModel
    mask = {-2: 0.5, -1: 0.3, 0: 0.1, 1: 0.3, 2: 0.5}

    def body(rng, i):
        seed = int(rng.integers(1 << 31))
        T = int(rng.integers(1, 40))
        nx = int(rng.integers(1, 9)) if i % 3 else int(rng.integers(9, 40))
        model = ctx.call("FiniteModel", FiniteModel, seed) if i % 5 else ctx.call("FiniteModel", FiniteModel)
        if i % 5 == 0:
            seed = 123
        if i % 11 == 0:
            nx = 21
            track, x0 = ctx.call("genData", model.genData, T)
        else:
            track, x0 = ctx.call("genData", model.genData, T, nx)
        ctx.true("scene shape", track.shape == (nx, T), abort=True)
        ctx.true("scene range", np.all(track > 0) and np.all(track <= 1))
        ctx.true("start in range", 0 <= x0 < nx and x0 == nx // 2)
        np.random.seed(int(rng.integers(1000)))
        t2, s2 = FiniteModel(seed).genData(T, nx)
        ctx.true("reproducible", s2 == x0 and np.array_equal(t2, track))
        ctx.true("reproducible from the same object", np.array_equal(model.genData(T, nx)[0], track))
        # the scene must be explained by two walks that move one cell at a time
        col = np.array([[mask.get(y - x, 1.0) for y in range(nx)] for x in range(nx)])
        alive = {(x0, x0)}
        for k in range(T):
            alive = {(a + da, b + db) for a, b in alive for da in (-1, 0, 1) for db in (-1, 0, 1)
                     if 0 <= a + da < nx and 0 <= b + db < nx
                     and np.allclose(col[a + da] * col[b + db], track[:, k], rtol=1e-9)}
            if not alive:
                break
        ctx.true("scene is two walks", bool(alive), "column %d is not explained by two random walks" % k)
        fsc = ctx.call("getFSC", model.getFSC, track)
        ctx.true("lengths", len(fsc.f) == T and len(fsc.L) == T, abort=True)
        xs = np.arange(nx)
        f0 = np.stack([np.clip(xs - 1, 0, nx - 1), xs, np.clip(xs + 1, 0, nx - 1)], axis=1)
        for k in range(T):
            ctx.close("moves", fsc.f[k], f0, rtol=0, atol=0)
            ctx.close("stage cost", fsc.L[k], track[:, k:k + 1] + np.array([[1.0, 0.0, 1.0]]), rtol=1e-14)
        ctx.close("terminal cost", fsc.LT, np.zeros(nx), rtol=0, atol=0)
        if i % 50 == 7:
            # neither direction is preferred, and the walks do move
            ends, s0 = [], int(rng.integers(1 << 30))
            for q in range(40):
                tr, _ = ctx.call("genData", FiniteModel(s0 + q).genData, 300, 301)
                w = np.log(np.clip(tr[:, -1], 1e-6, 1.0))
                ends.append(float(w @ (np.arange(301) - 150.0) / w.sum()))
            ctx.true("walks are symmetric", abs(np.mean(ends)) < 15.0 and 3.0 < np.std(ends) < 16.0, "mean displacement %.1f spread %.1f" % (np.mean(ends), np.std(ends)))
        ctx.note(seed=seed, T=T, nx=nx)
    ctx.cases(150, 1500, body)


def g_channel(ctx):
    """Gilbert-Elliott channel: probabilities, chain structure and long-run frequencies."""
    import parallel_control.ge_model_np as ge

    p0, p1, p2, q0, q1 = 0.03, 0.1, 0.05, 0.1, 0.3
    Pi = np.zeros((4, 4))
    Po = np.zeros((4, 2))
    for b in range(2):
        for s in range(2):
            for b2 in range(2):
                for s2 in range(2):
                    ps = {(0, 1): p0, (0, 0): 1 - p0, (1, 0): p1, (1, 1): 1 - p1}[s, s2]
                    Pi[2 * b + s, 2 * b2 + s2] = ps * (p2 if b != b2 else 1 - p2)
            e = q1 if s else q0
            Po[2 * b + s, b], Po[2 * b + s, 1 - b] = 1 - e, e

    def body(rng, i):
        seed = int(rng.integers(1 << 31))
        model = ctx.call("GEModel", ge.GEModel, seed)
        ctx.close("transitions", model.Pi, Pi, rtol=1e-13)
        ctx.close("emissions", model.Po, Po, rtol=1e-13)
        ctx.close("prior", model.prior, np.full(4, 0.25), rtol=0, atol=0)
        for nm, M in (("Pi", model.Pi), ("Po", model.Po), ("prior", model.prior[None])):
            ctx.true("distribution " + nm, np.all(M >= 0) and np.allclose(M.sum(axis=1), 1, atol=1e-12))
        T = int(rng.integers(1, 200))
        xs, ys = ctx.call("genData", model.genData, T)
        ctx.true("shapes", xs.shape == (T,) and ys.shape == (T,), abort=True)
        ctx.true("ranges", xs.min() >= 0 and xs.max() < 4 and ys.min() >= 0 and ys.max() < 2)
        np.random.seed(int(rng.integers(1000)))
        x2, y2 = ge.GEModel(seed).genData(T)
        ctx.true("reproducible", np.array_equal(x2, xs) and np.array_equal(y2, ys))
        x3, y3 = model.genData(T)
        ctx.true("reproducible from the same object", np.array_equal(x3, xs) and np.array_equal(y3, ys))
        if T > 60:
            x4, y4 = ge.GEModel(seed + 1).genData(T)
            ctx.true("seed matters", not (np.array_equal(x4, xs) and np.array_equal(y4, ys)))
        b = ctx.call("get_b_list", ge.get_b_list, xs)
        ctx.close("bits", b, xs // 2, rtol=0, atol=0)
        ctx.note(seed=seed, T=T)
    ctx.cases(120, 1200, body)

    def freq(rng, i):
        """Frequencies over a long run; thresholds at seven standard deviations."""
        seed = int(rng.integers(1 << 31))
        T = 6000
        xs, ys = ctx.call("genData", ge.GEModel(seed).genData, T)
        for a in range(4):
            idx = np.where(xs[:-1] == a)[0]
            n = len(idx)
            for c in range(4):
                p = Pi[a, c]
                ctx.true("transition frequency", abs((xs[idx + 1] == c).sum() - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 5, "state %d to %d" % (a, c))
            na = (xs == a).sum()
            p = Po[a, 1]
            ctx.true("emission frequency", abs((ys[xs == a] == 1).sum() - na * p) <= 7 * math.sqrt(na * p * (1 - p)) + 5, "state %d" % a)
        ctx.note(seed=seed, T=T)
    ctx.cases(6, 60, freq, tag="f")


def g_text(ctx):
    import itertools
    from parallel_control.text_model import TextModel

    def body(rng, i):
        order = 1 + i % 3
        n = int(rng.integers(1, [12, 7, 5][order - 1]))
        pool = list(" abcdefghijklmnopqrstuvwxyz0123456789.,åäö")
        chars = "".join(rng.choice(pool, size=n, replace=False))
        errp = float(rng.choice([0.0, 0.1, 0.35, 1.0, rng.uniform()]))
        model = ctx.call("TextModel", TextModel, chars, errp, order)
        if i % 13 == 0:
            d = ctx.call("TextModel", TextModel)
            ctx.true("defaults", d.chars == " abcdefghijklmnopqrstuvwxyz" and d.errp == 0.1 and d.order == 1)
        S = n ** order
        names = ["".join(t) for t in itertools.product(chars, repeat=order)]
        ctx.true("states", list(model.cond_chars) == names)
        ctx.true("state index", all(model.cond_dict[s] == j for j, s in enumerate(names)) and len(model.cond_dict) == S)
        text = "".join(rng.choice(list(chars), size=int(rng.integers(order, 80))))
        one = np.full((n, n), errp / n) + (1 - errp) * np.eye(n)
        Po1 = ctx.call("get1stOrderPo", model.get1stOrderPo)
        ctx.close("first order emissions", Po1, one, rtol=1e-13)
        PoN = ctx.call("getNthOrderPo", model.getNthOrderPo)
        ctx.close("emissions depend on the last character", PoN, np.array([one[chars.index(s[-1])] for s in names]), rtol=1e-13)
        # maximum-likelihood counts with one pseudo-count
        C = np.ones((n, n))
        for a, b in zip(text, text[1:]):
            C[chars.index(a), chars.index(b)] += 1
        ctx.close("first order transitions", ctx.call("get1stOrderPi", model.get1stOrderPi, text), C / C.sum(1, keepdims=True), rtol=1e-13)
        c1 = np.array([1.0 + text.count(c) for c in chars])
        ctx.close("first order prior", ctx.call("get1stOrderPrior", model.get1stOrderPrior, text), c1 / c1.sum(), rtol=1e-13)
        W = np.full((S, S), 1e-12)
        grams = [text[k:k + order] for k in range(len(text) - order + 1)]
        for a in range(S):
            for b in range(S):
                if names[a][1:] == names[b][:-1]:
                    W[a, b] += 1
        for a, b in zip(grams, grams[1:]):
            W[names.index(a), names.index(b)] += 1
        ctx.close("transitions", ctx.call("getNthOrderPi", model.getNthOrderPi, text), W / W.sum(1, keepdims=True), rtol=1e-12)
        cN = np.array([1.0 + grams.count(s) for s in names])
        prior = ctx.call("getNthOrderPrior", model.getNthOrderPrior, text)
        ctx.close("prior", prior, cN / cN.sum(), rtol=1e-12)
        # encode/decode
        ys = ctx.call("textToIndex", model.textToIndex, text)
        ctx.true("encoding", ys.tolist() == [chars.index(c) for c in text])
        back = ctx.call("indexToText", model.indexToText, ys)
        ctx.true("round trip", back == text, "%r decoded as %r" % (text, back))
        st = np.array([names.index(g) for g in grams])
        if len(st):
            dec = ctx.call("indexToText", model.indexToText, st)
            ctx.true("state path decodes to the last characters", dec == text[order - 1:], "%r decoded as %r" % (text, dec))
        # noise: same length and alphabet, reproducible from the global seed, right error rate
        s = int(rng.integers(1 << 31))
        long = text * int(np.ceil(600 / len(text)))
        np.random.seed(s)
        noisy = ctx.call("makeNoisyText", model.makeNoisyText, long)
        np.random.seed(s)
        ctx.true("noise reproducible", model.makeNoisyText(long) == noisy)
        ctx.true("noise alphabet", len(noisy) == len(long) and set(noisy) <= set(chars))
        p = errp * (n - 1) / n
        k = sum(a != b for a, b in zip(noisy, long))
        ctx.true("error rate", abs(k - p * len(long)) <= 7 * math.sqrt(p * (1 - p) * len(long)) + (5 if 0 < p < 1 else 1e-6 * len(long)), "%d errors of %d at rate %.3f" % (k, len(long), p))
        ctx.note(n=n, order=order, errp=errp, text=text[:20], len=len(text))
    ctx.cases(150, 1500, body)


GROUPS = dict(unicycle=g_unicycle, track=g_track, grid1d=g_grid1d, linear=g_linear, mass=g_mass, game=g_game, channel=g_channel, text=g_text)
