"""C07: tensor LQT solvers against the independent optimum."""
import numpy as np
from vf import oracles_lq as Q
from vf.checks.c05 import sc
from vf.core import Skip, to_np

# (T, n, m, p, pT)
SHAPES = [(1, 2, 1, 2, 2), (2, 3, 2, 2, 3), (3, 1, 1, 1, 1), (4, 2, 3, 1, 2), (5, 4, 2, 3, 4), (7, 3, 1, 4, 2),
          (8, 2, 2, 2, 2), (9, 3, 2, 1, 3), (16, 2, 1, 1, 2), (17, 4, 2, 2, 1), (31, 3, 2, 2, 2), (33, 2, 1, 2, 2)]


def draw(rng, shp, f32):
    T, n, m, p, pT = shp
    for _ in range(60):
        pr = Q.rand_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=p, rTdim=pT,
                        xrank="full" if f32 else "any")
        sol = Q.dp(pr)
        if Q.well_posed(sol, 50 if f32 else 1e4) and Q.par_cond(pr, sol) < (200 if f32 else 1e6):
            return pr, sol
    raise Skip()


def tensors(ctx, tf, pr, dt):
    from parallel_control import lqt_np, lqt_tf
    lq = Q.build(lqt_np.LQT, pr)
    return ctx.call("lqt_np_to_tf", lqt_tf.lqt_np_to_tf, lq, dtype=dt)


def bw_check(ctx, lab, out, sol, rt, dt):
    Ss, vs, Kxs, ds = out
    ctx.true(lab + ":dtype", all(o.dtype == dt for o in out), "dtypes %s" % [o.dtype.name for o in out])
    big = sc(sol["S"], sol["v"])
    ctx.close(lab + ":S", Ss, np.array(sol["S"]), rtol=rt, scale=big)
    ctx.close(lab + ":v", vs, np.array(sol["v"]), rtol=rt, scale=big)
    ctx.close(lab + ":K", Kxs, np.array(sol["K"]), rtol=rt, scale=max(sc(sol["K"]), big ** 0.5))
    ctx.close(lab + ":d", ds, np.array(sol["d"]), rtol=rt, scale=max(sc(sol["d"]), big ** 0.5))


def body_for(ctx, shapes, f32_every, models=False):
    import tensorflow as tf
    from parallel_control import lqt_tf

    def body(rng, i):
        shp = shapes[i % len(shapes)]
        f32 = (i // len(shapes)) % f32_every == f32_every - 1
        dt = tf.float32 if f32 else tf.float64
        rt = 5e-3 if f32 else 1e-8
        pr, sol = draw(rng, shp, f32)
        T, n, m, p, pT = shp
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = tensors(ctx, tf, pr, dt)
        mp = [10000, T, T + 1, 4 * T][int(rng.integers(4)) if ctx.thorough else (len(shapes) + i) % 2]
        kw = {} if mp == 10000 else dict(max_parallel=mp)
        x0 = Q.start(rng, n)
        x0t = tf.constant(x0, dtype=dt)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        s = sc(xr, ur, sol["d"]) * (sc(sol["K"]) if f32 else 1)
        ref = ctx.call("lqt_seq_backwardpass", lqt_tf.lqt_seq_backwardpass, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
        bw_check(ctx, "seq", ref, sol, rt, dt)
        par = ctx.call("lqt_par_backwardpass", lqt_tf.lqt_par_backwardpass, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, **kw)
        bw_check(ctx, "par", par, sol, rt, dt)
        K, d, S, v = (tf.constant(np.array(sol[k]), dtype=dt) for k in "KdSv")
        runs = [("seq_fw", lambda: lqt_tf.lqt_seq_forwardpass(x0t, Fs, cs, Ls, K, d)),
                ("par_fw", lambda: lqt_tf.lqt_par_forwardpass(x0t, Fs, cs, Ls, K, d, **kw)),
                ("par_fwbw", lambda: lqt_tf.lqt_par_fwdbwdpass(x0t, Fs, cs, Ls, Hs, rs, Xs, Us, S, v, K, d, **kw)),
                ("chain_seq", lambda: lqt_tf.lqt_seq_forwardpass(x0t, Fs, cs, Ls, ref[2], ref[3])),
                ("chain_par", lambda: lqt_tf.lqt_par_fwdbwdpass(x0t, Fs, cs, Ls, Hs, rs, Xs, Us, par[0], par[1], par[2], par[3], **kw))]
        for lab, fn in runs:
            xs, us = ctx.call(lab, fn)
            ctx.true(lab + ":dtype", xs.dtype == dt and us.dtype == dt)
            ctx.close(lab + ":x", xs, np.array(xr), rtol=rt, scale=s)
            ctx.close(lab + ":u", us, np.array(ur), rtol=rt, scale=s)
        # evaluator on the optimum and on an arbitrary trajectory
        ua = rng.normal(size=(T, m))
        xa = np.array(Q.simulate(pr, x0, list(ua)))
        for xx, uu in ((np.array(xr), np.array(ur)), (xa, ua), (rng.normal(size=xa.shape), ua)):
            c = ctx.call("lqt_cost", lqt_tf.lqt_cost, tf.constant(xx, dtype=dt), tf.constant(uu, dtype=dt), Hs, HT, rs, rT, Xs, XT, Us)
            want = Q.cost(pr, list(xx), list(uu))
            ctx.close("cost", float(c), want, rtol=1e-4 if f32 else 1e-11, scale=max(1.0, abs(want)) * 5)
            ctx.true("cost:dtype", c.dtype == dt)
        # non-optimal gains roll out alike
        Ka, da = np.array(sol["K"]) + 0.1 * rng.normal(size=(T, m, n)), rng.normal(size=(T, m))
        xo, uo = Q.roll(pr, x0, list(Ka), list(da))
        if sc(xo) < (20 if f32 else 1e5):
            for lab, fn in (("any_seq_fw", lqt_tf.lqt_seq_forwardpass), ("any_par_fw", lqt_tf.lqt_par_forwardpass)):
                xs, us = ctx.call(lab, fn, x0t, Fs, cs, Ls, tf.constant(Ka, dtype=dt), tf.constant(da, dtype=dt))
                ctx.close(lab + ":x", xs, np.array(xo), rtol=rt, scale=sc(xo, uo) * (10 if f32 else 1))
                ctx.close(lab + ":u", us, np.array(uo), rtol=rt, scale=sc(xo, uo) * (10 if f32 else 1))
        ctx.note(T=T, n=n, m=m, p=p, pT=pT, dtype=dt.name, kind=pr["kind"], maxpar=mp, digest=Q.digest(pr))
        ctx.feature("dtype:" + dt.name)
        ctx.feature("maxpar=T" if mp == T else "maxpar!=T")
    return body


def group_a(ctx):
    ctx.cases(60, 480, body_for(ctx, SHAPES[0::2], 5))


def group_b(ctx):
    ctx.cases(60, 480, body_for(ctx, SHAPES[1::2], 5))


def group_long(ctx):
    """Longer horizons on the shipped models."""
    import tensorflow as tf
    from parallel_control import lqt_tf
    from parallel_control.linear_model_np import LinearModel
    from parallel_control.mass_model_np import MassModel

    def body(rng, i):
        if i % 2 == 0:
            m = LinearModel(seed=int(rng.integers(1, 10 ** 6)))
            lq, x0 = m.getLQT(m.genData(12), steps=10)
        else:
            m = MassModel(3)
            lq, x0 = m.getLQT(dt=0.1, Tf=10.0)
        pr = {k: getattr(lq, k) for k in Q.KEYS + ["HT", "XT", "rT"]}
        sol = Q.dp(pr)
        x0 = x0 + 0.1 * rng.normal(size=len(x0))
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        t = ctx.call("lqt_np_to_tf", lqt_tf.lqt_np_to_tf, lq)
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = t
        x0t = tf.constant(x0, dtype=tf.float64)
        ref = ctx.call("lqt_seq_backwardpass", lqt_tf.lqt_seq_backwardpass, *t)
        bw_check(ctx, "seq", ref, sol, 1e-7, tf.float64)
        par = ctx.call("lqt_par_backwardpass", lqt_tf.lqt_par_backwardpass, *t)
        bw_check(ctx, "par", par, sol, 1e-7, tf.float64)
        for lab, fn in (("seq_fw", lambda: lqt_tf.lqt_seq_forwardpass(x0t, Fs, cs, Ls, ref[2], ref[3])),
                        ("par_fw", lambda: lqt_tf.lqt_par_forwardpass(x0t, Fs, cs, Ls, par[2], par[3])),
                        ("par_fwbw", lambda: lqt_tf.lqt_par_fwdbwdpass(x0t, Fs, cs, Ls, Hs, rs, Xs, Us, *par))):
            xs, us = ctx.call(lab, fn)
            ctx.close(lab + ":x", xs, np.array(xr), rtol=1e-7, scale=sc(xr, ur))
            ctx.close(lab + ":u", us, np.array(ur), rtol=1e-7, scale=sc(xr, ur))
        ctx.note(T=len(lq.F), model=type(m).__name__, digest=[np.array(xr)])
    ctx.cases(6, 40, body)


def group_drift(ctx):
    """Hundreds of steps on well-conditioned problems with unstable and marginal open loops."""
    import tensorflow as tf
    from parallel_control import lqt_tf

    def body(rng, i):
        T, n, m = [(256, 4, 3), (300, 3, 3), (200, 5, 2)][i % 3]
        for _ in range(50):
            F = rng.normal(size=(n, n))
            F *= float(rng.choice([1.0, 1.3, 2.0, 3.0])) / max(np.abs(np.linalg.eigvals(F)).max(), 0.05)
            L, X, U = rng.normal(size=(n, m)), Q.spd(rng, n), Q.spd(rng, m)
            pr = dict(F=[F] * T, c=[rng.normal(size=n) * 0.2] * T, L=[L] * T, X=[X] * T, U=[U] * T, M=[np.zeros((n, m))] * T,
                      H=[np.eye(n)] * T, r=[rng.normal(size=n) for _ in range(T)], Z=[np.eye(m)] * T, s=[np.zeros(m)] * T,
                      HT=np.eye(n), XT=Q.spd(rng, n), rT=rng.normal(size=n))
            sol = Q.dp(pr)
            if Q.well_posed(sol, 1e4, sens=2e3):
                break
        else:
            raise Skip()
        t = tensors(ctx, tf, pr, tf.float64)
        ref = ctx.call("lqt_seq_backwardpass", lqt_tf.lqt_seq_backwardpass, *t)
        bw_check(ctx, "drift", ref, sol, 1e-8, tf.float64)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        xs, us = ctx.call("lqt_seq_forwardpass", lqt_tf.lqt_seq_forwardpass, tf.constant(x0), t[0], t[1], t[2], ref[2], ref[3])
        ctx.close("drift:x", xs, np.array(xr), rtol=1e-7, scale=sc(xr, ur))
        ctx.note(T=T, n=n, m=m, digest=Q.digest(pr))
    ctx.cases(18, 200, body)


def group_units(ctx):
    """Same optimum in other units of states, controls, outputs and costs."""
    import tensorflow as tf
    from parallel_control import lqt_tf

    def body(rng, i):
        shp = SHAPES[3:7][i % 4]
        pr, sol = draw(rng, shp, False)
        T, n, m, p, pT = shp
        un = Q.Units(rng, zt=True)
        t = tensors(ctx, tf, un.problem(pr), tf.float64)
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = t
        x0 = Q.start(rng, n)
        x0t = tf.constant(x0 / un.s)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        for lab in ("seq", "par"):
            out = ctx.call("lqt_%s_backwardpass" % lab, getattr(lqt_tf, "lqt_%s_backwardpass" % lab), *t)
            ctx.true("units:dtype", all(o.dtype == tf.float64 for o in out))
            K, d, S, v = un.back(*[to_np(out[k]) for k in (2, 3, 0, 1)])
            bw_check(ctx, "units:" + lab, [tf.constant(z) for z in (S, v, K, d)], sol, 1e-8, tf.float64)
            for nm, fn in (("fw", lambda: getattr(lqt_tf, "lqt_%s_forwardpass" % lab)(x0t, Fs, cs, Ls, out[2], out[3])),
                           ("fwbw", lambda: lqt_tf.lqt_par_fwdbwdpass(x0t, Fs, cs, Ls, Hs, rs, Xs, Us, *out))):
                xs, us = ctx.call(lab + "_" + nm, fn)
                ctx.close("units:%s_%s:x" % (lab, nm), to_np(xs) * un.s, np.array(xr), rtol=1e-8, scale=sc(xr, ur))
                ctx.close("units:%s_%s:u" % (lab, nm), to_np(us) * un.t, np.array(ur), rtol=1e-8, scale=sc(xr, ur))
            c = ctx.call("lqt_cost", lqt_tf.lqt_cost, xs, us, Hs, HT, rs, rT, Xs, XT, Us)
            ctx.close("units:cost", float(c) / un.a, Q.cost(pr, xr, ur), rtol=1e-8, scale=sc(xr, ur) ** 2 * 10)
        ctx.note(T=T, n=n, m=m, digest=Q.digest(pr), **un.note())
    ctx.cases(24, 200, body)


GROUPS = dict(units=group_units, drift=group_drift, a=group_a, b=group_b, long=group_long)
