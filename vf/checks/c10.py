"""C10: partial condensing."""
import numpy as np
from vf.core import big_dims
from vf import oracles_lq as Q
from vf.checks.c05 import sc
from vf.core import Skip, to_np


def draw(rng, T, n, m, p, pT, xrank="any", kinds=None):
    for _ in range(80):
        pr = Q.rand_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=p, rTdim=pT, xrank=xrank,
                        kinds=kinds or ["plain", "singular", "orth", "integrator"])
        sol = Q.dp(pr)
        if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e6:
            return pr, sol
    raise Skip()


def pick(rng, i):
    T = int([1, 2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 16][i % 12]) if i % 2 else int(rng.integers(1, 25))
    mode = i % 5
    if mode == 0:
        Nc = 1
    elif mode == 1:
        Nc = T
    elif mode == 2:
        Nc = T + int(rng.integers(1, 4))
    elif mode == 3:
        ds = [d for d in range(1, T + 1) if T % d == 0]
        Nc = int(rng.choice(ds))
    else:
        Nc = int(rng.integers(1, T + 2))
    return T, Nc


def np_body(ctx, pick=pick, kinds=None):
    from parallel_control import condensing_np, lqt_np

    def body(rng, i):
        T, Nc = pick(rng, i)
        n, m = big_dims(rng, i, int(rng.integers(1, 5)), int(rng.integers(1, 4)), hi=11)
        p = int(rng.integers(1, n + 2))
        pr, sol = draw(rng, T, n, m, p, int(rng.integers(1, n + 2)), xrank="full" if i % 3 else "any", kinds=kinds)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        s = sc(xr, ur)
        lq = Q.build(lqt_np.LQT, pr)
        con = condensing_np.LQTCondenser()
        if i % 2:       # a condenser that has served another problem, often of the same shape
            T2 = T if i % 4 == 1 else int(rng.integers(1, 20))
            ctx.call("condense", con.condense, Q.build(lqt_np.LQT, Q.rand_lqt(rng, T2, n, m, cross=False, zmat=False, rvar=False, rdim=p)), Nc)
            ctx.feature("condenser reused")
        cl = ctx.call("condense", con.condense, lq, Nc)
        Tc = -(-T // Nc)
        ctx.true("np:blocks", len(cl.F) == Tc, "%d blocks, expected %d" % (len(cl.F), Tc), abort=True)
        rt = 1e-7
        for lab in ("seq", "par"):
            K, d, S, v = ctx.call(lab + "BackwardPass", cl.seqBackwardPass if lab == "seq" else cl.parBackwardPass)
            us, xs = ctx.call(lab + "ForwardPass", cl.seqForwardPass if lab == "seq" else cl.parForwardPass, x0, K, d)
            u1, x1 = ctx.call("convertUX", con.convertUX, us, xs)
            ctx.true("np:grid", len(u1) == T and len(x1) == T + 1, "%d controls %d states for T=%d" % (len(u1), len(x1), T), abort=True)
            ctx.close("np_%s:x" % lab, np.array(x1), np.array(xr), rtol=rt, scale=s)
            ctx.close("np_%s:u" % lab, np.array(u1), np.array(ur), rtol=rt, scale=s)
            ctx.close("np_%s:cost" % lab, Q.cost(pr, x1, u1), Q.cost(pr, xr, ur), rtol=rt, scale=s * s * 10)
            # block values are the values of the original problem at the block starts
            ctx.close("np_%s:S" % lab, np.array(S), np.array([sol["S"][min(k * Nc, T)] for k in range(Tc + 1)]), rtol=rt, scale=sc(sol["S"]))
            ctx.close("np_%s:v" % lab, np.array(v), np.array([sol["v"][min(k * Nc, T)] for k in range(Tc + 1)]), rtol=rt, scale=sc(sol["v"], sol["S"]))
        # any controls: expansion follows the original dynamics, block cost differs by a constant only
        diffs = []
        for _ in range(3):
            uu = [rng.normal(size=m * Nc) for _ in range(Tc)]
            if T % Nc:
                uu[-1][m * (T % Nc):] = 0.0     # unused controls of the padding cost nothing at zero
            xx = ctx.call("seqSimulation", cl.seqSimulation, x0, uu)
            u1, x1 = ctx.call("convertUX", con.convertUX, uu, xx)
            want = Q.simulate(pr, x0, u1)
            ctx.close("np_any:dynamics", np.array(x1), np.array(want), rtol=1e-9, scale=sc(want, u1))
            ctx.close("np_any:u", np.concatenate(u1), np.concatenate(uu)[:T * m], rtol=0, atol=0)
            diffs.append((Q.cost(pr, want, u1) - float(cl.cost(uu, xx)), sc(want, u1) ** 2 * 10 * T * sc(cl.r, cl.s) ** 2))
        ctx.close("np_any:cost_offset", np.array([d for d, _ in diffs[1:]]), np.array([diffs[0][0]] * 2), rtol=1e-8, scale=max(x for _, x in diffs))
        ctx.note(T=T, Nc=Nc, n=n, m=m, p=p, kind=pr["kind"], digest=Q.digest(pr))
        ctx.feature("divides" if T % Nc == 0 else "padded")
        ctx.feature("Nc>T" if Nc > T else "Nc<=T")
        ctx.feature("one_real_step_in_last" if T % Nc == 1 and Nc > 1 else "other")
    return body


def group_np(ctx):
    ctx.cases(300, 3000, np_body(ctx))


def pick_long(rng, i):
    T = int(rng.integers(40, 260))
    Nc = int([1, 2, 7, 16, 31, rng.integers(1, 45), T // 2, T - 1][i % 8])
    return T, min(Nc, 45)


def group_long(ctx):
    """Hundreds of steps, up to dozens of steps per block."""
    ctx.cases(36, 400, np_body(ctx, pick_long, ["singular", "orth"]))


def tf_solve(ctx, tf, lqt_tf, cond, HT, rT, XT, x0t, par):
    (Fst, cst, Lst, Hst, rst, Xst, Ust, Mst, sst, Lam, cb, Lb) = cond
    Fn, cn, Xn = ctx.call("lqt_gen_to_canon", lqt_tf.lqt_gen_to_canon, Fst, cst, Lst, Hst, rst, Xst, Ust, Mst, sst)
    bw = lqt_tf.lqt_par_backwardpass if par else lqt_tf.lqt_seq_backwardpass
    Ss, vs, K, d = ctx.call("backward", bw, Fn, cn, Lst, Hst, HT, rst, rT, Xn, XT, Ust)
    Kg, dg = ctx.call("lqt_canon_to_gen", lqt_tf.lqt_canon_to_gen, K, d, Hst, rst, Ust, Mst, sst)
    fw = lqt_tf.lqt_par_forwardpass if par else lqt_tf.lqt_seq_forwardpass
    xs, us = ctx.call("forward", fw, x0t, Fst, cst, Lst, Kg, dg)
    return Ss, vs, xs, us


# (T, Nc, n, m, p)
TFS = [(1, 1, 2, 1, 2), (1, 3, 2, 2, 2), (2, 2, 3, 1, 2), (5, 2, 2, 2, 3), (6, 3, 2, 1, 1), (7, 3, 3, 2, 2), (8, 8, 2, 1, 2),
       (9, 4, 4, 1, 2), (11, 5, 2, 2, 2), (12, 1, 3, 2, 3), (13, 20, 2, 1, 2), (16, 4, 2, 3, 2)]


def tf_body(ctx, shapes, kinds=None):
    import tensorflow as tf
    from parallel_control import condensing_np, condensing_tf, lqt_np, lqt_tf

    def body(rng, i):
        T, Nc, n, m, p = shapes[i % len(shapes)]
        pr, sol = draw(rng, T, n, m, p, n, xrank="full" if i % 3 else "any", kinds=kinds)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        s = sc(xr, ur)
        un = Q.Units(rng, zt=True, span=24 if i % 4 == 3 else 0)    # sometimes in other units
        x0t = tf.constant(x0 / un.s)
        lq = Q.build(lqt_np.LQT, un.problem(pr))
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = ctx.call("lqt_np_to_tf", lqt_tf.lqt_np_to_tf, lq)
        cond = ctx.call("condense", condensing_tf.condense, Fs, cs, Ls, Hs, rs, Xs, Us, Nc)
        ctx.true("tf:outputs", len(cond) == 12 and all(o.dtype == tf.float64 for o in cond), "%d outputs" % len(cond), abort=True)
        Tc = -(-T // Nc)
        ctx.true("tf:blocks", cond[0].shape[0] == Tc, "%s blocks, expected %d" % (cond[0].shape, Tc), abort=True)
        # same block problem as the array version
        cl = condensing_np.LQTCondenser().condense(lq, Nc)
        for nm, t in zip("FcLHrXUMs", (cond[0], cond[1], cond[2], cond[3], cond[4], cond[5], cond[6], cond[7], cond[8])):
            if nm in "rs":
                continue        # only determined up to directions without cost
            w = np.array(getattr(cl, nm))
            ctx.close("tf_np:" + nm, t, w, rtol=1e-10, atol=0, scale=np.abs(w).max())
        for par in (False, True):
            lab = "tf_par" if par else "tf_seq"
            Ss, vs, xs, us = tf_solve(ctx, tf, lqt_tf, cond, HT, rT, XT, x0t, par)
            u1, x1 = ctx.call("convertUX", condensing_tf.convertUX, us, xs, cond[9], cond[10], cond[11], T)
            Ss, vs = un.back(S=to_np(Ss), v=to_np(vs))
            ctx.close(lab + ":x", to_np(x1) * un.s, np.array(xr), rtol=1e-7, scale=s)
            ctx.close(lab + ":u", to_np(u1) * un.t, np.array(ur), rtol=1e-7, scale=s)
            ctx.close(lab + ":S", Ss, np.array([sol["S"][min(k * Nc, T)] for k in range(Tc + 1)]), rtol=1e-7, scale=sc(sol["S"]))
            ctx.close(lab + ":v", vs, np.array([sol["v"][min(k * Nc, T)] for k in range(Tc + 1)]), rtol=1e-7, scale=sc(sol["S"], sol["v"]))
        uu = rng.normal(size=(Tc, m * Nc))
        Kz, dz = tf.zeros((Tc, m * Nc, n), dtype=tf.float64), tf.constant(uu / un.t)
        xs, us = ctx.call("forward", lqt_tf.lqt_seq_forwardpass, x0t, cond[0], cond[1], cond[2], Kz, dz)
        u1, x1 = ctx.call("convertUX", condensing_tf.convertUX, us, xs, cond[9], cond[10], cond[11], T)
        uf = uu.reshape(-1)[:T * m].reshape(T, m)
        want = Q.simulate(pr, x0, list(uf))
        ctx.close("tf_any:u", to_np(u1) * un.t, uf, rtol=1e-12)
        ctx.close("tf_any:x", to_np(x1) * un.s, np.array(want), rtol=1e-9, scale=sc(want, uf))
        ctx.note(T=T, Nc=Nc, n=n, m=m, p=p, kind=pr["kind"], digest=Q.digest(pr), **un.note())
        ctx.feature("divides" if T % Nc == 0 else "padded")
    return body


def group_tf_a(ctx):
    ctx.cases(48, 360, tf_body(ctx, TFS[0::2]))


def group_tf_b(ctx):
    ctx.cases(48, 360, tf_body(ctx, TFS[1::2]))


TFL = [(97, 12, 2, 1, 2), (64, 32, 3, 2, 2), (120, 7, 2, 2, 1)]


def group_tf_long(ctx):
    ctx.cases(9, 90, tf_body(ctx, TFL, ["singular", "orth"]))


def group_model(ctx):
    """The shipped tracking and chain models, whose outputs do not determine the state of a short block."""
    from parallel_control import condensing_np
    from parallel_control.linear_model_np import LinearModel
    from parallel_control.mass_model_np import MassModel

    def body(rng, i):
        if i % 3:
            m = LinearModel(seed=int(rng.integers(1, 10 ** 6)))
            lq, x0 = m.getLQT(m.genData(int(rng.integers(1, 6))), steps=int(rng.integers(1, 11)))
        else:
            m = MassModel(int(rng.integers(1, 4)))
            lq, x0 = m.getLQT(dt=0.25, Tf=float(rng.integers(1, 8)))
        T = len(lq.F)
        Nc = int(rng.integers(1, min(T, 12) + 2))
        pr = {k: getattr(lq, k) for k in Q.KEYS + ["HT", "XT", "rT"]}
        sol = Q.dp(pr)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        con = condensing_np.LQTCondenser()
        cl = ctx.call("condense", con.condense, lq, Nc)
        K, d, S, v = ctx.call("seqBackwardPass", cl.seqBackwardPass)
        us, xs = ctx.call("seqForwardPass", cl.seqForwardPass, x0, K, d)
        u1, x1 = ctx.call("convertUX", con.convertUX, us, xs)
        ctx.close("model:x", np.array(x1), np.array(xr), rtol=1e-7, scale=sc(xr, ur))
        ctx.close("model:u", np.array(u1), np.array(ur), rtol=1e-7, scale=sc(xr, ur))
        ctx.note(T=T, Nc=Nc, model=type(m).__name__, digest=[np.array(xr)])
        ctx.feature("divides" if T % Nc == 0 else "padded")
    ctx.cases(60, 400, body)


def group_units(ctx):
    """Condensing the same problem in other units."""
    from parallel_control import condensing_np, lqt_np

    def body(rng, i):
        T, Nc = pick(rng, i)
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        p = int(rng.integers(1, n + 2))
        pr, sol = draw(rng, T, n, m, p, int(rng.integers(1, n + 2)), xrank="full" if i % 3 else "any")
        un = Q.Units(rng, zt=True)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        con = condensing_np.LQTCondenser()
        cl = ctx.call("condense", con.condense, Q.build(lqt_np.LQT, un.problem(pr)), Nc)
        K, d, S, v = ctx.call("seqBackwardPass", cl.seqBackwardPass)
        us, xs = ctx.call("seqForwardPass", cl.seqForwardPass, x0 / un.s, K, d)
        u1, x1 = ctx.call("convertUX", con.convertUX, us, xs)
        S, v = un.back(S=S, v=v)
        ks = [min(k * Nc, T) for k in range(-(-T // Nc) + 1)]
        ctx.close("units:x", np.array(x1) * un.s, np.array(xr), rtol=1e-7, scale=sc(xr, ur))
        ctx.close("units:u", np.array(u1) * un.t, np.array(ur), rtol=1e-7, scale=sc(xr, ur))
        ctx.close("units:S", S, np.array(sol["S"])[ks], rtol=1e-7, scale=sc(sol["S"]))
        ctx.close("units:v", v, np.array(sol["v"])[ks], rtol=1e-7, scale=sc(sol["S"], sol["v"]))
        ctx.note(T=T, Nc=Nc, n=n, m=m, p=p, kind=pr["kind"], digest=Q.digest(pr), **un.note())
    ctx.cases(150, 1500, body)


GROUPS = dict(long=group_long, tf_long=group_tf_long, units=group_units, np=group_np, tf_a=group_tf_a, tf_b=group_tf_b, model=group_model)
