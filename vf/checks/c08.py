"""C08: generalized to canonical conversion."""
import numpy as np
from vf.core import big_dims
from vf import oracles_lq as Q
from vf.checks.c05 import sc
from vf.checks.c07 import bw_check
from vf.core import Skip, to_np

SHAPES = [(1, 2, 1, 2, 2), (2, 3, 2, 2, 3), (4, 2, 3, 1, 2), (5, 4, 2, 3, 4), (8, 2, 2, 2, 2), (9, 3, 2, 4, 3), (17, 3, 1, 2, 1)]


def draw(rng, shp):
    T, n, m, p, pT = shp
    for _ in range(60):
        pr = Q.rand_lqt(rng, T, n, m, cross=True, zmat=False, rvar=False, rdim=p, rTdim=pT)
        sol = Q.dp(pr)
        if Q.well_posed(sol, 1e4) and Q.par_cond(pr, sol) < 1e6:
            return pr, sol
    raise Skip()


def group_convert(ctx):
    import tensorflow as tf
    from parallel_control import lqt_np, lqt_tf

    def body(rng, i):
        shp = SHAPES[i % len(SHAPES)]
        T, n, m, p, pT = shp
        pr, sol = draw(rng, shp)
        lq = Q.build(lqt_np.LQT, pr)
        g = ctx.call("lqt_np_to_tf_gen", lqt_tf.lqt_np_to_tf_gen, lq)
        names = ["F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U", "M", "s"]
        ctx.true("transfer:count", len(g) == len(names), abort=True)
        for nm, t in zip(names, g):
            ctx.close("transfer:" + nm, t, np.array(pr[nm]), rtol=0, atol=0)
            ctx.true("transfer:dtype", t.dtype == tf.float64)
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = g
        Fn, cn, Xn = ctx.call("lqt_gen_to_canon", lqt_tf.lqt_gen_to_canon, Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
        # the canonical problem is the original one in shifted controls
        x0 = Q.start(rng, n)
        us = rng.normal(size=(T, m))
        xs = np.array(Q.simulate(pr, x0, list(us)))
        can = dict(pr, F=list(Fn.numpy()), c=list(cn.numpy()), X=list(Xn.numpy()), M=[np.zeros((p, m))] * T, s=[np.zeros(m)] * T)
        ub = [us[k] + np.linalg.solve(pr["U"][k], pr["M"][k].T @ (pr["H"][k] @ xs[k] - pr["r"][k])) - pr["s"][k] for k in range(T)]
        xb = np.array(Q.simulate(can, x0, ub))
        ctx.close("canon:same_states", xb, xs, rtol=1e-9, scale=sc(xs, ub))
        ctx.close("canon:same_cost", Q.cost(can, list(xb), ub), Q.cost(pr, list(xs), list(us)), rtol=1e-9, scale=sc(xs, us, ub) ** 2 * 20 * T)
        for lab in ("seq", "par"):
            fn = getattr(lqt_tf, "lqt_%s_backwardpass" % lab)
            Ss, vs, Kc, dc = ctx.call("lqt_%s_backwardpass" % lab, fn, Fn, cn, Ls, Hs, HT, rs, rT, Xn, XT, Us)
            Kg, dg = ctx.call("lqt_canon_to_gen", lqt_tf.lqt_canon_to_gen, Kc, dc, Hs, rs, Us, Ms, ss)
            bw_check(ctx, lab + "_gen", (Ss, vs, Kg, dg), sol, 1e-8, tf.float64)
            xt, ut = ctx.call("lqt_seq_forwardpass", lqt_tf.lqt_seq_forwardpass, tf.constant(x0), Fs, cs, Ls, Kg, dg)
            xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
            ctx.close(lab + "_gen:x", xt, np.array(xr), rtol=1e-8, scale=sc(xr, ur))
            ctx.close(lab + "_gen:u", ut, np.array(ur), rtol=1e-8, scale=sc(xr, ur))
            # forward passes on the canonical problem give the same states
            if lab == "par":
                xt, ut = ctx.call("lqt_par_fwdbwdpass", lqt_tf.lqt_par_fwdbwdpass, tf.constant(x0), Fn, cn, Ls, Hs, rs, Xn, Us, Ss, vs, Kc, dc)
                ctx.close("canon_fwbw:x", xt, np.array(xr), rtol=1e-8, scale=sc(xr, ur))
        # law conversion is affine in the law: any law converts so that both closed loops agree
        Ka, da = rng.normal(size=(T, m, n)) * 0.3, rng.normal(size=(T, m))
        Kg, dg = ctx.call("lqt_canon_to_gen", lqt_tf.lqt_canon_to_gen, tf.constant(Ka), tf.constant(da), Hs, rs, Us, Ms, ss)
        xa, _ = Q.roll(can, x0, list(Ka), list(da))
        xg, _ = Q.roll(pr, x0, list(Kg.numpy()), list(dg.numpy()))
        if sc(xa) < 1e5:
            ctx.close("law:closed_loop", np.array(xg), np.array(xa), rtol=1e-8, scale=sc(xa))
        ctx.note(T=T, n=n, m=m, p=p, pT=pT, kind=pr["kind"], digest=Q.digest(pr) + [np.array(pr["M"]), np.array(pr["s"])])
    ctx.cases(84, 560, body)


def group_transfer(ctx):
    """Transfer of problems built with defaults and constants, both precisions."""
    import tensorflow as tf
    from parallel_control import lqt_np, lqt_tf

    def body(rng, i):
        T, n, m = int(rng.integers(1, 12)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
        p = int(rng.integers(1, n + 2))
        pr = Q.rand_lqt(rng, T, n, m, cross=True, rvar=False, rdim=p, rTdim=p)
        kw = {}
        for key in Q.KEYS:
            mode = int(rng.integers(3))
            if mode == 0:
                kw[key] = list(pr[key])
            elif mode == 1 or key in "FLXU":
                kw[key] = pr[key][0]
                pr[key] = [pr[key][0]] * T
            else:
                pr[key] = [dict(c=np.zeros(n), H=np.eye(p, n), r=np.zeros(p), Z=np.eye(m), s=np.zeros(m), M=np.zeros((p, m)))[key]] * T
        lq = ctx.call("checkAndExpand", lqt_np.LQT.checkAndExpand, XT=pr["XT"], HT=pr["HT"], rT=pr["rT"], T=T, **kw)
        for dt in (tf.float64, tf.float32):
            for fn, names in (("lqt_np_to_tf", ["F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U"]),
                              ("lqt_np_to_tf_gen", ["F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U", "M", "s"])):
                out = ctx.call(fn, getattr(lqt_tf, fn), lq, dtype=dt)
                ctx.true(fn + ":count", len(out) == len(names), abort=True)
                for nm, t in zip(names, out):
                    want = np.array(pr[nm]).astype(dt.as_numpy_dtype)
                    ctx.true(fn + ":dtype", t.dtype == dt)
                    ctx.close(fn + ":" + nm, t, want, rtol=0, atol=0)
        ctx.note(T=T, n=n, m=m, p=p, given=",".join(sorted(kw)), digest=Q.digest(pr))
    ctx.cases(100, 1000, body)


def group_np(ctx):
    """Array counterpart: same feedback law through the canonical form (also with time-varying reference size)."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = int(rng.integers(1, 20)), *big_dims(rng, i, int(rng.integers(1, 5)), int(rng.integers(1, 4)))
        pr = Q.rand_lqt(rng, T, n, m, cross=True, zmat=False, rvar=bool(i % 2))
        sol = Q.dp(pr)
        if not Q.well_posed(sol):
            raise Skip()
        lq = Q.build(LQT, pr)
        K, d, S, v = ctx.call("seqTransformedBackwardPass", lq.seqTransformedBackwardPass)
        for nm, a, s in (("K", K, sc(sol["K"])), ("d", d, sc(sol["d"], sol["v"])), ("S", S, sc(sol["S"])), ("v", v, sc(sol["v"], sol["S"]))):
            ctx.close("np_trans:" + nm, np.array(a), np.array(sol[nm]), rtol=1e-8, scale=s)
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr))
    ctx.cases(300, 3000, body)


def group_units(ctx):
    """Conversion of the same problem in other units."""
    import tensorflow as tf
    from parallel_control import lqt_np, lqt_tf

    def body(rng, i):
        shp = SHAPES[2:5][i % 3]
        T, n, m, p, pT = shp
        pr, sol = draw(rng, shp)
        un = Q.Units(rng, zt=True)
        q = un.problem(pr)
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = g = ctx.call("lqt_np_to_tf_gen", lqt_tf.lqt_np_to_tf_gen, Q.build(lqt_np.LQT, q))
        for nm, t in zip(["F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U", "M", "s"], g):
            ctx.true("units:transfer", np.array_equal(to_np(t), np.array(q[nm])), "%s changed" % nm)
        Fn, cn, Xn = ctx.call("lqt_gen_to_canon", lqt_tf.lqt_gen_to_canon, Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
        for lab in ("seq", "par"):
            Ss, vs, Kc, dc = ctx.call("lqt_%s_backwardpass" % lab, getattr(lqt_tf, "lqt_%s_backwardpass" % lab), Fn, cn, Ls, Hs, HT, rs, rT, Xn, XT, Us)
            Kg, dg = ctx.call("lqt_canon_to_gen", lqt_tf.lqt_canon_to_gen, Kc, dc, Hs, rs, Us, Ms, ss)
            K, d, S, v = un.back(*[to_np(z) for z in (Kg, dg, Ss, vs)])
            bw_check(ctx, "units:" + lab, [tf.constant(z) for z in (S, v, K, d)], sol, 1e-8, tf.float64)
        ctx.note(T=T, n=n, m=m, digest=Q.digest(pr), **un.note())
    ctx.cases(36, 300, body)


GROUPS = dict(units=group_units, convert=group_convert, transfer=group_transfer, np=group_np)
