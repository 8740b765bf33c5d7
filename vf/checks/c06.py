"""C06: parallel array LQT passes against the sequential ones."""
import numpy as np
from vf.core import big_dims
from vf import oracles_lq as Q
from vf.checks.c05 import sc, rel
from vf.core import Skip

RT = 1e-8
HORIZ = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 31, 32, 33]


def compare(ctx, lab, out, ref, rt=RT):
    ctx.true(lab + ":len", all(len(a) == len(b) for a, b in zip(out, ref)) and len(out) == len(ref),
             "lengths %s vs %s" % ([len(a) for a in out], [len(a) for a in ref]), abort=True)
    rt = rel(rt, *np.shape(ref[0][0]))
    big = sc(ref[2], ref[3])
    for name, a, b in zip("KdSv", out, ref):
        ctx.close("%s:%s" % (lab, name), np.array(a), np.array(b), rtol=rt, scale=max(sc(b), big if name in "Sv" else sc(b)))


def traj(ctx, lab, us, xs, ur, xr, rt=RT):
    ctx.true(lab + ":len", len(us) == len(ur) and len(xs) == len(xr), "lengths %d %d, expected %d %d" % (len(us), len(xs), len(ur), len(xr)), abort=True)
    s, rt = sc(ur, xr), rel(rt, np.size(ur[0]), np.size(xr[0]))
    ctx.close(lab + ":x", np.array(xs), np.array(xr), rtol=rt, scale=s)
    ctx.close(lab + ":u", np.array(us), np.array(ur), rtol=rt, scale=s)


def one(ctx, rng, lq, pr, x0):
    ref = ctx.call("seqBackwardPass", lq.seqBackwardPass)
    ur, xr = ctx.call("seqForwardPass", lq.seqForwardPass, x0, ref[0], ref[1])
    out = ctx.call("parBackwardPass", lq.parBackwardPass)
    compare(ctx, "bw", out, ref)
    for src, (K, d, S, v) in (("seq", ref), ("par", out)):
        us, xs = ctx.call("parForwardPass", lq.parForwardPass, x0, K, d)
        traj(ctx, "fw", us, xs, ur, xr)
        us, xs = ctx.call("parFwdBwdPass", lq.parFwdBwdPass, x0, K, d, S, v)
        traj(ctx, "fwbw", us, xs, ur, xr)
        us, xs = ctx.call("parFwdBwdPass2", lq.parFwdBwdPass2, x0, K, d, S, v)
        traj(ctx, "fwbw2", us, xs, ur, xr)
    # any gains, not only the optimal ones, roll out the same
    T = len(pr["F"])
    K = [k + 0.1 * rng.normal(size=k.shape) for k in ref[0]]
    d = [k + 0.1 * rng.normal(size=k.shape) for k in ref[1]]
    ua, xa = ctx.call("seqForwardPass", lq.seqForwardPass, x0, K, d)
    if sc(xa) < 1e6:
        us, xs = ctx.call("parForwardPass", lq.parForwardPass, x0, K, d)
        traj(ctx, "fw_any", us, xs, ua, xa)


def group_random(ctx):
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        n, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 5)), every=19)
        T = HORIZ[i % len(HORIZ)]
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=bool(i % 5), const=i % 7 == 6)
        sol = Q.dp(pr)
        if not Q.well_posed(sol, 1e4) or Q.par_cond(pr, sol) > 1e6:
            raise Skip()
        x0 = rng.normal(size=n) * (0.0 if i % 11 == 10 else 1.0)
        one(ctx, rng, Q.build(LQT, pr), pr, x0)
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr))
        ctx.feature("T=2^k" if T & (T - 1) == 0 else "T!=2^k")
        ctx.feature("udim>xdim" if m > n else "udim<=xdim")
    ctx.cases(680, 5000, body)


def group_long(ctx):
    """Long horizons on stabilizable constant problems with time-varying references."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 3))
        T = int(rng.integers(50, 400))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 2), zmat=bool(i % 3), rvar=False, const=bool(i % 2), xrank="full", kinds=["plain", "orth", "singular"])
        sol = Q.dp(pr)
        if not Q.well_posed(sol, 1e4) or Q.par_cond(pr, sol) > 1e6:
            raise Skip()
        one(ctx, rng, Q.build(LQT, pr), pr, rng.normal(size=n))
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr))
    ctx.cases(20, 200, body)


def group_models(ctx):
    """The shipped tracking and chain models."""
    from parallel_control.linear_model_np import LinearModel
    from parallel_control.mass_model_np import MassModel

    def body(rng, i):
        if i % 2:
            m = LinearModel(seed=int(rng.integers(1, 10 ** 6)))
            xy = ctx.call("genData", m.genData, int(rng.integers(1, 9)))
            lq, x0 = ctx.call("getLQT", m.getLQT, xy, steps=int(rng.integers(1, 11)))
        else:
            m = MassModel(int(rng.integers(1, 5)))
            lq, x0 = ctx.call("getLQT", m.getLQT, dt=0.125, Tf=float(rng.integers(1, 9)))
        pr = {k: getattr(lq, k) for k in Q.KEYS + ["HT", "XT", "rT"]}
        pr["kind"] = "model"
        sol = Q.dp(pr)
        if not Q.well_posed(sol, 1e6) or Q.par_cond(pr, sol) > 1e8:
            raise Skip()
        one(ctx, rng, lq, pr, np.asarray(x0, float))
        ctx.note(T=len(lq.F), model=type(m).__name__, digest=Q.digest(pr) + [x0])
    ctx.cases(24, 120, body)


def group_units(ctx):
    """Same comparison in other units of states, controls, outputs and costs."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        n, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 5)), every=19)
        T = HORIZ[i % len(HORIZ)]
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=bool(i % 5))
        sol = Q.dp(pr)
        if not Q.well_posed(sol, 1e4) or Q.par_cond(pr, sol) > 1e6:
            raise Skip()
        un = Q.Units(rng)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        lq = Q.build(LQT, un.problem(pr))
        out = ctx.call("parBackwardPass", lq.parBackwardPass)
        compare(ctx, "units:bw", un.back(*out), (sol["K"], sol["d"], sol["S"], sol["v"]))
        K, d = un.law(sol["K"], sol["d"])
        S, v = un.value(sol["S"], sol["v"])
        for lab, fn, a in (("fw", lq.parForwardPass, (K, d)), ("fwbw", lq.parFwdBwdPass, (K, d, S, v)), ("fwbw2", lq.parFwdBwdPass2, (K, d, S, v))):
            us, xs = ctx.call(lab, fn, x0 / un.s, *a)
            traj(ctx, "units:" + lab, np.array(us) * un.t, np.array(xs) * un.s, ur, xr)
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr), **un.note())
    ctx.cases(200, 2000, body)


GROUPS = dict(units=group_units, random=group_random, long=group_long, models=group_models)
