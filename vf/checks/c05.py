"""C05: sequential and batch LQT against an independent optimum."""
import numpy as np
from vf.core import big_dims
from vf import oracles_lq as Q
from vf.core import Skip

RT = 1e-9


def dims(rng, i):
    n, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 5)))
    T = int([1, 2, 3, 4, 7, 8, 9, 16, 17, 25][i % 10]) if i % 3 else int(rng.integers(1, 40))
    return T, n, m


def sc(*a):
    return max([1.0] + [float(np.abs(np.asarray(x)).max()) for x in a if np.size(x)])


def rel(rt, n, m):
    """Rounding grows with the dimensions."""
    return rt if max(n, m) <= 7 else 100 * rt


def check_backward(ctx, lab, out, sol, rt=RT):
    K, d, S, v = out
    rt = rel(rt, *np.shape(sol["K"][0]))
    T = len(sol["K"])
    ctx.true(lab + ":len", len(K) == T and len(d) == T and len(S) == T + 1 and len(v) == T + 1,
             "lengths %d %d %d %d for T=%d" % (len(K), len(d), len(S), len(v), T), abort=True)
    ctx.close(lab + ":S", np.array(S), np.array(sol["S"]), rtol=rt, scale=sc(sol["S"]))
    ctx.close(lab + ":v", np.array(v), np.array(sol["v"]), rtol=rt, scale=sc(sol["v"], sol["S"]))
    ctx.close(lab + ":K", np.array(K), np.array(sol["K"]), rtol=rt, scale=sc(sol["K"]))
    ctx.close(lab + ":d", np.array(d), np.array(sol["d"]), rtol=rt, scale=sc(sol["d"], sol["v"]))


def check_traj(ctx, lab, pr, x0, us, xs, xr, ur, best, rt=RT):
    T = len(pr["F"])
    rt = rel(rt, *np.shape(pr["L"][0]))
    ctx.true(lab + ":len", len(us) == T and len(xs) == T + 1, "lengths %d %d T=%d" % (len(us), len(xs), T), abort=True)
    s = sc(xr, ur, x0)
    ctx.close(lab + ":x", np.array(xs), np.array(xr), rtol=rt, scale=s)
    ctx.close(lab + ":u", np.array(us), np.array(ur), rtol=rt, scale=s)
    xsim = Q.simulate(pr, x0, us)
    ctx.close(lab + ":dynamics", np.array(xs), np.array(xsim), rtol=rt, scale=s)
    ctx.close(lab + ":cost", Q.cost(pr, xs, us), best, rtol=rt, scale=s * s * 10)


def group_seq(ctx):
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = dims(rng, i)
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=bool(i % 5), const=i % 7 == 6)
        sol = Q.dp(pr)
        if not Q.well_posed(sol):
            raise Skip()
        x0 = Q.start(rng, n)
        lq = Q.build(LQT, pr)
        out = ctx.call("seqBackwardPass", lq.seqBackwardPass)
        check_backward(ctx, "seq", out, sol)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0, out[0], out[1])
        check_traj(ctx, "seq", pr, x0, us, xs, xr, ur, 0.5 * x0 @ sol["S"][0] @ x0 - sol["v"][0] @ x0 + sol["const"][0])
        g = Q.gradient(pr, xs, us)
        ctx.close("seq:stationarity", g, np.zeros_like(g), rtol=1e-6, scale=sc(xr, ur) * sc(sol["S"]))
        ctx.close("seq:costfn", float(ctx.call("cost", lq.cost, us, xs)), Q.cost(pr, xs, us), rtol=1e-9, scale=sc(xr, ur) ** 2 * 10 * T)
        # oracle cross-check by a dense solve of the same problem
        if T * m <= 60:
            xd, ud, best, cond, lo = Q.dense(pr, x0)
            if cond < 1e7:
                ctx.close("oracle:dp_vs_dense", np.array(ur), np.array(ud), rtol=1e-6, scale=sc(xr, ur))
                ctx.true("seq:cost_is_min", Q.cost(pr, xs, us) <= best + 1e-6 * sc(xr, ur) ** 2 * 10)
        # some other control sequence never does better, and the evaluator/simulator agree on it
        up = [u + 0.3 * rng.normal(size=m) for u in us]
        xp = ctx.call("seqSimulation", lq.seqSimulation, x0, up)
        xw = Q.simulate(pr, x0, up)
        ctx.close("seq:simulation", np.array(xp), np.array(xw), rtol=1e-9, scale=sc(xw))
        ctx.close("seq:costfn_any", float(ctx.call("cost", lq.cost, up, xw)), Q.cost(pr, xw, up), rtol=1e-9, scale=sc(xw, up) ** 2 * 10 * T)
        ctx.true("seq:no_better", Q.cost(pr, xw, up) >= Q.cost(pr, xs, us) - 1e-6 * sc(xw, up) ** 2)
        # cost-to-go of every intermediate state/time
        k = int(rng.integers(0, T + 1))
        xk = rng.normal(size=n)
        sub = {key: pr[key][k:] for key in Q.KEYS}
        sub.update(HT=pr["HT"], XT=pr["XT"], rT=pr["rT"])
        xa, ua = Q.roll(sub, xk, out[0][k:], out[1][k:])
        want = Q.cost(sub, xa, ua)
        x2, u2 = Q.roll(sub, np.zeros(n), out[0][k:], out[1][k:])
        got = 0.5 * xk @ out[2][k] @ xk - out[3][k] @ xk
        ctx.close("seq:cost_to_go_diff", got, want - Q.cost(sub, x2, u2), rtol=1e-6, scale=sc(xa, ua, x2, u2) ** 2 * sc(sol["S"]))
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], p=str([h.shape[0] for h in pr["H"]][:4]), digest=Q.digest(pr), nontrivial=True)
        ctx.feature("udim>xdim" if m > n else "udim<=xdim")
        ctx.feature("F:" + pr["kind"])
    ctx.cases(1600, 12000, body)


def group_batch(ctx):
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = dims(rng, i)
        T = min(T, 20)
        p = int(rng.integers(1, n + 2))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=bool(i % 3), rvar=False, rdim=p, rTdim=p)
        x0 = Q.start(rng, n)
        xd, ud, best, cond, lo = Q.dense(pr, x0)
        if cond > 1e6 or sc(xd, ud) > 1e4:
            raise Skip()
        lq = Q.build(LQT, pr)
        us, xs = ctx.call("batchSolution", lq.batchSolution, x0)
        check_traj(ctx, "batch", pr, x0, us, xs, xd, ud, best, rt=1e-6)
        g = Q.gradient(pr, xs, us)
        ctx.close("batch:stationarity", g, np.zeros_like(g), rtol=1e-6, scale=sc(xd, ud) * 10 * cond ** 0.5)
        out = ctx.call("seqBackwardPass", lq.seqBackwardPass)
        u2, x2 = ctx.call("seqForwardPass", lq.seqForwardPass, x0, out[0], out[1])
        ctx.close("batch:seq_agrees", np.array(u2), np.array(us), rtol=1e-6, scale=sc(xd, ud))
        ctx.note(T=T, n=n, m=m, p=p, kind=pr["kind"], digest=Q.digest(pr))
    ctx.cases(1200, 8000, body)


def group_transformed(ctx):
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = dims(rng, i)
        pr = Q.rand_lqt(rng, T, n, m, cross=True, zmat=False)
        sol = Q.dp(pr)
        if not Q.well_posed(sol):
            raise Skip()
        x0 = Q.start(rng, n)
        lq = Q.build(LQT, pr)
        out = ctx.call("seqTransformedBackwardPass", lq.seqTransformedBackwardPass)
        check_backward(ctx, "trans", out, sol)
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0, out[0], out[1])
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        check_traj(ctx, "trans", pr, x0, us, xs, xr, ur, Q.cost(pr, xr, ur))
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr))
    ctx.cases(800, 6000, body)


def group_expand(ctx):
    """Problems given through the flexible constructor (constant/omitted terms)."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = dims(rng, i)
        p = int(rng.integers(1, n + 1))
        pr = Q.rand_lqt(rng, T, n, m, cross=True, zmat=True, rvar=False, rdim=p, rTdim=p)
        kw, const = {}, []
        for key in Q.KEYS:
            mode = str(rng.choice(["list", "const", "omit"])) if key not in "FLXU" else str(rng.choice(["list", "const"]))
            if mode == "list":
                kw[key] = list(pr[key])
            elif mode == "const":
                kw[key] = pr[key][0]
                pr[key] = [pr[key][0]] * T
            else:
                dflt = dict(c=np.zeros(n), H=np.eye(p, n), r=np.zeros(p), Z=np.eye(m), s=np.zeros(m), M=np.zeros((p, m)))[key]
                pr[key] = [dflt] * T
        # keep the joint form convex after mixing terms of different stages
        for k in range(T):
            W = np.block([[pr["X"][k], pr["M"][k]], [pr["M"][k].T, pr["U"][k]]])
            if np.linalg.eigvalsh(W)[0] < -1e-12:
                raise Skip()
        for key, dflt in (("XT", np.eye(p)), ("HT", np.eye(p, n)), ("rT", np.zeros(p))):
            if rng.uniform() < 0.5:
                pr[key] = dflt
            else:
                kw[key] = pr[key]
        if not any(isinstance(kw[k], list) for k in "FLXU"):
            kw["T"] = T
        sol = Q.dp(pr)
        if not Q.well_posed(sol):
            raise Skip()
        lq = ctx.call("checkAndExpand", LQT.checkAndExpand, **kw)
        out = ctx.call("seqBackwardPass", lq.seqBackwardPass)
        check_backward(ctx, "expand", out, sol)
        x0 = Q.start(rng, n)
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0, out[0], out[1])
        ctx.close("expand:costfn", float(ctx.call("cost", lq.cost, us, xs)), Q.cost(pr, xs, us), rtol=1e-9, scale=sc(xs, us) ** 2 * 10 * T)
        ctx.note(T=T, n=n, m=m, given=",".join(sorted(kw)), digest=Q.digest(pr))
    ctx.cases(1200, 8000, body)


def group_long(ctx):
    """Horizons of hundreds of steps, well-conditioned problems (rounding must not accumulate)."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        T = int(rng.integers(100, 401))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=False, const=bool(i % 4 != 2), kinds=["unstable", "integrator", "plain", "orth"])
        sol = Q.dp(pr)
        if not Q.well_posed(sol, sens=1e3):
            raise Skip()
        x0 = Q.start(rng, n)
        lq = Q.build(LQT, pr)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        out = ctx.call("seqBackwardPass", lq.seqBackwardPass)
        check_backward(ctx, "long", out, sol, rt=1e-8)
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0, out[0], out[1])
        if sc(xr, ur) < 1e3:
            check_traj(ctx, "long", pr, x0, us, xs, xr, ur, Q.cost(pr, xr, ur), rt=1e-7)
        if i % 2:
            check_backward(ctx, "long:trans", ctx.call("seqTransformedBackwardPass", lq.seqTransformedBackwardPass), sol, rt=1e-8)
        ctx.note(T=T, n=n, m=m, kind=pr["kind"], digest=Q.digest(pr))
        ctx.feature("T>200") if T > 200 else None
        ctx.feature("F:" + pr["kind"])
    ctx.cases(160, 1500, body)


def group_units(ctx):
    """The optimum does not depend on the units of states, controls, outputs and costs."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m = dims(rng, i)
        T = min(T, 20)
        batch = i % 3 == 2
        kw = dict(rvar=False, rdim=int(rng.integers(1, n + 2))) if batch else {}
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 4), zmat=i % 3 != 1, rTdim=kw.get("rdim"), **kw)
        sol = Q.dp(pr)
        if not Q.well_posed(sol):
            raise Skip()
        un = Q.Units(rng, zt=i % 3 == 1)
        x0 = Q.start(rng, n)
        xr, ur = Q.roll(pr, x0, sol["K"], sol["d"])
        best = Q.cost(pr, xr, ur)
        lq = Q.build(LQT, un.problem(pr))
        bw = lq.seqTransformedBackwardPass if i % 3 == 1 else lq.seqBackwardPass
        out = ctx.call("backward", bw)
        check_backward(ctx, "units", un.back(*out), sol)
        us, xs = ctx.call("seqForwardPass", lq.seqForwardPass, x0 / un.s, out[0], out[1])
        check_traj(ctx, "units", pr, x0, np.array(us) * un.t, np.array(xs) * un.s, xr, ur, best)
        ctx.close("units:costfn", float(ctx.call("cost", lq.cost, us, xs)) / un.a, best, rtol=1e-9, scale=sc(xr, ur) ** 2 * 10 * T)
        xs = ctx.call("seqSimulation", lq.seqSimulation, x0 / un.s, us)
        ctx.close("units:simulation", np.array(xs) * un.s, np.array(xr), rtol=1e-8, scale=sc(xr, ur))
        if batch:
            xd, ud, best, cond, lo = Q.dense(pr, x0)
            if cond < 1e6 and sc(xd, ud) < 1e4:
                us, xs = ctx.call("batchSolution", lq.batchSolution, x0 / un.s)
                check_traj(ctx, "units:batch", pr, x0, np.array(us) * un.t, np.array(xs) * un.s, xd, ud, best, rt=1e-6)
        ctx.note(T=T, n=n, m=m, digest=Q.digest(pr), **un.note())
    ctx.cases(500, 4000, body)


GROUPS = dict(units=group_units, long=group_long, seq=group_seq, batch=group_batch, transformed=group_transformed, expand=group_expand)
