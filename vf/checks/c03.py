"""C03: parallel finite-state control."""
import numpy as np
from vf.core import big_dims
from vf import oracles_fsc as O
from vf.checks.c02 import make, check_policy, check_traj, same_problem


def on_optimal(ctx, lab, f, L, LT, V_ref, x0, xs, us, tol):
    """Value-combination variants: consistent and optimal when the optimum is
    unique, otherwise each state must lie on some optimal trajectory."""
    T = len(f)
    sets = O.fsc_count_opt(f, L, LT, V_ref, x0, max(tol, 1e-9 * tol))
    xs = [int(v) for v in np.asarray(xs).ravel()]
    us = [int(v) for v in np.asarray(us).ravel()]
    if not ctx.true(lab + ":traj_len", len(xs) == T + 1 and len(us) == T, "lengths %d,%d T=%d" % (len(xs), len(us), T)):
        return
    bad = [k for k in range(T + 1) if xs[k] not in sets[k]]
    ctx.true(lab + ":on_optimal", not bad, "states off every optimal trajectory at %s" % bad[:5])
    if all(len(s) == 1 for s in sets):
        ctx.feature("unique_optimum")
        check_traj(ctx, lab, f, L, LT, xs, us, x0, V_ref[0][x0], tol)
    else:
        ctx.feature("tied_optimum")


def horizons(rng, i, big=40):
    hs = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33]
    return hs[i % len(hs)] if i % 3 else int(rng.integers(1, big))


def group_np(ctx):
    from parallel_control import fsc_np

    def body(rng, i):
        T = horizons(rng, i)
        nx, nu = big_dims(rng, i, int(rng.integers(1, 7)), int(rng.integers(1, 5)), hi=40)
        f, L, LT, ck = make(rng, T, nx, nu)
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        scale = max(1.0, np.abs(LT).max(), max(np.abs(l).max() for l in L)) * (T + 1)
        tol = 1e-12 * scale
        V_ref = O.fsc_dp(f, L, LT)
        ul, Vl = ctx.call("parBackwardPass", fsc.parBackwardPass)
        if not check_policy(ctx, "np", f, L, LT, ul, Vl, V_ref, tol):
            return
        for x0 in sorted(set([0, nx - 1, int(rng.integers(nx))])):
            us, xs = ctx.call("parForwardPass", fsc.parForwardPass, x0, ul)
            check_traj(ctx, "np_compose", f, L, LT, xs, us, x0, V_ref[0][x0], tol)
            us, xs = ctx.call("parFwdBwdPass", fsc.parFwdBwdPass, x0, ul, Vl)
            on_optimal(ctx, "np_fb", f, L, LT, V_ref, x0, xs, us, tol)
            us, xs = ctx.call("parFwdBwdPass2", fsc.parFwdBwdPass2, x0, ul, Vl)
            on_optimal(ctx, "np_fb2", f, L, LT, V_ref, x0, xs, us, tol)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, digest=L + [LT], nontrivial=nu > 1 and nx > 1)
        ctx.feature("T=%d" % T if T < 5 else "T>=5")
    ctx.cases(260, 2500, body)


def group_np_any_policy(ctx):
    """Policy composition must follow any (also suboptimal) policy exactly."""
    from parallel_control import fsc_np

    def body(rng, i):
        T = horizons(rng, i)
        nx, nu = big_dims(rng, i, int(rng.integers(1, 8)), int(rng.integers(1, 5)), hi=300)
        f, L, LT, ck = make(rng, T, nx, nu)
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        pol = [rng.integers(0, nu, size=nx) for _ in range(T)]
        x0 = int(rng.integers(nx))
        us, xs = ctx.call("parForwardPass", fsc.parForwardPass, x0, pol)
        x, wx, wu = x0, [x0], []
        for k in range(T):
            u = int(pol[k][x])
            x = int(f[k][x, u])
            wu.append(u)
            wx.append(x)
        ctx.true("np_compose:any_policy", [int(v) for v in xs] == wx and [int(v) for v in us] == wu,
                 "xs=%s expected %s" % (list(xs)[:8], wx[:8]))
        us2, xs2 = ctx.call("seqForwardPass", fsc.seqForwardPass, x0, pol)
        ctx.true("np_seq:any_policy", [int(v) for v in xs2] == wx and [int(v) for v in us2] == wu)
        ctx.note(T=T, nx=nx, nu=nu, digest=pol, nontrivial=nx > 1)
    ctx.cases(200, 1500, body)


TF_SHAPES = [(1, 3, 2), (2, 2, 2), (3, 4, 3), (4, 3, 2), (5, 3, 3), (7, 1, 2), (8, 5, 2), (9, 3, 1), (16, 4, 3), (31, 4, 2)]


def group_tf(ctx):
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def body(rng, i):
        T, nx, nu = TF_SHAPES[i % len(TF_SHAPES)]
        f, L, LT, ck = make(rng, T, nx, nu)
        dt = tf.float32 if (i // len(TF_SHAPES)) % 4 == 3 else tf.float64
        if dt == tf.float32:
            if ck in ("real", "negative", "sparse"):
                L = [np.round(l * 8) / 8 for l in L]
                LT = np.round(LT * 8) / 8
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc, dtype=dt)
        scale = max(1.0, np.abs(LT).max(), max(np.abs(l).max() for l in L)) * (T + 1)
        tol = (1e-12 if dt == tf.float64 else 1e-6) * scale
        V_ref = O.fsc_dp(f, L, LT)
        mp = [10000, T + 1][(i // len(TF_SHAPES)) % 2]
        us, Vs = ctx.call("fsc_par_backwardpass", fsc_tf.fsc_par_backwardpass, fs, Ls, LTt, max_parallel=mp)
        if not check_policy(ctx, "tf", f, L, LT, list(us.numpy()), list(Vs.numpy()), V_ref, tol):
            return
        for x0 in sorted(set([0, nx - 1, int(rng.integers(nx))])):
            x0t = tf.constant(x0, dtype=fs.dtype)
            uu, xs = ctx.call("fsc_par_forwardpass", fsc_tf.fsc_par_forwardpass, x0t, fs, us, max_parallel=mp)
            check_traj(ctx, "tf_compose", f, L, LT, xs.numpy(), uu.numpy(), x0, V_ref[0][x0], tol)
            uu, xs = ctx.call("fsc_par_fwdbwdpass", fsc_tf.fsc_par_fwdbwdpass, x0t, fs, Ls, us, Vs, max_parallel=mp)
            on_optimal(ctx, "tf_fb", f, L, LT, V_ref, x0, xs.numpy(), uu.numpy(), tol)
        # any policy through the tensor composition
        pol = rng.integers(0, nu, size=(T, nx)).astype(np.int32)
        x0 = int(rng.integers(nx))
        uu, xs = ctx.call("fsc_par_forwardpass", fsc_tf.fsc_par_forwardpass, tf.constant(x0, dtype=fs.dtype), fs, tf.constant(pol), max_parallel=mp)
        x, wx, wu = x0, [x0], []
        for k in range(T):
            wu.append(int(pol[k, x]))
            x = int(f[k][x, wu[-1]])
            wx.append(x)
        ctx.true("tf_compose:any_policy", list(xs.numpy()) == wx and list(uu.numpy()) == wu, "xs=%s expected %s" % (xs.numpy(), wx))
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, dtype=dt.name, digest=L + [LT], nontrivial=nu > 1 and nx > 1)
    ctx.cases(80, 500, body)


def group_combine(ctx):
    """The combination used by the scans is the min-plus product."""
    from parallel_control import fsc_np

    def body(rng, i):
        n = int(rng.integers(1, 8))
        A = rng.integers(-100, 100, size=(n, n)) / 4.0
        B = rng.integers(-100, 100, size=(n, n)) / 4.0
        A = np.where(rng.uniform(size=A.shape) < 0.2, 1e20, A)
        want = np.array([[min(A[a, j] + B[j, b] for j in range(n)) for b in range(n)] for a in range(n)])
        ctx.close("np:minplus", ctx.call("combine_V", fsc_np.combine_V, A, B), want, rtol=1e-15, atol=1e-12)
        f, g = rng.integers(0, n, size=n), rng.integers(0, n, size=n)
        ctx.true("np:compose", list(ctx.call("combine_f", fsc_np.combine_f, f, g)) == [int(g[f[k]]) for k in range(n)])
        ctx.note(n=n, digest=[A, B], nontrivial=n > 1)
    ctx.cases(300, 2000, body)


WIDE_NP = [(3, 40, 3), (6, 3, 260), (300, 3, 2), (131, 2, 2), (1, 300, 2), (2, 30, 140)]
WIDE_TF = [(3, 140, 2), (6, 3, 260), (300, 3, 2), (1, 260, 2), (2, 130, 135), (1030, 2, 2)]


def group_wide(ctx):
    """Tables and horizons larger than small index types can count."""
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def body(rng, i):
        tens = i % 2
        T, nx, nu = (WIDE_TF if tens else WIDE_NP)[(i // 2) % 6]
        f, L, LT, ck = make(rng, T, nx, nu)
        if i % 4 < 2:
            L = [l - (np.arange(nx)[:, None] * nu + np.arange(nu)) * (0.25 if ck != "huge" else 2.0 ** 32) for l in L]
        V_ref = O.fsc_dp_fast(f, L, LT)
        tol = 1e-12 * (T + 1) * max(1.0, np.abs(LT).max(), np.abs(np.array(L)).max())
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        x0s = sorted(set([nx - 1, int(rng.integers(nx))]))
        if tens:
            fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc)
            us, Vs = ctx.call("fsc_par_backwardpass", fsc_tf.fsc_par_backwardpass, fs, Ls, LTt)
            if check_policy(ctx, "tf_wide", f, L, LT, list(us.numpy()), list(Vs.numpy()), V_ref, tol):
                for x0 in x0s:
                    x0t = tf.constant(x0, dtype=fs.dtype)
                    uu, xs = ctx.call("fsc_par_forwardpass", fsc_tf.fsc_par_forwardpass, x0t, fs, us)
                    check_traj(ctx, "tf_wide", f, L, LT, xs.numpy(), uu.numpy(), x0, V_ref[0][x0], tol)
                    uu, xs = ctx.call("fsc_par_fwdbwdpass", fsc_tf.fsc_par_fwdbwdpass, x0t, fs, Ls, us, Vs)
                    on_optimal(ctx, "tf_wide_fb", f, L, LT, V_ref, x0, xs.numpy(), uu.numpy(), tol)
        else:
            ul, Vl = ctx.call("parBackwardPass", fsc.parBackwardPass)
            if check_policy(ctx, "np_wide", f, L, LT, ul, Vl, V_ref, tol):
                for x0 in x0s[:1]:
                    us, xs = ctx.call("parForwardPass", fsc.parForwardPass, x0, ul)
                    check_traj(ctx, "np_wide", f, L, LT, xs, us, x0, V_ref[0][x0], tol)
                    us, xs = ctx.call("parFwdBwdPass", fsc.parFwdBwdPass, x0, ul, Vl)
                    on_optimal(ctx, "np_wide_fb", f, L, LT, V_ref, x0, xs, us, tol)
                    us, xs = ctx.call("parFwdBwdPass2", fsc.parFwdBwdPass2, x0, ul, Vl)
                    on_optimal(ctx, "np_wide_fb2", f, L, LT, V_ref, x0, xs, us, tol)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, tf=bool(tens), digest=[L[0], LT], nontrivial=True)
        ctx.feature("wide:%d/%d/%d" % (T, nx, nu))
    ctx.cases(12, 72, body)


def group_units(ctx):
    """Costs in other units, shifted costs and renamed states describe the same problem."""
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def solve(f, L, LT, x0, tens):
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        if not tens:
            ul, Vl = ctx.call("parBackwardPass", fsc.parBackwardPass)
            us, xs = ctx.call("parForwardPass", fsc.parForwardPass, x0, ul)
            sx = [ctx.call(nm, getattr(fsc, nm), x0, ul, Vl) for nm in ("parFwdBwdPass", "parFwdBwdPass2")]
        else:
            fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc)
            ul, Vl = ctx.call("fsc_par_backwardpass", fsc_tf.fsc_par_backwardpass, fs, Ls, LTt)
            x0t = tf.constant(x0, dtype=fs.dtype)
            us, xs = ctx.call("fsc_par_forwardpass", fsc_tf.fsc_par_forwardpass, x0t, fs, ul)
            sx = [ctx.call("fsc_par_fwdbwdpass", fsc_tf.fsc_par_fwdbwdpass, x0t, fs, Ls, ul, Vl)]
        V = np.array(Vl)
        if V.shape == (len(f) + 1, len(LT)):
            for us2, xs2 in sx:
                on_optimal(ctx, "units_fb", f, L, LT, V, x0, np.array(xs2), np.array(us2), 1e-13 * np.abs(np.array(L)).max())
        return np.array(ul).astype(int), V, np.array(xs).astype(int).ravel(), np.array(us).astype(int).ravel(), None
    same_problem(ctx, solve, (100, 1000))


GROUPS = dict(np=group_np, policy=group_np_any_policy, tf=group_tf, combine=group_combine, wide=group_wide, units=group_units)
