"""C02: sequential finite-state control."""
import numpy as np
from vf.core import big_dims
from vf import oracles_fsc as O


def make(rng, T, nx, nu):
    kind = str(rng.choice(["rand", "walk", "perm"]))
    return O.rand_fsc(rng, T, nx, nu, kind)


def check_policy(ctx, lab, f, L, LT, u_list, V, V_ref, tol):
    T = len(f)
    if not ctx.true(lab + ":len", len(u_list) == T and len(V) == T + 1, "lengths %d %d for T=%d" % (len(u_list), len(V), T)):
        return False
    ctx.close(lab + ":value", np.array([np.asarray(v, dtype=float) for v in V]), V_ref, rtol=0, atol=tol)
    for k in range(T):
        u = np.asarray(u_list[k]).astype(int)
        if not ctx.true(lab + ":policy_shape", u.shape == (f[k].shape[0],) and (u >= 0).all() and (u < f[k].shape[1]).all(), "policy at %d: %s" % (k, u)):
            return False
        q = np.array([float(L[k][x, u[x]]) + V_ref[k + 1][int(f[k][x, u[x]])] for x in range(f[k].shape[0])])
        ctx.close(lab + ":greedy", q, V_ref[k], rtol=0, atol=tol)
    return True


def check_traj(ctx, lab, f, L, LT, xs, us, x0, best, tol):
    T = len(f)
    xs = [int(v) for v in np.asarray(xs).ravel()]
    us = [int(v) for v in np.asarray(us).ravel()]
    if not ctx.true(lab + ":traj_len", len(xs) == T + 1 and len(us) == T, "lengths %d,%d T=%d" % (len(xs), len(us), T)):
        return
    ok = xs[0] == x0 and all(0 <= us[k] < f[k].shape[1] for k in range(T)) and all(int(f[k][xs[k], us[k]]) == xs[k + 1] for k in range(T))
    if ctx.true(lab + ":dynamics", ok, "x0=%d xs=%s us=%s" % (x0, xs[:8], us[:8])):
        ctx.close(lab + ":traj_cost", O.traj_cost(f, L, LT, xs, us), best, rtol=0, atol=tol)


def group_np(ctx):
    from parallel_control import fsc_np

    def body(rng, i):
        T = int(rng.integers(1, 9)) if i % 2 else int(rng.integers(1, 40))
        nx, nu = big_dims(rng, i, int(rng.integers(1, 7)), int(rng.integers(1, 5)), hi=50)
        f, L, LT, ck = make(rng, T, nx, nu)
        mode = str(rng.choice(["lists", "const", "constf", "constL"]))
        ff, LL = f, L
        if mode in ("const", "constf"):
            ff = f[0]
            f = [f[0]] * T
        if mode in ("const", "constL"):
            LL = L[0]
            L = [L[0]] * T
        kw = dict(T=T) if mode == "const" else {}
        lt_default = rng.uniform() < 0.15
        if lt_default:
            LT = np.ones(nx)
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, ff, LL, None if lt_default else LT, **kw)
        scale = max(1.0, np.abs(LT).max(), max(np.abs(l).max() for l in L)) * (T + 1)
        tol = 1e-12 * scale
        V_ref = O.fsc_dp(f, L, LT)
        ul, Vl = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
        ok = check_policy(ctx, "np", f, L, LT, ul, Vl, V_ref, tol)
        if ok:
            for x0 in range(nx):
                us, xs = ctx.call("seqForwardPass", fsc.seqForwardPass, x0, ul)
                check_traj(ctx, "np", f, L, LT, xs, us, x0, V_ref[0][x0], tol)
                c = ctx.call("cost", fsc.cost, xs, us)
                ctx.close("np:cost_fn_opt", float(c), V_ref[0][x0], rtol=0, atol=tol)
        if i % 6 == 5:      # the sequential recursion also discounts
            g = fsc.gamma = float(rng.uniform(0.3, 1.2))
            LL, LTT = [np.asarray(l, float) for l in L], np.asarray(LT, float)
            if scale * max(1.0, g) ** T < 1e9 and all(np.asarray(l).dtype.kind == "f" for l in fsc.L) and np.asarray(fsc.LT).dtype.kind == "f":
                W = [LTT]
                for k in reversed(range(T)):
                    Wu = np.array([[LL[k][x, u] + g * W[0][f[k][x, u]] for u in range(nu)] for x in range(nx)])
                    W.insert(0, Wu.min(axis=1))
                ul, Vl = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
                td = tol * max(1.0, g) ** T
                ctx.close("np:discounted value", np.array(Vl), np.array(W), rtol=0, atol=td)
                for k in range(T):
                    at = np.array([LL[k][x, ul[k][x]] + g * W[k + 1][f[k][x, ul[k][x]]] for x in range(nx)])
                    ctx.close("np:discounted policy", at, W[k], rtol=0, atol=td)
                ctx.feature("discounted")
            fsc.gamma = 1.0
        # arbitrary open-loop controls
        x0 = int(rng.integers(nx))
        ur = [int(v) for v in rng.integers(0, nu, size=T)]
        xs = ctx.call("seqSimulation", fsc.seqSimulation, x0, ur)
        want = [x0]
        for k in range(T):
            want.append(int(f[k][want[-1], ur[k]]))
        ctx.true("np:simulation", [int(v) for v in xs] == want, "simulated %s expected %s" % (xs, want))
        ctx.close("np:cost_fn", float(ctx.call("cost", fsc.cost, want, ur)), O.traj_cost(f, L, LT, want, ur), rtol=0, atol=tol)
        ctx.true("np:optimal_le_any", V_ref[0][x0] <= O.traj_cost(f, L, LT, want, ur) + tol)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, mode=mode, digest=L + [LT], nontrivial=nu > 1)
        ctx.feature("costs:" + ck)
    ctx.cases(500, 5000, body)


def group_batch(ctx):
    from parallel_control import fsc_np

    def body(rng, i):
        nu = int(rng.integers(1, 4))
        T = int(rng.integers(1, {1: 8, 2: 8, 3: 6}[nu]))
        nx = int(rng.integers(1, 6))
        f, L, LT, ck = make(rng, T, nx, nu)
        if ck == "huge":
            L = [l + 2.0 ** 36 for l in L]
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        scale = max(1.0, np.abs(LT).max(), max(np.abs(l).max() for l in L)) * (T + 1)
        tol = 1e-12 * scale
        for x0 in range(nx):
            best, _ = O.fsc_brute(f, L, LT, x0)
            us, xs, c = ctx.call("batch_solution", fsc.batch_solution, x0)
            ctx.close("batch:cost", float(c), best, rtol=0, atol=tol)
            check_traj(ctx, "batch", f, L, LT, xs, us, x0, best, tol)
            ctx.close("oracle:dp_vs_brute", O.fsc_dp(f, L, LT)[0][x0], best, rtol=0, atol=tol)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, digest=L + [LT], nontrivial=nu > 1)
        ctx.feature("costs:" + ck)
    ctx.cases(150, 1500, body)


def group_dtype(ctx):
    """Integer, mixed and single-precision tables mean the same problem."""
    from parallel_control import fsc_np

    def body(rng, i):
        T, nx, nu = int(rng.integers(1, 12)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
        f = [rng.integers(0, nx, size=(nx, nu)).astype(rng.choice([np.int32, np.int64, np.uint8])) for _ in range(T)]
        f = [f[0].astype(f[0].dtype)] + [x.astype(f[0].dtype) for x in f[1:]]
        kl, kt = str(rng.choice(["int", "float", "f32", "mixed"])), str(rng.choice(["int", "float", "f32"]))

        def tab(kind, s, k):
            if kind == "mixed":
                kind = ["int", "float"][k % 2]
            if kind == "int":
                return rng.integers(-20, 20, size=s)
            if kind == "f32":
                return (rng.integers(-80, 80, size=s) / 8.0).astype(np.float32)
            return rng.integers(-80, 80, size=s) / 8.0
        L = [tab(kl, (nx, nu), k) for k in range(T)]
        LT = tab(kt, (nx,), 0)
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        V_ref = O.fsc_dp(f, L, LT)
        for name in ("seqBackwardPass", "parBackwardPass"):
            ul, Vl = ctx.call(name, getattr(fsc, name))
            check_policy(ctx, "dtype_" + name[:3], f, L, LT, ul, Vl, V_ref, 1e-9)
        ctx.note(T=T, nx=nx, nu=nu, L=kl, LT=kt, digest=[l.astype(float) for l in L], nontrivial=nu > 1)
        ctx.feature("dtype:%s/%s" % (kl, kt))
    ctx.cases(200, 2000, body)


TF_SHAPES = [(1, 3, 2), (2, 2, 2), (3, 4, 1), (5, 3, 3), (7, 1, 2), (8, 5, 2), (16, 4, 3), (17, 6, 2)]


def group_tf(ctx):
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def body(rng, i):
        T, nx, nu = TF_SHAPES[i % len(TF_SHAPES)]
        f, L, LT, ck = make(rng, T, nx, nu)
        dt = tf.float32 if (i // len(TF_SHAPES)) % 4 == 3 else tf.float64
        if dt == tf.float32 and ck in ("real", "negative", "sparse"):
            L = [np.round(l * 8) / 8 for l in L]
            LT = np.round(LT * 8) / 8
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc, dtype=dt)
        ctx.true("tf:dtype", Ls.dtype == dt and LTt.dtype == dt, "dtype %s" % Ls.dtype)
        ctx.close("tf:data_f", fs, np.array(f), rtol=0, atol=0)
        ctx.close("tf:data_L", Ls, np.array(L), rtol=1e-6 if dt == tf.float32 else 0, atol=0)
        ctx.close("tf:data_LT", LTt, np.array(LT), rtol=1e-6 if dt == tf.float32 else 0, atol=0)
        scale = max(1.0, np.abs(LT).max(), max(np.abs(l).max() for l in L)) * (T + 1)
        tol = (1e-12 if dt == tf.float64 else 1e-6) * scale
        V_ref = O.fsc_dp(f, L, LT)
        us, Vs = ctx.call("fsc_seq_backwardpass", fsc_tf.fsc_seq_backwardpass, fs, Ls, LTt)
        ok = check_policy(ctx, "tf", f, L, LT, list(us.numpy()), list(Vs.numpy()), V_ref, tol)
        ctx.true("tf:value_dtype", Vs.dtype == dt)
        if ok:
            for x0 in range(nx):
                xs, uu = ctx.call("fsc_seq_forwardpass", fsc_tf.fsc_seq_forwardpass, tf.constant(x0, dtype=fs.dtype), fs, us)
                check_traj(ctx, "tf", f, L, LT, xs.numpy(), uu.numpy(), x0, V_ref[0][x0], tol)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, dtype=dt.name, digest=L + [LT], nontrivial=nu > 1)
    ctx.cases(96, 600, body)


WIDE = [(3, 300, 3), (4, 3, 300), (2, 150, 140), (700, 3, 2), (300, 2, 3), (2, 257, 2), (3, 2, 257), (260, 130, 2)]


def wide(rng, i, hmax=10 ** 6):
    T, nx, nu = WIDE[i % len(WIDE)]
    T = min(T, hmax)
    f, L, LT, ck = make(rng, T, nx, nu)
    # the answer lies among the high indices in half of the cases
    if i % 2:
        for k in range(T):
            L[k] = L[k] - (np.arange(nx)[:, None] * nu + np.arange(nu)) * (0.25 if ck != "huge" else 2.0 ** 32)
    return T, nx, nu, f, L, LT, ck


def group_wide(ctx):
    """Tables and horizons larger than small index types can count."""
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def body(rng, i):
        T, nx, nu, f, L, LT, ck = wide(rng, i)
        V_ref = O.fsc_dp_fast(f, L, LT)
        tol = 1e-12 * (T + 1) * max(1.0, np.abs(LT).max(), np.abs(np.array(L)).max())
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        ul, Vl = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
        ok = check_policy(ctx, "wide", f, L, LT, ul, Vl, V_ref, tol)
        fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc)
        us, Vs = ctx.call("fsc_seq_backwardpass", fsc_tf.fsc_seq_backwardpass, fs, Ls, LTt)
        ok = check_policy(ctx, "tf_wide", f, L, LT, list(us.numpy()), list(Vs.numpy()), V_ref, tol) and ok
        for x0 in sorted(set([0, nx - 1, int(rng.integers(nx))])) if ok else []:
            uu, xs = ctx.call("seqForwardPass", fsc.seqForwardPass, x0, ul)
            check_traj(ctx, "wide", f, L, LT, xs, uu, x0, V_ref[0][x0], tol)
            ctx.close("wide:cost_fn", float(ctx.call("cost", fsc.cost, xs, uu)), V_ref[0][x0], rtol=0, atol=tol)
            xs2 = ctx.call("seqSimulation", fsc.seqSimulation, x0, uu)
            ctx.true("wide:simulation", [int(v) for v in xs2] == [int(v) for v in xs])
            xs, uu = ctx.call("fsc_seq_forwardpass", fsc_tf.fsc_seq_forwardpass, tf.constant(x0, dtype=fs.dtype), fs, us)
            check_traj(ctx, "tf_wide", f, L, LT, xs.numpy(), uu.numpy(), x0, V_ref[0][x0], tol)
        if i % 4 == 3:
            # exhaustive search over more control sequences than a 16-bit counter holds
            fb, Lb, LTb, _ = make(rng, 9, 3, 4) if i % 8 == 3 else make(rng, 17, 2, 2)
            best, _ = O.fsc_dp(fb, Lb, LTb)[0][1], None
            b = fsc_np.FSC.checkAndExpand(fb, Lb, LTb)
            uu, xs, c = ctx.call("batch_solution", b.batch_solution, 1)
            tb = 1e-11 * max(1.0, np.abs(LTb).max(), np.abs(np.array(Lb)).max())
            ctx.close("wide:batch", float(c), best, rtol=0, atol=tb)
            check_traj(ctx, "wide_batch", fb, Lb, LTb, xs, uu, 1, best, tb)
        ctx.note(T=T, nx=nx, nu=nu, costs=ck, digest=[L[0], LT], nontrivial=True)
        ctx.feature("wide:%d/%d/%d" % (T, nx, nu))
    ctx.cases(16, 64, body)


def group_units(ctx):
    """Costs in other units, shifted costs and renamed states describe the same problem."""
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf

    def solve(f, L, LT, x0, tens):
        fsc = ctx.call("construct", fsc_np.FSC.checkAndExpand, f, L, LT)
        if not tens:
            ul, Vl = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
            us, xs = ctx.call("seqForwardPass", fsc.seqForwardPass, x0, ul)
            c = float(ctx.call("cost", fsc.cost, xs, us))
        else:
            fs, Ls, LTt = ctx.call("fsc_np_to_tf", fsc_tf.fsc_np_to_tf, fsc)
            ul, Vl = ctx.call("fsc_seq_backwardpass", fsc_tf.fsc_seq_backwardpass, fs, Ls, LTt)
            xs, us = ctx.call("fsc_seq_forwardpass", fsc_tf.fsc_seq_forwardpass, tf.constant(x0, dtype=fs.dtype), fs, ul)
            c = None
        return np.array(ul).astype(int), np.array(Vl), np.array(xs).astype(int).ravel(), np.array(us).astype(int).ravel(), c
    same_problem(ctx, solve, (120, 1200))


def same_problem(ctx, solve, counts):
    """solve(f, L, LT, x0, tens) -> policy, values, states, controls, cost or None."""
    def body(rng, i):
        tens = i % 4 == 3
        T, nx, nu = [(3, 4, 2), (5, 3, 3), (8, 5, 2)][i // 4 % 3] if tens else (int(rng.integers(1, 24)), int(rng.integers(1, 7)), int(rng.integers(1, 5)))
        f, _, _, _ = make(rng, T, nx, nu)
        g = (lambda s: rng.integers(-400, 400, size=s) / 8.0) if i % 2 else (lambda s: rng.integers(-2, 3, size=s).astype(float))
        L, LT = [g((nx, nu)) for _ in range(T)], g((nx,))
        x0 = int(rng.integers(nx))
        u0, V0, xs0, us0, c0 = solve(f, L, LT, x0, tens)
        ctx.close("units:value", V0, O.fsc_dp_fast(f, L, LT), rtol=0, atol=0)
        # (a) other unit of cost: exact in binary, so nothing may change, ties included
        a = 2.0 ** int(rng.choice([-60, -40, -30, -20, 20, 30]))
        u1, V1, xs1, us1, c1 = solve(f, [l * a for l in L], LT * a, x0, tens)
        ctx.close("units:scaled value", V1 / a, V0, rtol=0, atol=0)
        ctx.true("units:scaled policy", np.array_equal(u1, u0) and np.array_equal(xs1, xs0) and np.array_equal(us1, us0), "scale %g" % a)
        if c0 is not None:
            ctx.close("units:scaled cost", c1 / a, c0, rtol=0, atol=0)
        # (b) a constant added to every cost of a stage
        s = rng.integers(-4000, 4000, size=T + 1) * 16.0
        u2, V2, xs2, us2, c2 = solve(f, [l + b for l, b in zip(L, s)], LT + s[-1], x0, tens)
        ctx.close("units:shifted value", V2 - np.cumsum(s[::-1])[::-1][:, None], V0, rtol=0, atol=0)
        ctx.true("units:shifted policy", np.array_equal(u2, u0) and np.array_equal(xs2, xs0) and np.array_equal(us2, us0))
        # (c) states and controls renamed
        f3, L3, LT3, px, pu = O.relabel(rng, f, L, LT)
        u3, V3, xs3, us3, c3 = solve(f3, L3, LT3, int(px[x0]), tens)
        ctx.close("units:renamed value", V3[:, px], V0, rtol=0, atol=0)
        ctx.close("units:renamed cost", O.traj_cost(f3, L3, LT3, xs3, us3), V0[0][x0], rtol=0, atol=0)
        # (d) tail of the problem
        k = int(rng.integers(T))
        if not tens:
            u4, V4, xs4, us4, c4 = solve(f[k:], L[k:], LT, x0, tens)
            ctx.close("units:tail value", V4, V0[k:], rtol=0, atol=0)
        ctx.note(T=T, nx=nx, nu=nu, tf=tens, a=a, digest=L + [LT], nontrivial=nu > 1 and nx > 1)
    ctx.cases(counts[0], counts[1], body)


def group_model(ctx):
    """The shipped game model is solved to optimality from its start state."""
    from parallel_control import finite_model_np

    def body(rng, i):
        T, nx = int(rng.integers(1, 60)), int(rng.integers(3, 25))
        m = finite_model_np.FiniteModel(seed=int(rng.integers(1, 10 ** 6)))
        track, x0 = ctx.call("genData", m.genData, T, nx=nx)
        fsc = ctx.call("getFSC", m.getFSC, track)
        V_ref = O.fsc_dp(fsc.f, fsc.L, fsc.LT)
        ul, Vl = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
        check_policy(ctx, "game", fsc.f, fsc.L, fsc.LT, ul, Vl, V_ref, 1e-9)
        us, xs = ctx.call("seqForwardPass", fsc.seqForwardPass, x0, ul)
        check_traj(ctx, "game", fsc.f, fsc.L, fsc.LT, xs, us, x0, V_ref[0][x0], 1e-9)
        ctx.note(T=T, nx=nx, digest=track)
    ctx.cases(20, 150, body)


GROUPS = dict(np=group_np, batch=group_batch, dtype=group_dtype, tf=group_tf, model=group_model, wide=group_wide, units=group_units)
