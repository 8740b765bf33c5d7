"""C21: benchmarked routines, their drivers and problem generators."""
import contextlib
import io
import time

import numpy as np

from vf import oracles_ct as O
from vf import oracles_fsc as FS
from vf import oracles_lq as Q
from vf.core import Skip, to_np
from vf.checks import c04, c13, c14, c15


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


class spy:
    """Records every call that goes through a module attribute (if any do)."""

    def __init__(self, mod, name, change=None):
        self.mod, self.name, self.change, self.log = mod, name, change, []
        self.orig = getattr(mod, name)

    def __enter__(self):
        def w(*a, **kw):
            r = self.orig(*a, **kw)
            if self.change is not None:
                r = self.change(r)
            self.log.append((a, r))
            return r
        setattr(self.mod, self.name, w)
        return self

    def __exit__(self, *e):
        setattr(self.mod, self.name, self.orig)


def timing(ctx, label, per_iter, n_iter, wall):
    ctx.true(label + " reports a time per iteration", np.isfinite(per_iter) and 0 <= per_iter * n_iter <= wall + 0.05,
             "%.4g s per iteration, %d iterations in %.4g s" % (per_iter, n_iter, wall))


def sizes(ctx, label, out, want_T, want_D, n_iter, wall):
    T, D, rt = out
    ctx.true(label + " reports the sizes it ran", [int(t) for t in T] == list(want_T) and [int(d) for d in D] == list(want_D),
             "T=%s D=%s, ran T=%s D=%s" % (T, D, want_T, want_D))
    ctx.true(label + " reports one time per problem", len(rt) == len(want_T), "%d times" % len(rt))
    timing(ctx, label, float(np.sum(rt)), n_iter, wall)


# ---- discrete linear ---------------------------------------------------------
ORDER = ("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U")


def lq_draw(rng, T, n, m, p, pT):
    for _ in range(40):
        pr = Q.rand_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=p, rTdim=pT)
        sol = Q.dp(pr)
        if Q.well_posed(sol, 1e4) and Q.par_cond(pr, sol) < 1e5:
            return pr, sol
    raise Skip()


def lq_args(pr, dtype):
    import tensorflow as tf
    return [tf.constant(np.array(pr[k]), dtype) for k in ORDER]


def linear_group(shapes, ncs):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import linear_speedtest as ls

        def problems(rng, k):
            T, n, m, p, pT = shapes[k % len(shapes)]
            pr, sol = lq_draw(rng, T, n, m, p, pT)
            return pr, sol, rng.normal(size=n)

        def verdict(pr, sol, x0, name, out, tol=1e-8):
            if name.endswith("_bw"):
                S, v, K, d = out
                s = max(1.0, np.abs(np.array(sol["S"])).max(), np.abs(np.array(sol["v"])).max())
                for nm, a, k in (("S", S, "S"), ("v", v, "v"), ("K", K, "K"), ("d", d, "d")):
                    ctx.close("%s solution %s" % (name, nm), a, np.array(sol[k]), tol, 0, scale=s)
            else:
                xs, us = out
                wx, wu = Q.roll(pr, x0, sol["K"], sol["d"])
                s = max(1.0, np.abs(np.array(wx)).max(), np.abs(np.array(wu)).max())
                ctx.close(name + " solution x", xs, np.array(wx), tol, 0, scale=s)
                ctx.close(name + " solution u", us, np.array(wu), tol, 0, scale=s)

        names = ["lqt_sequential_bw", "lqt_parallel_bw", "lqt_sequential_bwfw", "lqt_parallel_bwfw_1", "lqt_parallel_bwfw_2",
                 "lqt_sequential_cond_bwfw", "lqt_parallel_cond_bwfw_1", "lqt_parallel_cond_bwfw_2"]

        def routines(rng, i):
            pr, sol, x0 = problems(rng, i)
            T, n = len(pr["F"]), len(x0)
            ctx.note(T=T, n=n, m=pr["L"][0].shape[1], digest=Q.digest(pr))
            a = lq_args(pr, tf.float64)
            for name in names:
                fn = getattr(ls, name)
                if name.endswith("_bw"):
                    verdict(pr, sol, x0, name, ctx.call(name, fn, *a))
                elif "cond" in name:
                    for Nc in ncs:
                        verdict(pr, sol, x0, name, ctx.call(name, fn, tf.constant(x0), *a, Nc), tol=1e-6)
                else:
                    verdict(pr, sol, x0, name, ctx.call(name, fn, tf.constant(x0), *a))
            if i % 3 == 0:
                from parallel_control.lqt_np import LQT
                K, d, S, v, x, u = ctx.call("lqt_reference", ls.lqt_reference, x0, Q.build(LQT, pr))
                wx, wu = Q.roll(pr, x0, sol["K"], sol["d"])
                for nm, g_, w in (("K", K, sol["K"]), ("d", d, sol["d"]), ("S", S, sol["S"]), ("v", v, sol["v"]), ("x", x, wx), ("u", u, wu)):
                    ctx.close("lqt_reference " + nm, np.array(g_), np.array(w), 1e-8, 1e-8)
        ctx.cases(3 * len(shapes), 25 * len(shapes), routines, "r")

        def drivers(rng, i):
            name = names[i % len(names)]
            Nc = int(ncs[(i // len(names)) % len(ncs)])
            prs = [problems(rng, k) for k in range(len(shapes))]
            n_iter = 1 + (i // 2) % 3
            ctx.note(driver=name, Nc=Nc, n_iter=n_iter, sizes=str([len(p[0]["F"]) for p in prs]), digest=Q.digest(prs[0][0]))
            gen = ((tf.constant(x0), *lq_args(pr, tf.float64)) for pr, sol, x0 in prs)
            kw = dict(Nc=Nc) if "cond" in name else {}
            with spy(ls, name) as sp:
                t = time.time()
                out = ctx.call(name + "_speedtest", quiet, getattr(ls, name + "_speedtest"), gen, n_iter=n_iter, device="/CPU:0", **kw)
                wall = time.time() - t
            sizes(ctx, name + "_speedtest", out, [len(p[0]["F"]) for p in prs], [len(p[2]) for p in prs], n_iter, wall)
            for a, r in sp.log:
                x0 = None if name.endswith("_bw") else to_np(a[0])
                k = 0 if x0 is None else 1
                T, n = a[k].shape[:2]
                for pr, sol, px in prs:
                    if len(pr["F"]) == T and len(px) == n:
                        verdict(pr, sol, px, name, r, 1e-6)
                        ctx.feature("driver calls judged")
                if kw and len(a) > 11:
                    ctx.true("driver runs the requested block length", int(a[11]) == Nc, "Nc=%s, asked %d" % (a[11], Nc))
        ctx.cases(len(names), 3 * len(names), drivers, "d")
    return g


def g_generators(ctx):
    import tensorflow as tf
    from parallel_control import linear_speedtest as ls, finite_speedtest as fs_, nonlinear_speedtest as ns
    from parallel_control.linear_model_np import LinearModel
    from parallel_control.mass_model_np import MassModel
    from parallel_control.finite_model_np import FiniteModel
    from parallel_control.nonlinear_model_np import NonlinearModel

    def same(label, item, x0, lqt, T, dtype):
        ctx.true(label + " dtype", all(a.dtype == dtype for a in item), str([a.dtype for a in item]))
        x, a = item[0], item[1:]
        tol = 1e-12 if dtype == tf.float64 else 1e-6
        ctx.close(label + " x0", x, np.array(x0), tol, tol)
        for k, g in zip(ORDER, a):
            w = np.array(getattr(lqt, k))
            ctx.close(label + " " + k, g, w, tol, tol)
        ctx.true(label + " number of steps", int(a[0].shape[0]) == T, "%s steps, requested %d" % (a[0].shape[0], T))

    def expo(rng, lo, hi):
        start = float(rng.uniform(lo, hi))
        stop = float(rng.uniform(start, hi))
        num = int(rng.integers(1, 5))
        lens = [int(z) for z in np.logspace(start, stop, num=num, base=10)]
        return start, stop, num, lens

    def body(rng, i):
        which = ["tracking", "mass", "mass2", "finite", "nonlinear"][i % 5]
        dtype = [tf.float64, tf.float32][(i // 5) % 2]
        if which == "tracking":
            start, stop, num, lens = expo(rng, 1.0, 2.3)
            ctx.note(which=which, start=start, stop=stop, num=num)
            out = ctx.call("tracking_generator", quiet, lambda: list(ls.tracking_generator(start, stop, num, dtype)))
            ctx.true("tracking one problem per size", len(out) == num, "%d problems" % len(out))
            for T, item in zip(lens, out):
                m = LinearModel()
                lqt, x0 = m.getLQT(m.genData(T // 10))
                same("tracking", item, x0, lqt, 10 * (T // 10), dtype)
        elif which == "mass":
            start, stop, num, lens = expo(rng, 0.3, 2.3)
            N = int(rng.integers(1, 6))
            ctx.note(which=which, start=start, stop=stop, num=num, N=N)
            out = ctx.call("mass_generator", quiet, lambda: list(ls.mass_generator(N, start, stop, num, dtype)))
            ctx.true("mass one problem per size", len(out) == num, "%d problems" % len(out))
            for T, item in zip(lens, out):
                lqt, x0 = MassModel(N).getLQT(dt=10.0 / T, Tf=10.0)
                same("mass", item, x0, lqt, T, dtype)
                ctx.true("mass state size", item[1].shape[1] == 2 * N, str(item[1].shape))
        elif which == "mass2":
            T = int(rng.integers(1, 200))
            a, b, s = int(rng.integers(1, 4)), int(rng.integers(4, 9)), int(rng.integers(1, 4))
            ctx.note(which=which, T=T, nstart=a, nend=b, nstep=s)
            out = ctx.call("mass_generator_2", quiet, lambda: list(ls.mass_generator_2(T, a, b, s, dtype)))
            Ns = list(range(a, b, s))
            ctx.true("mass one problem per mass count", len(out) == len(Ns), "%d problems for %s" % (len(out), Ns))
            for N, item in zip(Ns, out):
                lqt, x0 = MassModel(N).getLQT(dt=10.0 / T, Tf=10.0)
                same("mass2", item, x0, lqt, T, dtype)
                ctx.true("mass state size", item[1].shape[1] == 2 * N, str(item[1].shape))
        elif which == "finite":
            start, stop, num, lens = expo(rng, 0.0, 2.0)
            nx = int(rng.integers(1, 24))
            ctx.note(which=which, start=start, stop=stop, num=num, nx=nx)
            kw = {} if i % 2 else dict(dtype=dtype)
            out = ctx.call("finite_generator", quiet, lambda: list(fs_.finite_generator(nx, start, stop, num, **kw)))
            ctx.true("finite one problem per size", len(out) == num, "%d problems" % len(out))
            want = tf.float32 if i % 2 else dtype
            for T, (x0, f, L, LT) in zip(lens, out):
                m = FiniteModel()
                track, wx = m.genData(T, nx=nx)
                fsc = m.getFSC(track)
                tol = 1e-12 if want == tf.float64 else 1e-6
                ctx.true("finite dtype", L.dtype == want and LT.dtype == want, "%s %s" % (L.dtype, LT.dtype))
                ctx.true("finite initial state", int(x0) == int(wx), "%s" % x0)
                ctx.close("finite transitions", f, np.array(fsc.f), 0, 0)
                ctx.close("finite stage costs", L, np.array(fsc.L), tol, tol)
                ctx.close("finite terminal costs", LT, np.array(fsc.LT), tol, tol)
                ctx.true("finite number of steps", f.shape[0] == T and L.shape[0] == T, "%s, requested %d" % (f.shape, T))
        else:
            start, stop, num, lens = expo(rng, 0.0, 2.0)
            ctx.note(which=which, start=start, stop=stop, num=num)
            out = ctx.call("nonlinear_generator", quiet, lambda: list(ns.nonlinear_generator(start, stop, num, dtype)))
            ctx.true("nonlinear one problem per size", len(out) == num, "%d problems" % len(out))
            for T, (us, xs, f, Fx, Fu, *data) in zip(lens, out):
                m = NonlinearModel()
                lqt, x0 = m.getLQT(m.genData(T)[0])
                u, x = m.initialGuess(lqt, x0, init_to_zero=True)
                tol = 1e-12 if dtype == tf.float64 else 1e-5
                ctx.close("nonlinear initial controls", us, np.array(u), tol, tol)
                ctx.close("nonlinear initial states", xs, np.array(x), tol, tol)
                ctx.close("nonlinear initial state", xs[0], np.array(x0), tol, tol)
                ctx.true("nonlinear dtype", all(a.dtype == dtype for a in [us, xs] + data), str(us.dtype))
                for k, g in zip(("H", "HT", "r", "rT", "X", "XT", "U"), data):
                    ctx.close("nonlinear " + k, g, np.array(getattr(lqt, k)), tol, tol)
                if dtype == tf.float64:
                    X, U = rng.normal(size=(3, 4)), rng.normal(size=(3, 2))
                    for nm, a, w in (("dynamics", f, m.f), ("state derivative", Fx, m.Fx), ("control derivative", Fu, m.Fu)):
                        ctx.close("nonlinear " + nm, a(tf.constant(X), tf.constant(U)), np.array([w(x_, u_) for x_, u_ in zip(X, U)]), 1e-11, 1e-11)
    ctx.cases(40, 250, body)


# ---- finite state -------------------------------------------------------------
def finite_group(shapes):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import finite_speedtest as st
        names = ["fsc_seq_bw", "fsc_par_bw", "fsc_seq_bwfw", "fsc_par_bwfw_1", "fsc_par_bwfw_2"]

        def problem(rng, k):
            T, nx, nu = shapes[k % len(shapes)]
            f, L, LT, kind = FS.rand_fsc(rng, T, nx, nu, str(rng.choice(["walk", "perm", "rand"])))
            V = FS.fsc_dp(f, L, LT)
            return f, L, LT, V, int(rng.integers(nx)), kind

        def verdict(P, name, out):
            f, L, LT, V, x0, kind = P
            s = max(1.0, np.abs(V).max())
            tol = 1e-11 * s * (1 + len(f))
            if name.endswith("_bw"):
                us, Vs = to_np(out[0]), to_np(out[1])
                ctx.close(name + " value functions", Vs, V, 0, tol)
                if ctx.true(name + " policy in range", us.shape == (len(f), V.shape[1]) and us.min() >= 0 and us.max() < f[0].shape[1], str(us.shape)):
                    q = np.array([[L[k][x, us[k, x]] + V[k + 1][f[k][x, us[k, x]]] for x in range(V.shape[1])] for k in range(len(f))])
                    ctx.close(name + " policy attains it", q, V[:-1], 0, tol)
                return
            # the sequential routine returns (states, controls), the others (controls, states)
            a, b = to_np(out[0]), to_np(out[1])
            xs, us = (a, b) if len(a) == len(f) + 1 else (b, a)
            if not ctx.true(name + " lengths", len(xs) == len(f) + 1 and len(us) == len(f), "%s %s" % (a.shape, b.shape)):
                return
            sets = FS.fsc_count_opt(f, L, LT, V, x0, tol)
            if name.endswith("_2") and any(len(z) > 1 for z in sets):
                ctx.true(name + " states lie on optimal trajectories", all(int(x) in z for x, z in zip(xs, sets)), str(xs))
                return
            ok = int(xs[0]) == x0 and all(int(f[k][int(xs[k]), int(us[k])]) == int(xs[k + 1]) for k in range(len(f)))
            if ctx.true(name + " follows the dynamics", ok, "xs=%s us=%s" % (xs, us)):
                ctx.close(name + " cost", FS.traj_cost(f, L, LT, xs, us), V[0][x0], 0, tol)

        def args(P):
            f, L, LT = P[:3]
            return tf.constant(np.array(f), tf.int32), tf.constant(np.array(L), tf.float64), tf.constant(np.array(LT), tf.float64)

        def routines(rng, i):
            P = problem(rng, i)
            ctx.note(T=len(P[0]), nx=P[3].shape[1], nu=P[0][0].shape[1], costs=P[5], digest=[np.array(P[0]), np.array(P[1])])
            for name in names:
                a = args(P) if name.endswith("_bw") else (tf.constant(P[4]), *args(P))
                verdict(P, name, ctx.call(name, getattr(st, name), *a))
        ctx.cases(12 * len(shapes), 80 * len(shapes), routines, "r")

        def drivers(rng, i):
            name = names[i % len(names)]
            prs = [problem(rng, k) for k in range(len(shapes))]
            n_iter = 1 + i % 3
            ctx.note(driver=name, n_iter=n_iter, digest=[np.array(prs[0][1])])
            gen = ((P[4], *args(P)) for P in prs)
            with spy(st, name) as sp:
                t = time.time()
                out = ctx.call(name + "_speedtest", quiet, getattr(st, name + "_speedtest"), gen, n_iter=n_iter)
                wall = time.time() - t
            sizes(ctx, name + "_speedtest", out, [len(P[0]) for P in prs], [P[3].shape[1] for P in prs], n_iter, wall)
            for a, r in sp.log:
                k = 0 if name.endswith("_bw") else 1
                for P in prs:
                    if a[k].shape == np.array(P[0]).shape and np.array_equal(to_np(a[k + 1]), np.array(P[1])):
                        verdict(P, name, r)
                        ctx.feature("driver calls judged")
        ctx.cases(len(names), 4 * len(names), drivers, "d")
    return g


# ---- nonlinear ---------------------------------------------------------------
def nonlinear_group(shapes):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import nonlinear_speedtest as st
        store = {}

        def funs(n, m):
            if (n, m) not in store:
                A, B, c, W, V, b, g_ = [tf.Variable(np.zeros(s)) for s in ((n, n), (n, m), n, (n, n), (n, m), n, n)]
                mv = tf.linalg.matvec
                ph = lambda xs, us: mv(W[None], xs) + mv(V[None], us) + b
                f = lambda xs, us: mv(A[None], xs) + mv(B[None], us) + c + g_ * tf.sin(ph(xs, us))
                Fx = lambda xs, us: A[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * W[None]
                Fu = lambda xs, us: B[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * V[None]
                store[n, m] = (A, B, c, W, V, b, g_), f, Fx, Fu
            return store[n, m]

        def draw(rng, k):
            """A problem on which ten steps stay well conditioned, with the ten-step result."""
            T, n, m, p, pT = shapes[k % len(shapes)]
            for _ in range(30):
                pr = Q.rand_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=p, rTdim=pT)
                model = c15.Model(rng, n, m, gain=float(rng.uniform(0.2, 0.7)))
                us = [rng.normal(size=m) for _ in range(T)]
                xs = [rng.normal(size=n)] + [rng.normal(size=n) for _ in range(T)]
                try:
                    X, U = xs, us
                    steps, amp = [], 1.0
                    for _ in range(10):
                        X2, U2, q = c15.expected(pr, model, U, X, True)
                        # sensitivity of the step to a perturbed nominal
                        e = 1e-6
                        X3, U3, _q = c15.expected(pr, model, [u + e * rng.normal(size=m) for u in U], [X[0]] + [x + e * rng.normal(size=n) for x in X[1:]], True)
                        amp *= max(1.0, max(np.abs(np.array(U3) - np.array(U2)).max(), np.abs(np.array(X3) - np.array(X2)).max()) / e)
                        X, U = X2, U2
                        steps.append((X, U))
                except Skip:
                    continue
                if amp < 1e3:
                    return pr, model, us, xs, steps, amp
            raise Skip()

        def args(P):
            pr, model, us, xs = P[:4]
            var, f, Fx, Fu = funs(len(xs[0]), len(us[0]))
            for v, a in zip(var, model.arrays()):
                v.assign(a)
            c = lambda a: tf.constant(np.array(a), tf.float64)
            return (c(us), c(xs), f, Fx, Fu, *[c(pr[k]) for k in ("H", "HT", "r", "rT", "X", "XT", "U")])

        def verdict(P, name, out):
            X, U = P[4][-1]
            s = c15.sc(X, U)
            tol = 1e-7 * max(1.0, P[5])
            ctx.close(name + " controls after ten iterations", out[0], np.array(U), tol, 0, scale=s)
            ctx.close(name + " states after ten iterations", out[1], np.array(X), tol, 0, scale=s)

        names = ["nlqt_iter_seq", "nlqt_iter_par_1", "nlqt_iter_par_2"]

        def routines(rng, i):
            P = draw(rng, i)
            ctx.note(T=len(P[2]), n=len(P[3][0]), m=len(P[2][0]), amp=float("%.2g" % P[5]), digest=P[1].arrays(),
                     moved=float("%.2g" % np.abs(np.array(P[4][-1][1]) - np.array(P[4][0][1])).max()))
            for name in names:
                verdict(P, name, ctx.call(name, getattr(st, name), *args(P)))
            # were fewer iterations visible on this problem?
            if np.abs(np.array(P[4][-1][1]) - np.array(P[4][-2][1])).max() > 1e-5:
                ctx.feature("tenth iteration visible")
        ctx.cases(6 * len(shapes), 40 * len(shapes), routines, "r")

        def drivers(rng, i):
            name = names[i % 3]
            prs = [draw(rng, k) for k in range(len(shapes))]
            n_iter = 1 + i % 2
            ctx.note(driver=name, n_iter=n_iter, digest=prs[0][1].arrays())
            it = iter(prs)
            done = []

            def gen():
                for P in it:
                    done.append(P)
                    yield args(P)
            log = []
            with spy(st, name) as sp:
                t = time.time()
                out = ctx.call(name + "_speedtest", quiet, getattr(st, name + "_speedtest"), gen(), n_iter=n_iter)
                wall = time.time() - t
            sizes(ctx, name + "_speedtest", out, [len(P[2]) for P in prs], [len(P[3][0]) for P in prs], n_iter, wall)
            for a, r in sp.log:
                for P in prs:
                    if np.array_equal(to_np(a[0]), np.array(P[2])):
                        verdict(P, name, r)
                        ctx.feature("driver calls judged")
        ctx.cases(3, 12, drivers, "d")
    return g


# ---- continuous linear --------------------------------------------------------
def contlin_group(which, shape, pairs):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import contlin_speedtest as st
        state = {}
        n, m, p = shape
        c = lambda a: tf.constant(np.asarray(a), tf.float64)

        def setup(rng, blocks, steps):
            P = c13.draw(rng, blocks, n, m, p, coarse=(0.15, 0.6))
            if "f" not in state:
                state["f"] = O.tf_funs(P)
            f, assign = state["f"]
            assign(P)
            q = P.build()
            N = blocks * steps
            K, d, S, v = [np.array(z) for z in q.seqBackwardPass(N, dt=P.T / N)]
            u, x = [np.array(z) for z in q.seqForwardPass(P.x0, list(K), list(d))]
            A, b, C = [np.array(z) for z in q.seqFwdBwdPass(P.x0, N, dt=P.T / N)]
            u2, x2 = [np.array(z) for z in q.combineForwardBackward(list(K), list(d), list(S), list(v), list(A), list(b), list(C))]
            sc = c13.size(K, d, S, v, A, b, C, x, u)
            if max(np.linalg.cond(np.eye(n) + a @ s) for a, s in zip(C, S)) > 1e5:
                raise Skip()
            model = (c(P.x0), c(P.XT), c(P.HT), c(P.rT), c(P.T), *[f[k] for k in P.names])
            return P, q, model, dict(S=S, v=v, K=K, d=d, x=x, u=u, x2=x2, u2=u2, sc=sc)

        def verdict(name, out, P, q, blocks, steps, niter, R):
            sc = R["sc"]
            N = blocks * steps
            exact = 1e-9
            if name.startswith("clqt_parareal"):
                r = c13.refs(P, q, blocks, steps, niter)
                K, d, S, v = r["bw"]
                x = u = None
                if name.endswith("_bw_fw"):
                    u, x = r["fw", False]
                elif name.endswith("_fwbw"):
                    u, x = q.combineForwardBackward(list(K), list(d), list(S), list(v), *r["fb"])
                    if max(np.linalg.cond(np.eye(n) + a @ s) for a, s in zip(r["fb"][2], S)) > 1e5:
                        raise Skip()
                sc = c13.size(sc, K, S, *r["fb"]) ** 2
                tol = 1e-9
            elif name.startswith("clqt_seq"):
                K, d, S, v, x, u, tol = R["K"], R["d"], R["S"], R["v"], R["x"], R["u"], 1e-9
            else:
                K, d, S, v, tol = R["K"], R["d"], R["S"], R["v"], None
                x, u = (R["x2"], R["u2"]) if name.endswith("fwbw") else (R["x"], R["u"])
            want = [("S", S), ("v", v), ("K", K), ("d", d)] + ([("x", x), ("u", u)] if len(out) > 4 else [])
            ctx.true(name + " returns the whole solution", len(out) == (4 if name.endswith("_bw") else 6), "%d results" % len(out))
            for (nm, w), o in zip(want, out):
                w = np.array(w)
                if tol is None:
                    # same grid, equal up to the discretization error of the step
                    h = P.T / N * O.rate(P)
                    ctx.close("%s solution %s" % (name, nm), o, w, 0, 40.0 * sc * max(h, 0.02) ** 4 + 1e-8 * sc)
                else:
                    ctx.close("%s solution %s" % (name, nm), o, w, tol, tol, scale=sc)

        def err_of(name, out, R):
            """Recomputed deviation from the reference solution."""
            if name.endswith("_bw"):
                return np.abs(to_np(out[0]) - R["S"]).max()
            return np.abs(to_np(out[4]) - (R["x2"] if name.endswith("fwbw") else R["x"])).max()

        def routines(rng, i):
            blocks, steps = pairs[i % len(pairs)]
            P, q, model, R = setup(rng, blocks, steps)
            niter = 1 + (i % len(pairs) if not ctx.thorough else i // len(pairs)) % 3
            ctx.note(blocks=blocks, steps=steps, niter=niter, digest=P.digest())
            for name in which:
                if "parareal" in name:
                    out = ctx.call(name, getattr(st, name), blocks, steps, niter, *model)
                else:
                    out = ctx.call(name, getattr(st, name), blocks, steps, *model)
                verdict(name, out, P, q, blocks, steps, niter, R)
            for k, nm in ((1, "x"), (2, "x2")):
                if which[0].startswith("clqt_seq"):
                    lab = "clqt_ref_sol_%d" % k
                    out = ctx.call(lab, getattr(st, lab), blocks, steps, *model)
                    ctx.true(lab + " returns the whole solution", len(out) == 6)
                    for o, w, z in zip(out, (R["S"], R["v"], R["K"], R["d"], R[nm], R["u" + nm[1:]]), "SvKdxu"):
                        ctx.close(lab + " solution " + z, o, w, 1e-8, 0, scale=R["sc"] ** 2)
        ctx.cases(3 * len(pairs), 20 * len(pairs), routines, "r")

        def drivers(rng, i):
            name = which[i % len(which)]
            blocks, steps = pairs[i % len(pairs)]
            P, q, model, R = setup(rng, blocks, steps)
            niter, n_iter = 1 + i % len(pairs) % 3, 1 + (i // 2) % 2
            pert = bool(i // len(which) % 2)
            ctx.note(driver=name, blocks=blocks, steps=steps, niter=niter, n_iter=n_iter, perturbed=pert, digest=P.digest())
            kw = dict(parareal_niter=niter) if "parareal" in name else {}
            a = (blocks, steps, niter) if kw else (blocks, steps)
            out = ctx.call(name, getattr(st, name), *a, *model)
            ref = "clqt_ref_sol_2" if name.endswith("fwbw") else "clqt_ref_sol_1"
            size = float(rng.uniform(0.1, 2.0))
            idx = int(rng.integers(0, blocks * steps + 1))
            which_out = 0 if name.endswith("_bw") else 4
            # the reported deviation must see errors of either sign
            for delta in ((size, -size) if pert else (0.0,)):
                def change(r):
                    if not pert:
                        return r
                    r = list(r)
                    z = to_np(r[which_out]).copy()
                    z[idx].flat[int(rng.integers(z[idx].size))] += delta
                    r[which_out] = c(z)
                    return tuple(r)
                with spy(st, name) as sr, spy(st, ref, change) as sp:
                    t = time.time()
                    elapsed, err = ctx.call(name + "_speedtest", quiet, getattr(st, name + "_speedtest"), model, blocks, steps, n_iter=n_iter, **kw)
                    wall = time.time() - t
                timing(ctx, name + "_speedtest", float(elapsed), n_iter, wall)
                err = float(to_np(err))
                if not pert:
                    ctx.close(name + "_speedtest reports the true deviation", err, err_of(name, out, R), 1e-6, 1e-9 * R["sc"] ** 2)
                    if err_of(name, out, R) > 1e-6 * R["sc"]:
                        ctx.feature("nonzero deviation reported")
                elif sp.log:
                    z = sp.log[-1][1][which_out]
                    ctx.close(name + "_speedtest reports the true deviation (perturbed reference)", err,
                              np.abs(to_np(out[which_out]) - to_np(z)).max(), 1e-6, 1e-9 * R["sc"] ** 2)
                    ctx.feature("nonzero deviation reported")
            for aa, r in sr.log:
                verdict(name, r, P, q, blocks, steps, niter, R)
                ctx.feature("driver calls judged")
        ctx.cases(2 * len(which), 6 * len(which), drivers, "d")
    return g


def g_ct_model(ctx):
    """The benchmark model is the documented tracking model."""
    import tensorflow as tf
    from parallel_control import contlin_speedtest as st
    from parallel_control.linear_model_np import LinearModel

    def body(rng, i):
        dtype = [tf.float64, tf.float32][i % 2]
        x0, XT, HT, rT, T, *fs = ctx.call("clqr_get_tracking_model", st.clqr_get_tracking_model, dtype=dtype)
        cl, wx = LinearModel().getCLQT()
        tol = 1e-12 if i % 2 == 0 else 1e-5
        t = float(rng.uniform(0, 50))
        ctx.note(t=t, dtype=str(dtype))
        for nm, a, w in (("x0", x0, wx), ("XT", XT, cl.XT), ("HT", HT, cl.HT), ("rT", rT, cl.rT), ("T", T, cl.T)):
            ctx.true("benchmark model dtype", a.dtype == dtype, str(a.dtype))
            ctx.close("benchmark model " + nm, a, np.array(w, float), tol, tol)
        for nm, a in zip(("F", "L", "X", "U", "c", "H", "r"), fs):
            ctx.close("benchmark model " + nm, a(tf.constant(t, dtype)), np.array(getattr(cl, nm)(t)), tol, tol * 100)
    ctx.cases(20, 200, body)


# ---- HJB grid ------------------------------------------------------------------
def g_hjb_fd(ctx):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_speedtest as st
    from parallel_control import cnonlin_models_np as mn
    c = lambda a: tf.constant(np.asarray(a), tf.float64)

    def errs(ctx, label, err1, err2, V, W):
        n = V.shape[1]
        dev = np.abs(V - W)
        ctx.close(label + " reports the largest deviation", float(to_np(err1)), dev.max(), 1e-9, 1e-10)
        if n // 3 < 2 * n // 3:
            ctx.close(label + " reports the interior deviation", float(to_np(err2)), dev[:, n // 3:2 * n // 3].max(), 1e-9, 1e-10)

    def body(rng, i):
        M, xg, ug, T, blocks, steps = c14.fd_case(rng)
        if len(xg) < 3:
            raise Skip()
        bT = T / blocks
        want = c14.fd_ref(M.f, M.L, M.LT, T, blocks, steps, xg, ug, True)
        if np.abs(want).max() > 1e5:
            raise Skip()
        ctx.note(n=len(xg), m=len(ug), blocks=blocks, steps=steps, digest=[M.a, M.b, M.c])
        got = ctx.call("seq_upwind", st.seq_upwind, M.f, M.L, M.LT, c(bT), blocks, steps, c(xg), c(ug))
        ctx.close("seq_upwind solution", got, want, 1e-10, 1e-10)
        n_iter = 1 + i % 2
        with spy(st.hjb_grid_1d_tf, "seq_bw_pass_upwind", (lambda r: r + 0.25 * tf.sin(tf.cast(tf.reshape(tf.range(tf.size(r)), r.shape), r.dtype))) if i % 2 else None) as sp:
            t = time.time()
            el, e1, e2 = ctx.call("seq_upwind_speedtest", quiet, st.seq_upwind_speedtest, (M.f, M.L, M.LT, c(9.9), c(xg), c(ug)), blocks, steps=steps, block_T=bT, n_iter=n_iter)
            wall = time.time() - t
        timing(ctx, "seq_upwind_speedtest", float(el), n_iter, wall)
        if i % 2 == 0:
            errs(ctx, "seq_upwind_speedtest", e1, e2, want, want)
    ctx.cases(10, 60, body)

    def model(rng, i):
        nx, nu = int(rng.integers(2, 120)), int(rng.integers(1, 120))
        f, L, LT, T, xg, ug = ctx.call("get_model", st.get_model, nx, nu) if i else ctx.call("get_model", st.get_model)
        if not i:
            nx = nu = 100
        wf, wL, wLT, wT, wx, wu = mn.velocity_model(nx, nu)
        ctx.note(nx=nx, nu=nu)
        ctx.close("benchmark grid x", xg, np.array(wx), 1e-12, 1e-12)
        ctx.close("benchmark grid u", ug, np.array(wu), 1e-12, 1e-12)
        ctx.close("benchmark horizon", T, float(wT), 1e-12, 0)
        x, u = rng.uniform(-4, 4, size=2)
        for nm, a, w in (("dynamics", f(c(x), c(u)), wf(x, u)), ("running cost", L(c(x), c(u)), wL(x, u)), ("terminal cost", LT(c(x)), wLT(x))):
            ctx.close("benchmark " + nm, a, float(w), 1e-12, 1e-12)
    ctx.cases(20, 200, model, "m")


def hjb_assoc(stub):
    """Block combination drivers.  Direct shooting itself is judged by C14 and
    takes minutes, so most cases replace it by the exact optimum of whatever
    block the driver asks for."""
    def g(ctx):
        import inspect
        import tensorflow as tf
        from parallel_control import hjb_grid_1d_speedtest as st
        tf.config.run_functions_eagerly(True)
        c = lambda a: tf.constant(np.asarray(a), tf.float64)

        def body(rng, i):
            M = c14.Mod(rng, quad=True)
            f = lambda x, u: M.a[0] + M.a[1] * x + M.a[2] * u
            L = lambda x, u: M.b[0] + M.b[1] * x + M.b[2] * u + M.b[3] * x * x + M.b[4] * u * u + M.b[5] * x * u
            lt = rng.normal(size=3)
            LT = lambda x: lt[0] + lt[1] * x + abs(lt[2]) * x * x
            nx, steps, blocks = (int(rng.integers(3, 9)), int(rng.integers(1, 4)), 1 + i // 2 % 4) if stub else (3, 1, 2)
            xg = np.linspace(-1.0, float(rng.uniform(0.5, 1.5)), nx)
            ug = np.linspace(-2, 2, 7)
            bT = float(rng.uniform(0.2, 0.5))
            name = ["seq_assoc", "par_assoc"][i % 2]
            ctx.note(driver=name, n=nx, steps=steps, blocks=blocks, digest=[M.a, M.b, lt])
            want = c14.fd_ref(f, L, LT, bT * blocks, blocks, steps, xg, ug, True)
            if np.abs(want).max() > 1e6:
                raise Skip()
            value = lambda T, n, grid: np.array([[c14.qp_value(M, 2, T, n, a, b) for b in grid] for a in grid])
            bV = value(bT, steps, xg)
            VT = np.array([LT(x) for x in xg])
            orig = st.hjb_grid_1d_tf.direct_shooting_block_V

            def shoot(*a, **kw):
                try:
                    b = list(inspect.signature(getattr(orig, "python_function", orig)).bind(*a, **kw).arguments.values())
                    r = c(value(float(to_np(b[2])), int(to_np(b[3])), to_np(b[4])))
                except Exception:               # called some other way: run the real one
                    return orig(*a, **kw)
                ctx.feature("block value functions supplied")
                return r
            if stub:
                st.hjb_grid_1d_tf.direct_shooting_block_V = shoot
            try:
                got = to_np(ctx.call(name, getattr(st, name), f, L, LT, c(bT), blocks, steps, c(xg)))
                n_iter = 1 + i % 3 if stub else 1
                if stub or ctx.thorough:
                    t = time.time()
                    el, e1, e2 = ctx.call(name + "_speedtest", quiet, getattr(st, name + "_speedtest"), (f, L, LT, c(9.9), c(xg), c(ug)), blocks, steps=steps, block_T=bT, n_iter=n_iter)
                    wall = time.time() - t
            finally:
                st.hjb_grid_1d_tf.direct_shooting_block_V = orig
            s = np.abs(bV).max() + np.abs(VT).max() + 1
            if not ctx.true(name + " one value function per block boundary", got.shape == (blocks + 1, nx), str(got.shape)):
                return
            ctx.close(name + " ends with the terminal cost", got[-1], VT, 1e-12, 1e-12)
            Qs = c14.brackets(bV, VT[:, None], blocks)
            for k in range(blocks + 1):
                cand = [z[:, 0] for z in Qs[k]]
                if name == "seq_assoc":
                    z = VT[:, None]
                    for _ in range(k):
                        z = c14.minplus_interp(bV, z)
                    cand = [z[:, 0]]
                d = min(np.abs(got[blocks - k] - z).max() for z in cand)
                ctx.true(name + " solution", d <= 1e-6 * s, "boundary %d deviates by %.3g (scale %.3g)" % (blocks - k, d, s))
            if not (stub or ctx.thorough):
                return
            timing(ctx, name + "_speedtest", float(el), n_iter, wall)
            dev = np.abs(got - want)
            ctx.close(name + "_speedtest reports the largest deviation", float(to_np(e1)), dev.max(), 1e-8, 1e-8 * s)
            ctx.close(name + "_speedtest reports the interior deviation", float(to_np(e2)), dev[:, nx // 3:2 * nx // 3].max(), 1e-8, 1e-8 * s)
            if dev.max() > 1e-3:
                ctx.feature("nonzero deviation reported")
        if stub:
            ctx.cases(16, 120, body)
        else:
            ctx.cases(1, 6, body)
    return g


# ---- Viterbi --------------------------------------------------------------------
VNAMES = ["viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw", "viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"]


def viterbi_group(names):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import viterbi_tf as vt
        from parallel_control.ge_model_np import GEModel

        class Rand:
            """A decodable model other than the shipped one."""

            def __init__(self, rng, n, m):
                self.prior, self.Pi, self.Po, _, _ = FS.rand_hmm(rng, n, m, 1)
                self.seed = int(rng.integers(2 ** 31))

            def genData(self, T):
                r = np.random.default_rng(self.seed)
                x = r.choice(len(self.prior), p=self.prior)
                xs, ys = [], []
                for _ in range(T):
                    x = r.choice(len(self.prior), p=self.Pi[x])
                    xs.append(int(x))
                    ys.append(int(r.choice(self.Po.shape[1], p=self.Po[x])))
                return np.array(xs), np.array(ys)

        def body(rng, i):
            name = names[i % len(names)]
            steps = int([1, 2, 7, 8, 13, 33][int(rng.integers(6))])
            shipped = i % 3 == 0
            if shipped:
                model = GEModel(seed=int(rng.integers(1000)))
            else:
                for _ in range(50):
                    model = Rand(rng, int(rng.integers(1, 6)), int(rng.integers(1, 5)))
                    if min(model.prior.min(), model.Pi.min(), model.Po.min()) > 0:
                        break
                else:
                    raise Skip()
            n_iter = 1 + i % 2
            pert = bool((i // len(names)) % 2)
            ctx.note(driver=name, steps=steps, shipped=shipped, perturbed=pert, n=len(model.prior), digest=[model.Pi, model.Po])
            delta = float(rng.uniform(0.5, 3.0)) * float(rng.choice([-1, 1]))
            log = {}

            def wrap(orig):
                def w(self, ys, *a, **kw):
                    v, V = orig(self, ys, *a, **kw)
                    V = np.array(V, float)
                    if pert:
                        V = V.copy()
                        V[int(rng.integers(len(V))), int(rng.integers(V.shape[1]))] += delta
                    log["V"], log["ys"] = V, np.array(ys)
                    return v, list(V)
                return w
            cls = vt.viterbi_np.Viterbi_np
            orig = cls.seqViterbi
            cls.seqViterbi = wrap(orig)
            try:
                with spy(vt, name) as sp:
                    t = time.time()
                    el, err = ctx.call(name + "_speedtest", quiet, getattr(vt, name + "_speedtest"), model, steps, n_iter=n_iter)
                    wall = time.time() - t
            finally:
                cls.seqViterbi = orig
            timing(ctx, name + "_speedtest", float(el), n_iter, wall)
            err = float(to_np(err))
            ys = model.genData(steps)[1]
            A, best, unique, sets = c04.oracle(model.prior, model.Pi, model.Po, ys)
            for a, r in sp.log:
                c04.judge(ctx, name, model.prior, model.Pi, model.Po, ys, to_np(r[0]), to_np(r[1]), A, best, unique, sets,
                          per_state=name.endswith("bwfwbw") or name.endswith("fwbwfw"))
                ctx.feature("driver calls judged")
            if not pert:
                ctx.close(name + "_speedtest reports the true deviation", err, 0.0, 0, 1e-8 * (1 + abs(best)))
            elif "V" in log:
                ctx.true("reference decodes the requested number of observations", np.array_equal(log["ys"], ys), str(log["ys"]))
                ctx.close(name + "_speedtest reports the true deviation (perturbed reference)", err, abs(delta), 1e-8, 1e-8 * (1 + abs(best)))
                ctx.feature("nonzero deviation reported")
        ctx.cases(6 * len(names), 30 * len(names), body)
    return g


SEQ = ["clqt_seq_bw", "clqt_seq_bw_fw", "clqt_par_bw"]
PAR = ["clqt_par_bw_fw", "clqt_par_bw_fwbw"]
PR1 = ["clqt_parareal_bw", "clqt_parareal_bw_fw"]
PR2 = ["clqt_parareal_bw_fwbw"]
GROUPS = dict(lin_a=linear_group([(1, 1, 1, 1, 1), (6, 2, 1, 2, 1)], [1, 4]), lin_b=linear_group([(13, 3, 2, 2, 3), (8, 2, 2, 1, 2)], [3]),
              gens=g_generators, finite=finite_group([(1, 3, 2), (9, 5, 3), (16, 2, 2)]),
              nonlinear=nonlinear_group([(1, 2, 1, 2, 1), (5, 2, 2, 2, 2), (8, 3, 1, 2, 3)]),
              ct_seq=contlin_group(SEQ, (2, 1, 2), [(3, 8), (1, 5)]), ct_par=contlin_group(PAR, (2, 2, 1), [(3, 8), (1, 5)]),
              ct_pr1=contlin_group(PR1, (2, 1, 1), [(3, 3), (2, 4)]), ct_pr2=contlin_group(PR2, (2, 1, 1), [(3, 3), (2, 4)]), ct_model=g_ct_model,
              hjb_fd=g_hjb_fd, hjb_assoc=hjb_assoc(True), hjb_shoot=hjb_assoc(False), vit_a=viterbi_group(VNAMES[:3]), vit_b=viterbi_group(VNAMES[3:]))
