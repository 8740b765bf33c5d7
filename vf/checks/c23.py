"""C23: one result however a tensor routine is executed.

Every tensor routine is called directly, from inside a caller's own graph
(traced once, then fed other data of the same shape, then another shape, then
the first data again), inside a graph loop, with NumPy arrays and variables in
place of tensors, and with graph execution switched off.  The array-module routines likewise under compilation, vectorization and
with compilation switched off."""
import numpy as np

from vf import oracles_ct as oc
from vf import oracles_lq as Q
from vf.checks.c19 import spread
from vf.core import Skip, to_np

TOL = 1e-9


def same(ctx, lab, name, got, want):
    d = spread(got, want)
    ctx.true(lab, d <= TOL, "%s: deviates by %.3g from the same call made directly" % (name, d))


def modes(ctx, name, fn, sets, eager=1, loop=False):
    """fn takes arrays only; sets[0] and sets[1] have equal shapes."""
    import tensorflow as tf
    sets = [[tf.constant(np.asarray(a)) for a in s] for s in sets]
    want = [ctx.call(name, fn, *s) for s in sets]
    if not all(np.all(np.isfinite(to_np(z))) for w in want for z in tf.nest.flatten(w)):
        raise Skip()

    def caller(*z):
        return fn(*z)
    g = tf.function(caller)
    order = [0, 1] + list(range(2, len(sets))) + [0]
    for k in order:
        same(ctx, "called from a traced caller", name, ctx.call(name + " (traced caller)", g, *sets[k]), want[k])
    ctx.feature("traced callers")
    if len(sets) > 2:
        same(ctx, "handed NumPy arrays", name, ctx.call(name + " (NumPy arrays)", fn, *[a.numpy() for a in sets[1]]), want[1])
        same(ctx, "handed variables", name, ctx.call(name + " (variables)", fn, *[tf.Variable(a) for a in sets[1]]), want[1])
        ctx.feature("other containers")
    if loop and all(a.shape.is_fully_defined() for a in sets[0]):
        stacked = [tf.stack([a, b]) for a, b in zip(*sets[:2])]
        shapes = tf.nest.map_structure(lambda z: tf.TensorSpec(z.shape, z.dtype), want[0])

        def looped(*z):
            def step(q):
                return fn(*q)
            return tf.map_fn(step, z, fn_output_signature=shapes)
        h = tf.function(looped)
        out = ctx.call(name + " (graph loop)", h, *stacked)
        for k in (0, 1):
            same(ctx, "called in a graph loop", name, tf.nest.map_structure(lambda z: z[k], out), want[k])
        ctx.feature("graph loops")
    tf.config.run_functions_eagerly(True)
    try:
        for k in range(eager):
            same(ctx, "called eagerly", name, ctx.call(name + " (eager)", fn, *sets[k]), want[k])
            ctx.feature("eager calls")
    finally:
        tf.config.run_functions_eagerly(False)


def lq_data(rng, T, n, m):
    for _ in range(50):
        pr = Q.rand_lqt(rng, T, n, m, cross=True, zmat=False, rvar=False, rdim=n, rTdim=n)
        sol = Q.dp(pr)
        if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e4:
            break
    else:
        raise Skip()
    d = {k: np.array(pr[k], float) for k in ("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U", "M", "s")}
    d.update({k: np.array(sol[k]) for k in "KdSv"})
    d["x0"] = rng.normal(size=n)
    d["x"], d["u"] = Q.roll(pr, d["x0"], sol["K"], sol["d"])
    return d


def pick(sets, keys):
    return [[s[k] for k in keys.split()] for s in sets]


def g_lq(ctx):
    from parallel_control import condensing_tf as cz, lqt_tf as lt

    def body(rng, i):
        T, n, m = [(3, 2, 1), (1, 2, 2), (4, 1, 1), (5, 3, 2)][i % 4]
        S = [lq_data(rng, *z) for z in ((T, n, m), (T, n, m), (T + 2, n, m))]
        B, P = "F c L H HT r rT X XT U", "x0 F c L"
        for w in ("seq", "par"):
            modes(ctx, "lqt_%s_backwardpass" % w, getattr(lt, "lqt_%s_backwardpass" % w), pick(S, B), 2, loop=True)
            modes(ctx, "lqt_%s_forwardpass" % w, getattr(lt, "lqt_%s_forwardpass" % w), pick(S, P + " K d"), 2, loop=True)
        modes(ctx, "lqt_par_fwdbwdpass", lt.lqt_par_fwdbwdpass, pick(S, P + " H r X U S v K d"), 2, loop=True)
        modes(ctx, "lqt_cost", lt.lqt_cost, pick(S, "x u H HT r rT X XT U"), 2, loop=True)
        modes(ctx, "lqt_gen_to_canon", lt.lqt_gen_to_canon, pick(S, "F c L H r X U M s"), 2, loop=True)
        modes(ctx, "lqt_canon_to_gen", lt.lqt_canon_to_gen, pick(S, "K d H r U M s"), 2, loop=True)
        Nc = [2, 1, 3][i % 3]
        modes(ctx, "condense", lambda *z: cz.condense(*z, Nc), pick(S, "F c L H r X U"), 1)

        def expand(u, F, c, L, H, r, X, U, x0):
            con = cz.condense(F, c, L, H, r, X, U, Nc)
            import tensorflow as tf
            Tc, mc = con[2].shape[0], con[2].shape[2]
            uu = tf.reshape(tf.concat([tf.reshape(u, (-1,)), tf.zeros(Tc * mc - int(np.prod(u.shape)), tf.float64)], 0), (Tc, mc))
            xs, us = lt.lqt_seq_forwardpass(x0, con[0], con[1], con[2], tf.zeros((Tc, mc, n), tf.float64), uu)
            return cz.convertUX(us, xs, con[9], con[10], con[11], int(u.shape[0]))
        modes(ctx, "convertUX", expand, pick(S, "u F c L H r X U x0"), 1)
        ctx.note(T=T, n=n, m=m, digest=[S[0]["F"]])
    ctx.cases(4, 40, body)


def g_finite(ctx):
    import tensorflow as tf
    from parallel_control import fsc_tf as ft, viterbi_tf as vt
    from parallel_control.fsc_np import FSC

    def data(rng, T, nx, nu):
        f = np.stack([rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]).astype(np.int32)
        L, LT = rng.uniform(0, 3, size=(T, nx, nu)), rng.uniform(0, 3, size=nx)
        us, Vs = FSC(list(f), list(L), LT).seqBackwardPass()
        sto = lambda *s: (lambda z: z / z.sum(-1, keepdims=True))(rng.uniform(0.05, 1, size=s))
        return dict(f=f, L=L, LT=LT, us=np.array(us, dtype=np.int32), Vs=np.array(Vs), x0=np.int32(rng.integers(nx)), prior=sto(nx), Pi=sto(nx, nx),
                    Po=sto(nx, nu), ys=rng.integers(0, nu, size=T).astype(np.int32))

    def body(rng, i):
        T, nx, nu = [(3, 4, 2), (1, 3, 2), (6, 2, 3), (9, 5, 2)][i % 4]
        S = [data(rng, *z) for z in ((T, nx, nu), (T, nx, nu), (T + 1, nx, nu))]
        for w in ("seq", "par"):
            modes(ctx, "fsc_%s_backwardpass" % w, getattr(ft, "fsc_%s_backwardpass" % w), pick(S, "f L LT"), 2, loop=True)
            modes(ctx, "fsc_%s_forwardpass" % w, getattr(ft, "fsc_%s_forwardpass" % w), pick(S, "x0 f us"), 2, loop=True)
        modes(ctx, "fsc_par_fwdbwdpass", ft.fsc_par_fwdbwdpass, pick(S, "x0 f L us Vs"), 2, loop=True)
        for nm in ("viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"):
            modes(ctx, nm, getattr(vt, nm), pick(S, "prior Pi Po ys"), 2, loop=True)
        if i % 2 == 0:
            for nm in ("viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw"):
                modes(ctx, nm, getattr(vt, nm), pick(S, "f L LT"), 1)
        ctx.note(T=T, nx=nx, nu=nu, digest=[S[0]["L"]])
    ctx.cases(4, 40, body)


ORDER = ("F", "L", "X", "U", "c", "H", "r")


def ct_args(P):
    """Coefficients of all seven functions, as arrays."""
    return [z for k in ORDER for z in (P.fs[k].M0, P.fs[k].M1, P.fs[k].M2, np.float64(P.fs[k].w), np.float64(P.fs[k].p))]


def ct_funs(z):
    import tensorflow as tf
    mk = lambda a, b, c, w, p: lambda t: a + b * tf.sin(w * t + p) + c * t
    return [mk(*z[5 * k:5 * k + 5]) for k in range(7)]


def ct_sets(rng, bl, st, n, m, p, count=2):
    out = []
    for _ in range(count):
        P = oc.rand_prob(rng, n, m, p, pulses=False)
        P.T = min(1.5, 1.0 / oc.rate(P))
        q = P.build()
        N = bl * st
        d = dict(zip("KdSv", map(np.array, q.seqBackwardPass(N))), coef=ct_args(P), x0=P.x0, T=np.float64(P.T), XT=P.XT, HT=P.HT, rT=P.rT, ST=P.ST(), vT=P.vT(),
                 dt=np.float64(P.T / N), dtb=np.float64(P.T / bl), t0=np.float64(0.0))
        d.update(zip("ABC", map(np.array, q.seqFwdBwdPass(P.x0, N))))
        d["A0"], d["b0"], d["C0"] = np.zeros((n, n)), P.x0, np.zeros((n, n))
        out.append(d)
    return out


def ct_pick(S, keys):
    ks = keys.split()
    return len(ks), [[s[k] for k in ks] + s["coef"] for s in S]


def ct_group(what, cases, big):
    def g(ctx):
        from parallel_control import clqt_tf as ct, parareal_clqt_tf as pt

        def body(rng, i):
            bl, st = [(2, 2), (3, 1), (1, 3)][i % 3]
            n, m, p = [(2, 1, 2), (1, 1, 1), (2, 2, 1)][i % 3]
            N = bl * st
            S = ct_sets(rng, bl, st, n, m, p)
            flc = (0, 1, 4)

            def run(name, fn, keys):
                k, sets = ct_pick(S, keys)
                modes(ctx, name, lambda *z: fn(z[:k], ct_funs(z[k:])), sets, eager=1, loop=not big)
            if what == "seq":
                run("clqt_seq_backwardpass", lambda a, f: ct.clqt_seq_backwardpass(N, *a, *f), "dt t0 ST vT")
                for zoh in (False, True):
                    run("clqt_seq_forwardpass zoh=%s" % zoh, lambda a, f: ct.clqt_seq_forwardpass(*a, *[f[j] for j in flc], u_zoh=zoh), "x0 K d dt t0")
                run("clqt_seq_fwdbwdpass", lambda a, f: ct.clqt_seq_fwdbwdpass(N, *a, *f), "dt t0 A0 b0 C0")
                run("clqt_combine_fwdbwd", lambda a, f: ct.clqt_combine_fwdbwd(*a), "K d S v A B C")
            elif what == "bw":
                for fwd in (False, True):
                    run("clqt_par_backwardpass forward=%s" % fwd, lambda a, f: ct.clqt_par_backwardpass(bl, st, *a, *f, forward=fwd), "dt t0 ST vT")
            elif what == "fw":
                for fwd in (False, True):
                    run("clqt_par_forwardpass forward=%s" % fwd, lambda a, f: ct.clqt_par_forwardpass(bl, st, *a, *[f[j] for j in flc], forward=fwd), "x0 K d dt t0")
            elif what == "fb":
                fwd = bool(i % 2)
                run("clqt_par_fwdbwdpass forward=%s" % fwd, lambda a, f: ct.clqt_par_fwdbwdpass(bl, st, *a, *f, forward=fwd), "x0 S v K d dt t0")
            elif what == "pr":
                nit = 1
                run("pclqt_backwardpass", lambda a, f: pt.pclqt_backwardpass(bl, st, nit, *a, *f), "XT HT rT T")
                run("pclqt_fwdbwdpass", lambda a, f: pt.pclqt_fwdbwdpass(bl, st, nit, *a, *f), "x0 T")
            elif what == "prf":
                nit = 1
                run("pclqt_forwardpass", lambda a, f: pt.pclqt_forwardpass(bl, st, nit, *a, *[f[j] for j in flc]), "x0 T K d")
            ctx.note(blocks=bl, steps=st, n=n, m=m, digest=[S[0]["K"]])
        ctx.cases(*cases, body)
    return g


def g_nonlinear(ctx):
    import tensorflow as tf
    from parallel_control import nlqt_tf as nt, nonlinear_model_tf as mt
    from parallel_control.diffeq_tf import rk4

    def body(rng, i):
        T = [3, 1, 4][i % 3]

        def data(T):
            sp = lambda k: Q.spd(rng, k)
            return dict(u=rng.normal(size=(T, 2)) * 0.2, x=rng.normal(size=(T + 1, 4)), x0=rng.normal(size=4), H=rng.normal(size=(T, 3, 4)), HT=rng.normal(size=(3, 4)),
                        r=rng.normal(size=(T, 3)), rT=rng.normal(size=3), X=np.array([sp(3) for _ in range(T)]), XT=sp(3), U=np.array([sp(2) for _ in range(T)]),
                        A=rng.normal(size=(4, 4)) * 0.4, t=np.float64(rng.normal()), h=np.float64(rng.uniform(0.1, 0.6)))
        S = [data(T), data(T), data(T + 1)]
        f, Fx, Fu = mt.nonlinear_model_f, mt.nonlinear_model_Fx, mt.nonlinear_model_Fu
        for nm, fn in (("f", f), ("Fx", Fx), ("Fu", Fu)):
            modes(ctx, "nonlinear_model_" + nm, lambda x, u: fn(x[:-1], u), pick(S, "x u"), 2, loop=True)
        modes(ctx, "nlqt_linearize", lambda u, x: nt.nlqt_linearize(u, x[:-1], f, Fx, Fu), pick(S, "u x"), 2, loop=True)
        modes(ctx, "nlqt_simulate", lambda x0, u: nt.nlqt_simulate(x0, u, f), pick(S, "x0 u"), 2, loop=True)
        C = "H HT r rT X XT U"
        modes(ctx, "nlqt_cost", lambda x0, u, *z: nt.nlqt_cost(x0, u, f, *z), pick(S, "x0 u " + C), 2, loop=True)
        for nm in ("nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2"):
            modes(ctx, nm, lambda u, x, *z: getattr(nt, nm)(u, x, f, Fx, Fu, *z), pick(S[:2] if "par" in nm else S, "u x " + C), 1, loop=nm.endswith("seq"))
        modes(ctx, "rk4", lambda A, x, h, t: rk4(lambda y, s, q: tf.linalg.matvec(A, tf.sin(y)) + s * q, h, x, t, h), pick(S, "A x0 h t"), 2, loop=True)
        ctx.note(T=T, digest=[S[0]["x"]])
    ctx.cases(3, 30, body)


def g_grid(ctx):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_tf as ht, sqp_tf

    def body(rng, i):
        n, m, bl, st = [(5, 3, 2, 2), (4, 2, 3, 1), (6, 4, 1, 3)][i % 3]

        def data(n):
            return dict(V1=rng.uniform(0, 4, size=(2, n, n)), V2=rng.uniform(0, 4, size=(2, n, n)), x=np.linspace(-1, 1, n) * rng.uniform(0.5, 1.5), u=np.sort(rng.normal(size=m)),
                        a=np.float64(rng.normal()), T=np.float64(rng.uniform(0.05, 0.3)), bV=rng.uniform(0, 4, size=(n, n)),
                        G=Q.spd(rng, 3), c=rng.normal(size=3), A=rng.normal(size=(2, 3)), b=rng.normal(size=2), y=0.4 * rng.normal(size=3))
        S = [data(n), data(n), data(n + 1)]
        for nm in ("combine_V", "combine_V2", "combine_V_rev", "combine_V_interp", "combine_V_interp_rev")[i % 2::2]:
            modes(ctx, nm, getattr(ht, nm), pick(S, "V1 V2"), 1, loop=True)
        LT = lambda x: x * x
        for nm in ("seq_bw_pass_symfd", "seq_bw_pass_upwind")[i % 2:][:1]:
            modes(ctx, nm, lambda a, T, x, u: getattr(ht, nm)(lambda y, w: a * y + w, lambda y, w: y * y + a * w * w, LT, T, bl, st, x, u), pick(S, "a T x u"), 1)
        for nm in ("seq_bw_pass_assoc", "par_bw_pass"):
            modes(ctx, nm, lambda x, V: getattr(ht, nm)(LT, bl, x, V), pick(S, "x bV"), 1, loop=True)
        modes(ctx, "lqe_solve", sqp_tf.lqe_solve, pick(S, "G c A b"), 2, loop=True)
        if i % 2:
            fun = lambda z, q: 0.5 * tf.reduce_sum(z * z, -1) + q * tf.reduce_sum(tf.cos(z), -1) * 0.3
            con = lambda z, q: tf.stack([tf.reduce_sum(z, -1) - q, z[..., 0] + 0.1 * z[..., 1] ** 2], -1)
            modes(ctx, "local_eq_fast", lambda y, q: sqp_tf.local_eq_fast(fun, con, y, q, num_iter=3), pick(S[:2], "y a"), 0)
        ctx.note(n=n, blocks=bl, steps=st, digest=[S[0]["V1"]])
    ctx.cases(2, 30, body)


def g_jax(ctx):
    import jax
    import jax.numpy as jnp
    from parallel_control import cnonlin_models_np as mn, hjb_grid_1d_np as hj, sqp_np
    from parallel_control.diffeq_np import rk4

    def body(rng, i):
        n, m = [(3, 2), (4, 1), (2, 1)][i % 3]

        def data(ns):
            return dict(G=Q.spd(rng, n), c=rng.normal(size=n), A=rng.normal(size=(m, n)), b=rng.normal(size=m), y=0.4 * rng.normal(size=n), V1=rng.uniform(0, 4, size=(ns, ns)),
                        V2=rng.uniform(0, 4, size=(ns, ns)), x=np.linspace(-1, 1, ns), u=np.sort(rng.normal(size=3)), a=float(rng.normal()), h=float(rng.uniform(0.05, 0.4)))
        S = [data(5), data(5), data(6)]
        fun = lambda z: 0.5 * z @ z + 0.3 * jnp.sum(jnp.cos(z))
        mkh = lambda a, x, T: hj.HJB_Grid_1d(lambda y, w: a * y + w, lambda y, w: y * y + w * w, lambda y: y * y, T, 2, 2, x)
        ops = [("lqe_solve", sqp_np.lqe_solve, "G c A b"),
               ("local_eq_fast", lambda y, A, b: sqp_np.local_eq_fast(fun, lambda z: A @ z - b, y, 3), "y A b"),
               ("combine_V", hj.combine_V, "V1 V2"), ("combine_V_interp", hj.combine_V_interp, "V1 V2"),
               ("seqBackwardPass_symfd", lambda a, x, u, h: mkh(a, x, h).seqBackwardPass_symfd(u), "a x u h"),
               ("seqBackwardPass_upwind", lambda a, x, u, h: mkh(a, x, h).seqBackwardPass_upwind(u), "a x u h"),
               ("rk4", lambda G, y, h, a: rk4(lambda z, s, p: G @ jnp.sin(z) + s * p, h, y, t=a, param=h), "G y h a")]
        for nm, fn, keys in ops:
            sets = [[jnp.array(z) for z in s] for s in pick(S, keys)]
            want = [ctx.call(nm, fn, *s) for s in sets]
            g = jax.jit(fn)
            for k in (0, 1, 2, 0):
                same(ctx, "compiled", nm, ctx.call(nm + " (compiled)", g, *sets[k]), want[k])
            ctx.feature("compiled")
            out = ctx.call(nm + " (vectorized)", jax.vmap(fn), *[jnp.stack(z) for z in zip(*sets[:2])])
            for k in (0, 1):
                same(ctx, "vectorized", nm, jax.tree_util.tree_map(lambda z: z[k], out), want[k])
            ctx.feature("vectorized")
            with jax.disable_jit():
                same(ctx, "not compiled", nm, ctx.call(nm + " (not compiled)", fn, *sets[0]), want[0])
        ctx.note(n=n, m=m, digest=[S[0]["G"]])
    ctx.cases(3, 30, body)


GROUPS = dict(lq=g_lq, finite=g_finite, nonlinear=g_nonlinear, grid=g_grid, jax=g_jax, seq=ct_group("seq", (2, 20), False), bw=ct_group("bw", (1, 6), True),
              fw=ct_group("fw", (1, 6), True), fb=ct_group("fb", (1, 8), True), pr=ct_group("pr", (1, 6), True), prf=ct_group("prf", (1, 8), True))
