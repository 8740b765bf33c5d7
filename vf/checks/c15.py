"""C15: nonlinear tracking iterations against exact linear-quadratic steps."""
import numpy as np
from vf.core import big_dims

from vf import oracles_lq as Q
from vf.core import Skip, to_np

RT = 1e-8


def sc(*a):
    return max(1.0, max(float(np.max(np.abs(to_np(z)))) for z in a if np.size(to_np(z))))


class Model:
    """x+ = A x + B u + c + g * sin(W x + V u + b), smooth with known derivatives."""

    def __init__(self, rng, n, m, gain=None):
        self.n, self.m = n, m
        self.A = Q.rand_F(rng, n, str(rng.choice(["plain", "integrator", "orth", "singular"]))) * 0.8
        self.B, self.c = 0.7 * rng.normal(size=(n, m)), 0.3 * rng.normal(size=n)
        self.W, self.V, self.b = 0.6 * rng.normal(size=(n, n)), 0.5 * rng.normal(size=(n, m)), rng.normal(size=n)
        self.g = rng.uniform(0.1, 0.6, size=n) * (1.0 if gain is None else gain)

    def f(self, x, u):
        return self.A @ x + self.B @ u + self.c + self.g * np.sin(self.W @ x + self.V @ u + self.b)

    def Fx(self, x, u):
        return self.A + (self.g * np.cos(self.W @ x + self.V @ u + self.b))[:, None] * self.W

    def Fu(self, x, u):
        return self.B + (self.g * np.cos(self.W @ x + self.V @ u + self.b))[:, None] * self.V

    def arrays(self):
        return [self.A, self.B, self.c, self.W, self.V, self.b, self.g]

    def units(self, s, t):
        """The same dynamics for states in units of s and controls in units of t."""
        o = object.__new__(Model)
        o.n, o.m, o.A, o.b = self.n, self.m, self.A, self.b
        o.B, o.c, o.W, o.V, o.g = self.B * (t / s), self.c / s, self.W * s, self.V * t, self.g / s
        return o


def linearized(pr, model, us, xs):
    """The tracking problem with dynamics expanded along the nominal."""
    q = dict(pr)
    q["F"] = [model.Fx(x, u) for x, u in zip(xs, us)]
    q["L"] = [model.Fu(x, u) for x, u in zip(xs, us)]
    q["c"] = [model.f(x, u) - F @ x - L @ u for x, u, F, L in zip(xs, us, q["F"], q["L"])]
    return q


def rollout(model, x0, us):
    xs = [np.asarray(x0, float)]
    for u in us:
        xs.append(model.f(xs[-1], u))
    return xs


def nl_gradient(pr, model, x0, us):
    """Exact gradient of the nonlinear objective in the controls (adjoint)."""
    xs = rollout(model, x0, us)
    return Q.gradient(linearized(pr, model, us, xs), xs, us)


def expected(pr, model, us, xs, parallel):
    q = linearized(pr, model, us, xs)
    sol = Q.dp(q)
    if not Q.well_posed(sol, 1e5) or (parallel and Q.par_cond(q, sol) > 1e6):
        raise Skip()
    X, U = Q.roll(q, xs[0], sol["K"], sol["d"])
    if sc(X, U) > 1e4:
        raise Skip()
    return X, U, q


def g_np(ctx):
    from parallel_control.lqt_np import LQT
    from parallel_control.nlqt_np import NLQT

    def body(rng, i):
        n, m, T = *big_dims(rng, i, int(rng.integers(1, 5)), int(rng.integers(1, 4)), hi=13), int(rng.integers(1, 20))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 3), zmat=bool(i % 4))
        model = Model(rng, n, m)
        nl = NLQT(Q.build(LQT, pr), model)
        x0 = Q.start(rng, n)
        us = [rng.normal(size=m) for _ in range(T)]
        xs = rollout(model, x0, us) if i % 2 else [x0] + [rng.normal(size=n) for _ in range(T)]
        ctx.note(n=n, m=m, T=T, consistent_nominal=bool(i % 2), digest=model.arrays())
        # simulation and objective
        w = rollout(model, x0, us)
        ctx.close("simulate", np.array(ctx.call("simulate", nl.simulate, x0, us)), np.array(w), 1e-12, 1e-12)
        ctx.close("objective", ctx.call("cost", nl.cost, x0, us), Q.cost(pr, w, us), 1e-10, 1e-10)
        # linearization
        ctx.call("linearize", nl.linearize, us, xs)
        q = linearized(pr, model, us, xs)
        for key in "FLc":
            ctx.close("linearization " + key, np.array(getattr(nl.lqt, key)), np.array(q[key]), 1e-12, 1e-12)
        hist = 3
        for it in range(hist):
            X, U, q = expected(pr, model, us, xs, True)
            s = sc(X, U)
            for method in (0, 1, 2):
                u2, x2 = ctx.call("iterate %d" % method, nl.iterate, list(us), list(xs), lqt_method=method)
                ctx.close("step controls method %d" % method, np.array(u2), np.array(U), RT, 0, scale=s)
                ctx.close("step states method %d" % method, np.array(x2), np.array(X), RT, 0, scale=s)
            if it == 0:
                u2, x2 = ctx.call("iterate default", nl.iterate, us, xs)
                ctx.close("step controls default", np.array(u2), np.array(U), RT, 0, scale=s)
                # the minimizer of the linearized problem is stationary and not beaten
                g = Q.gradient(q, list(x2), list(u2))
                ctx.close("step is stationary", g, np.zeros_like(g), 0, 1e-6 * s * sc(*[q[k] for k in "F"], pr["XT"]) * 10)
                J = Q.cost(q, list(x2), list(u2))
                v = [u + 0.3 * rng.normal(size=m) for u in u2]
                ctx.true("step beats perturbations", J <= Q.cost(q, Q.simulate(q, x0, v), v) + 1e-7 * s * s * T)
            us, xs = list(u2), list(x2)
            ctx.feature("iterations")
    ctx.cases(220, 2000, body)


def g_near(ctx):
    """One solver on nominals that are close to, equal to or edited versions of earlier ones."""
    from parallel_control.lqt_np import LQT
    from parallel_control.nlqt_np import NLQT

    def body(rng, i):
        n, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 10))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 2), zmat=bool(i % 3))
        model = Model(rng, n, m)
        nl = NLQT(Q.build(LQT, pr), model)
        us, xs = [rng.normal(size=m) for _ in range(T)], [rng.normal(size=n) for _ in range(T + 1)]
        ctx.note(n=n, m=m, T=T, digest=model.arrays())
        u0, x0 = us, xs
        for it in range(6):
            eps = float(10.0 ** -rng.uniform(1, 7))
            k, how = int(rng.integers(T)), str(rng.choice(["all", "one step", "in place", "back", "initial", "controls", "states"]))
            if how in ("all", "controls"):
                us = [u + eps * rng.normal(size=m) for u in us]
            if how in ("all", "states"):
                xs = [x + eps * rng.normal(size=n) for x in xs]
            if how == "one step":
                us, xs = list(us), list(xs)
                us[k], xs[k] = us[k] + eps, xs[k] - eps
            if how == "in place":
                us[k] += eps
                xs[k] *= 1 + eps
            if how == "initial":
                xs[0] = xs[0] + eps
            if how == "back":
                us, xs = u0, x0
            X, U, q = expected(pr, model, us, xs, True)
            s = sc(X, U)
            u2, x2 = ctx.call("iterate %d" % (it % 3), nl.iterate, us, xs, lqt_method=it % 3)
            ctx.close("step controls method %d" % (it % 3), np.array(u2), np.array(U), RT, 0, scale=s)
            ctx.close("step states method %d" % (it % 3), np.array(x2), np.array(X), RT, 0, scale=s)
            u3, x3 = ctx.call("iterate %d" % (it % 3), NLQT(Q.build(LQT, pr), model).iterate, us, xs, lqt_method=it % 3)
            ctx.close("as a new solver: controls", np.array(u2), np.array(u3), 1e-11, 0, scale=s)
            ctx.close("as a new solver: states", np.array(x2), np.array(x3), 1e-11, 0, scale=s)
            ctx.feature("nominal changed: " + how)
    ctx.cases(80, 800, body)


def g_fixed(ctx):
    """Iterating to a fixed point gives a stationary point of the nonlinear problem."""
    from parallel_control.lqt_np import LQT
    from parallel_control.nlqt_np import NLQT

    def body(rng, i):
        n, m, T = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 12))
        pr = Q.rand_lqt(rng, T, n, m, cross=bool(i % 2), zmat=bool(i % 3))
        model = Model(rng, n, m, gain=0.4)
        nl = NLQT(Q.build(LQT, pr), model)
        x0 = Q.start(rng, n)
        us, xs = [np.zeros(m)] * T, [x0] + [np.zeros(n)] * T
        ctx.note(n=n, m=m, T=T, method=i % 3, digest=model.arrays())
        done = False
        for it in range(40):
            expected(pr, model, us, xs, True)
            u2, x2 = ctx.call("iterate %d" % (i % 3), nl.iterate, us, xs, lqt_method=i % 3)
            dev = max(np.max(np.abs(np.array(u2) - np.array(us))), np.max(np.abs(np.array(x2) - np.array(xs))))
            us, xs = list(u2), list(x2)
            if dev < 1e-10 * sc(us, xs):
                done = True
                break
        if not done:
            raise Skip()
        ctx.feature("reached a fixed point")
        ctx.close("fixed point is dynamically consistent", np.array(xs), np.array(rollout(model, x0, us)), 1e-7, 1e-7)
        g = nl_gradient(pr, model, x0, us)
        ctx.close("fixed point is stationary", g, np.zeros_like(g), 0, 1e-6 * sc(us, xs) * sc(pr["XT"], *pr["X"]))
        # and the solver's own objective is flat there
        J = float(ctx.call("cost", nl.cost, x0, us))
        ctx.close("objective at the fixed point", J, Q.cost(pr, rollout(model, x0, us), us), 1e-9, 1e-9)
        k = int(rng.integers(T))
        e = rng.normal(size=m)
        e /= np.linalg.norm(e)
        h = 1e-4
        up = [u + h * e if j == k else u for j, u in enumerate(us)]
        dn = [u - h * e if j == k else u for j, u in enumerate(us)]
        slope = (float(nl.cost(x0, up)) - float(nl.cost(x0, dn))) / (2 * h)
        ctx.close("objective is flat", slope, 0.0, 0, 1e-5 * sc(us, xs) ** 2 * sc(pr["XT"], *pr["X"]))
    ctx.cases(60, 500, body)


def g_unicycle(ctx):
    """Shipped vehicle model: both implementations, from both initial guesses."""
    import tensorflow as tf
    from parallel_control.nonlinear_model_np import NonlinearModel
    from parallel_control import nonlinear_model_tf as nm, nlqt_tf, lqt_tf
    from parallel_control.nlqt_np import NLQT

    def body(rng, i):
        N, steps = [(5, 2), (8, 1), (3, 5)][i % 3]
        model = NonlinearModel(dt=0.1)
        xy = 1.0 * np.array([rng.normal(size=N).cumsum(), rng.normal(size=N).cumsum(), 0.3 * rng.normal(size=N).cumsum()])
        lqt, x0 = ctx.call("getLQT", model.getLQT, xy, steps=steps)
        us, xs = ctx.call("initialGuess", model.initialGuess, lqt, x0, init_to_zero=bool(i % 2))
        pr = {k: list(getattr(lqt, k)) for k in Q.KEYS}
        pr.update(HT=lqt.HT, XT=lqt.XT, rT=lqt.rT)
        nl = NLQT(lqt, model)
        ctx.note(N=N, steps=steps, zero=bool(i % 2), digest=xy)
        x0 = xs[0]
        # uncontrollable directions of the zero guess amplify; steps are exact either way
        for it in range(3):
            X, U, q = expected(pr, model, us, xs, False)
            s = sc(X, U)
            amp = Q.par_cond(q, Q.dp(q))
            for method in (0, 1, 2):
                if method < 2 and amp > 1e9:
                    ctx.feature("parallel step skipped")
                    continue
                tol = RT if method == 2 else 1e-5
                u2, x2 = ctx.call("iterate %d" % method, nl.iterate, us, xs, lqt_method=method)
                ctx.close("vehicle controls method %d" % method, np.array(u2), np.array(U), tol, 0, scale=s)
                ctx.close("vehicle states method %d" % method, np.array(x2), np.array(X), tol, 0, scale=s)
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = lqt_tf.lqt_np_to_tf(lqt)
            args = (tf.constant(np.array(us)), tf.constant(np.array(xs)), nm.nonlinear_model_f, nm.nonlinear_model_Fx, nm.nonlinear_model_Fu,
                    Hs, HT, rs, rT, Xs, XT, Us)
            for nme in ("seq", "par_1", "par_2"):
                if nme != "seq" and amp > 1e9:
                    continue
                tol = RT if nme == "seq" else 1e-5
                u2, x2 = ctx.call("nlqt_iterate_" + nme, getattr(nlqt_tf, "nlqt_iterate_" + nme), *args)
                ctx.close("vehicle tensor controls " + nme, u2, np.array(U), tol, 0, scale=s)
                ctx.close("vehicle tensor states " + nme, x2, np.array(X), tol, 0, scale=s)
            us, xs = [u for u in U], [x for x in X]
        w = rollout(model, x0, us)
        ctx.close("vehicle tensor simulation", ctx.call("nlqt_simulate", nlqt_tf.nlqt_simulate, tf.constant(x0), tf.constant(np.array(us)), nm.nonlinear_model_f), np.array(w), 1e-11, 1e-11)
        J = Q.cost(pr, w, us)
        ctx.close("vehicle objective", ctx.call("cost", nl.cost, x0, us), J, 1e-10, 1e-10)
        ctx.close("vehicle tensor objective", ctx.call("nlqt_cost", nlqt_tf.nlqt_cost, tf.constant(x0), tf.constant(np.array(us)), nm.nonlinear_model_f, Hs, HT, rs, rT, Xs, XT, Us), J, 1e-10, 1e-10)
    ctx.cases(6, 40, body)


def g_units(ctx):
    """The same problem in other units of states, controls, outputs and cost takes the same steps."""
    import tensorflow as tf
    from parallel_control import nlqt_tf
    from parallel_control.lqt_np import LQT
    from parallel_control.nlqt_np import NLQT
    T2, n2, m2 = 5, 2, 2
    var = [tf.Variable(np.zeros(k)) for k in ((n2, n2), (n2, m2), n2, (n2, n2), (n2, m2), n2, n2)]
    A, B, c, W, V, b, g_ = var
    mv = tf.linalg.matvec
    ph = lambda xs, us: mv(W[None], xs) + mv(V[None], us) + b
    f = lambda xs, us: mv(A[None], xs) + mv(B[None], us) + c + g_ * tf.sin(ph(xs, us))
    Fx = lambda xs, us: A[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * W[None]
    Fu = lambda xs, us: B[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * V[None]

    def body(rng, i):
        tens = i % 5 == 4
        n, m, T = (n2, m2, T2) if tens else (int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 14)))
        pr = Q.rand_lqt(rng, T, n, m, cross=not tens and bool(i % 3), zmat=not tens and bool(i % 4), **(dict(rvar=False, rdim=2, rTdim=1) if tens else {}))
        model = Model(rng, n, m)
        un = Q.Units(rng, zt=tens)
        s, t = un.s, un.t
        qr, mu = un.problem(pr), model.units(un.s, un.t)
        x0 = Q.start(rng, n)
        us = [rng.normal(size=m) for _ in range(T)]
        xs = rollout(model, x0, us) if i % 2 else [x0] + [rng.normal(size=n) for _ in range(T)]
        ctx.note(n=n, m=m, T=T, tf=tens, digest=model.arrays(), **un.note())
        ct = lambda a: tf.constant(np.array(a), tf.float64)
        w = rollout(model, x0, us)
        J = Q.cost(pr, w, us)
        if tens:
            for v, a in zip(var, mu.arrays()):
                v.assign(a)
            data = [ct(qr[k]) for k in ("H", "HT", "r", "rT", "X", "XT", "U")]
            sim = ctx.call("nlqt_simulate", nlqt_tf.nlqt_simulate, ct(x0 / s), ct(np.array(us) / t), f)
            Jc = ctx.call("nlqt_cost", nlqt_tf.nlqt_cost, ct(x0 / s), ct(np.array(us) / t), f, *data)
        else:
            nl = NLQT(Q.build(LQT, qr), mu)
            sim = ctx.call("simulate", nl.simulate, x0 / s, [u / t for u in us])
            Jc = ctx.call("cost", nl.cost, x0 / s, [u / t for u in us])
        ctx.close("units: simulation", to_np(sim) * s if tens else np.array(sim) * s, np.array(w), 1e-11, 1e-11)
        ctx.close("units: objective", float(to_np(Jc)) / un.a, J, 1e-10, 1e-10)
        for it in range(3):
            X, U, q = expected(pr, model, us, xs, True)
            sz = sc(X, U)
            for nm in ("seq", "par_1", "par_2") if tens else (0, 1, 2):
                if tens:
                    u2, x2 = ctx.call("nlqt_iterate_" + nm, getattr(nlqt_tf, "nlqt_iterate_" + nm), ct(np.array(us) / t), ct(np.array(xs) / s), f, Fx, Fu, *data)
                else:
                    u2, x2 = ctx.call("iterate %d" % nm, nl.iterate, [u / t for u in us], [x / s for x in xs], lqt_method=nm)
                ctx.close("units: step controls %s" % nm, to_np(u2) * t if tens else np.array(u2) * t, np.array(U), RT, 0, scale=sz)
                ctx.close("units: step states %s" % nm, to_np(x2) * s if tens else np.array(x2) * s, np.array(X), RT, 0, scale=sz)
            us, xs = [u for u in U], [x for x in X]
    ctx.cases(60, 500, body)


def tf_group(shapes):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import nlqt_tf
        store = {}

        def funs(n, m):
            """One set of TF functions per size (fixed objects: no retracing)."""
            if (n, m) not in store:
                A, B, c, W, V, b, g_ = [tf.Variable(np.zeros(s)) for s in ((n, n), (n, m), n, (n, n), (n, m), n, n)]
                mv = tf.linalg.matvec
                ph = lambda xs, us: mv(W[None], xs) + mv(V[None], us) + b
                f = lambda xs, us: mv(A[None], xs) + mv(B[None], us) + c + g_ * tf.sin(ph(xs, us))
                Fx = lambda xs, us: A[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * W[None]
                Fu = lambda xs, us: B[None] + (g_ * tf.cos(ph(xs, us)))[..., None] * V[None]
                store[n, m] = (A, B, c, W, V, b, g_), f, Fx, Fu
            return store[n, m]

        def body(rng, i):
            T, n, m, p, pT = shapes[i % len(shapes)]
            pr = Q.rand_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=p, rTdim=pT)
            model = Model(rng, n, m)
            var, f, Fx, Fu = funs(n, m)
            for v, a in zip(var, model.arrays()):
                v.assign(a)
            x0 = Q.start(rng, n)
            us = [rng.normal(size=m) for _ in range(T)]
            xs = rollout(model, x0, us) if (i // len(shapes)) % 2 else [x0] + [rng.normal(size=n) for _ in range(T)]
            ctx.note(T=T, n=n, m=m, p=p, pT=pT, digest=model.arrays())
            c = lambda a: tf.constant(np.array(a), tf.float64)
            data = [c(pr[k]) for k in ("H", "HT", "r", "rT", "X", "XT", "U")]
            w = rollout(model, x0, us)
            ctx.close("tensor simulation", ctx.call("nlqt_simulate", nlqt_tf.nlqt_simulate, c(x0), c(us), f), np.array(w), 1e-11, 1e-11)
            ctx.close("tensor objective", ctx.call("nlqt_cost", nlqt_tf.nlqt_cost, c(x0), c(us), f, *data), Q.cost(pr, w, us), 1e-10, 1e-10)
            q = linearized(pr, model, us, xs)
            Fs, cs, Ls = ctx.call("nlqt_linearize", nlqt_tf.nlqt_linearize, c(us), c(xs[:-1]), f, Fx, Fu)
            for nm, a, k in (("F", Fs, "F"), ("c", cs, "c"), ("L", Ls, "L")):
                ctx.close("tensor linearization " + nm, a, np.array(q[k]), 1e-12, 1e-12)
            for it in range(2):
                X, U, q = expected(pr, model, us, xs, True)
                s = sc(X, U)
                mp = int(rng.choice([T, 2 * T + 1, 10000])) if i % 5 == 4 else None
                for nm in ("seq", "par_1", "par_2"):
                    kw = {} if nm == "seq" or mp is None else dict(max_parallel=mp)
                    u2, x2 = ctx.call("nlqt_iterate_" + nm, getattr(nlqt_tf, "nlqt_iterate_" + nm), c(us), c(xs), f, Fx, Fu, *data, **kw)
                    ctx.close("tensor step controls " + nm, u2, np.array(U), RT, 0, scale=s)
                    ctx.close("tensor step states " + nm, x2, np.array(X), RT, 0, scale=s)
                us, xs = list(to_np(u2)), list(to_np(x2))
        ctx.cases(6 * len(shapes), 40 * len(shapes), body)
    return g


GROUPS = dict(near=g_near, np=g_np, units=g_units, fixed=g_fixed, unicycle=g_unicycle, tf1=tf_group([(1, 2, 1, 2, 1), (4, 3, 2, 2, 3)]), tf2=tf_group([(7, 2, 2, 1, 2), (2, 1, 2, 1, 1)]),
              tf3=tf_group([(13, 4, 2, 3, 4), (8, 2, 1, 3, 2)]))
