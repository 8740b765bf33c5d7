"""C12  Continuous-time tracking: block-parallel solvers."""
import numpy as np

from vf.core import Skip, to_np
from vf import oracles_ct as o
from vf.checks.c11 import levels, clqr, long_prob


def law(ctx, K, d, u, x):
    ctx.close("control law along trajectory", np.array(u),
              np.array(d) - np.einsum("kij,kj->ki", np.array(K), np.array(x)[:-1]), 1e-11, 1e-12)


def lens(ctx, label, st, ctrl, vals):
    ctx.true(label, all(len(z) == st for z in ctrl) and all(len(z) == st + 1 for z in vals),
             "%s controls/gains and %s values for %d steps" % ([len(z) for z in ctrl], [len(z) for z in vals], st), abort=True)


def g_np(ctx):
    def body(rng, i):
        P = o.rand_prob(rng, invariant=bool(i % 5 == 0))
        n = P.n
        t0 = None if i % 3 == 0 else float(rng.uniform(-2, 2))
        P.shift(t0)
        tb = 0.0 if t0 is None else t0
        blocks = int(rng.integers(1, 10))
        N = o.steps_for(P, t0=tb)
        s0 = max(1, int(np.ceil(N / blocks)))
        fwd = bool(i % 2)
        q = P.build()
        ctx.note(n=n, m=P.m, p=P.p, blocks=blocks, steps=s0, forward=fwd, t0=t0, digest=P.digest())
        b0 = rng.standard_normal(n)

        def level(mult):
            steps = s0 * mult
            st = blocks * steps
            dt = P.T / st
            ts = tb + dt * np.arange(st + 1)
            Phi = o.magnus(P.ham, ts)
            S, v = o.backward(Phi, P.ST(), P.vT(), n)
            K, d = P.gain(ts[:-1], S[:-1], v[:-1])
            x = o.forward(Phi, S, v, P.x0, n)
            u = d - np.einsum("kij,kj->ki", K, x[:-1])
            kw = {} if t0 is None else dict(dt=dt, t0=t0)
            rec = {}
            els = [o.element(Phi[k * steps:(k + 1) * steps], n) for k in range(blocks)]
            ge = ctx.call("CLQT.parBackwardPass_init", q.parBackwardPass_init, blocks, steps, forward=fwd, **kw)
            ctx.true("block elements", len(ge) == blocks + 1, "%d elements for %d blocks" % (len(ge), blocks), abort=True)
            for j, nm in enumerate(("A", "b", "C", "eta", "J")):
                rec["block " + nm] = ([e[j] for e in ge[:-1]], np.array([e[j] for e in els]))
            ctx.close("terminal element", np.concatenate([np.ravel(z) for z in ge[-1]]),
                      np.concatenate([np.zeros(n * n), np.zeros(n), np.zeros(n * n), P.vT(), P.ST().ravel()]), 1e-12, 1e-13)
            gK, gd, gS, gv = ctx.call("CLQT.parBackwardPass", q.parBackwardPass, blocks, steps, forward=fwd, **kw)
            lens(ctx, "backward grid", st, (gK, gd), (gS, gv))
            rec.update(K=(gK, K), d=(gd, d), S=(gS, S), v=(gv, v))
            fe = ctx.call("CLQT.parFwdBwdPass_init", q.parFwdBwdPass_init, P.x0, blocks, steps, forward=fwd, **kw)
            for j, nm in enumerate(("A", "b", "C", "eta", "J")):
                rec["fwdbwd block " + nm] = ([e[j] for e in fe[1:]], np.array([e[j] for e in els]))
            ctx.close("initial element", np.concatenate([np.ravel(z) for z in fe[0][:3]]),
                      np.concatenate([np.zeros(n * n), P.x0, np.zeros(n * n)]), 1e-12, 1e-13)
            for ff in (True, False):
                gu, gx = ctx.call("CLQT.parFwdBwdPass", q.parFwdBwdPass, P.x0, gK, gd, gS, gv, blocks, steps, forward=ff, **kw)
                lens(ctx, "fwdbwd grid", st, (gu,), (gx,))
                rec["fwdbwd x %s" % ff] = (gx, x)
                rec["fwdbwd u %s" % ff] = (gu, u)
            hu, hx = o.held(P, ts, P.x0, np.array(gK), np.array(gd))
            for ff in (True, False):
                gu, gx = ctx.call("CLQT.parForwardPass", q.parForwardPass, P.x0, gK, gd, blocks, steps, forward=ff, **kw)
                lens(ctx, "forward grid", st, (gu,), (gx,))
                law(ctx, gK, gd, gu, gx)
                rec["held x %s" % ff] = (gx, hx)
                if ff:
                    su, sx = q.seqForwardPass(P.x0, gK, gd, **kw)
                    ctx.close("parallel equals sequential roll-out", np.array(gx), np.array(sx), 1e-9, 1e-10)
                    rec["x1"] = (gx, x)
            gu, gx = ctx.call("CLQT.parForwardPass zoh", q.parForwardPass, P.x0, gK, gd, blocks, steps, u_zoh=True, **kw)
            lens(ctx, "forward grid", st, (gu,), (gx,))
            law(ctx, gK, gd, gu, gx)
            rec["x1 zoh"] = (gx, x)
            # within a block the held control drives the state
            zx, gxa = [], np.array(gx)
            for k in range(blocks):
                a, b = k * steps, (k + 1) * steps
                zx.append(o.held(P, ts[a:b + 1], gxa[a], np.array(gK)[a:b], np.array(gd)[a:b], True)[1][:-1])
            rec["zoh within block"] = (gxa[:-1], np.concatenate(zx))
            # block maps of the closed loop
            for ff in (True, False):
                fp = ctx.call("CLQT.parForwardPass_init", q.parForwardPass_init, P.x0, gK, gd, blocks, steps, forward=ff, **kw)
                he = [o.held_element(P, ts[k * steps:(k + 1) * steps + 1], np.array(gK)[k * steps:(k + 1) * steps],
                                     np.array(gd)[k * steps:(k + 1) * steps], 2) for k in range(blocks)]
                rec["block Psi %s" % ff] = ([e[0] for e in fp[1:]], np.array([e[0] for e in he]))
                rec["block phi %s" % ff] = ([e[1] for e in fp[1:]], np.array([e[1] for e in he]))
                ctx.close("first phi", fp[0][1], P.x0, 0, 0)
            return rec
        levels(ctx, level, orders={"x1": 1, "x1 zoh": 1}, max_mult=16)
        ctx.call_raises("length mismatch", ValueError, q.parForwardPass_init, P.x0, [np.zeros((P.m, n))] * 5, [np.zeros(P.m)] * 5, 2, 3)
    ctx.cases(15, 120, body)


def g_split(ctx):
    """The same step count split into different blocks gives the same answer up
    to discretization error, also one block and one step per block."""
    def body(rng, i):
        P = o.rand_prob(rng)
        q = P.build()
        N = 12 * int(np.ceil(o.steps_for(P, 0.3) / 12))
        ctx.note(n=P.n, N=N, digest=P.digest())
        ts = P.T / N * np.arange(N + 1)
        Phi = o.magnus(P.ham, ts)
        S, v = o.backward(Phi, P.ST(), P.vT(), P.n)
        K, d = P.gain(ts[:-1], S[:-1], v[:-1])
        x = o.forward(Phi, S, v, P.x0, P.n)
        sK, sd, sS, sv = q.seqBackwardPass(N)
        e0 = max(np.abs(np.array(sS) - S).max(), np.abs(np.array(sv) - v).max())
        A, b, C = q.seqFwdBwdPass(P.x0, N)
        su, sx = q.combineForwardBackward(sK, sd, sS, sv, A, b, C)
        ex = np.abs(np.array(sx) - x).max()
        hd = P.T / N * max(np.linalg.norm(g, 2) for g in P.ham(ts[::4]))
        if hd > 0.5:
            ctx.feature("coarse")
        tol = 10 * e0 + 50 * hd ** 5 * N * max(1, np.abs(S).max(), np.abs(v).max()) ** 2 * 1e-3 + 1e-9
        for blocks in [k for k in (1, 2, 3, 4, 6, 12, N // 2, N)]:
            for ff in (False, True):
                gK, gd, gS, gv = ctx.call("CLQT.parBackwardPass", q.parBackwardPass, blocks, N // blocks, forward=ff)
                lens(ctx, "backward grid", N, (gK, gd), (gS, gv))
                if hd <= 0.5:
                    ctx.close("any split: S", np.array(gS), S, 0, tol)
                    ctx.close("any split: v", np.array(gv), v, 0, tol)
            gu, gx = ctx.call("CLQT.parForwardPass", q.parForwardPass, P.x0, sK, sd, blocks, N // blocks)
            hu, hx = q.seqForwardPass(P.x0, sK, sd)
            ctx.close("any split: roll-out x", np.array(gx), np.array(hx), 1e-9, 1e-10)
            ctx.close("any split: roll-out u", np.array(gu), np.array(hu), 1e-9, 1e-10)
            gu, gx = ctx.call("CLQT.parFwdBwdPass", q.parFwdBwdPass, P.x0, sK, sd, sS, sv, blocks, N // blocks)
            lens(ctx, "fwdbwd grid", N, (gu,), (gx,))
            law(ctx, sK, sd, gu, gx)
            if hd <= 0.5:
                ctx.close("any split: fwdbwd x", np.array(gx), x, 0, 10 * ex + tol)
    ctx.cases(12, 80, body)


def g_clqr(ctx):
    def body(rng, i):
        P = o.rand_prob(rng, invariant=True, homogeneous=True)
        q = clqr(P)
        n = P.n
        blocks = int(rng.integers(1, 9))
        s0 = max(1, int(np.ceil(o.steps_for(P) / blocks)))
        ctx.note(n=n, m=P.m, blocks=blocks, steps=s0, digest=P.digest())
        z = lambda st: np.zeros((st, P.m))

        def level(mult):
            steps = s0 * mult
            st = blocks * steps
            dt = P.T / st
            ts = dt * np.arange(st + 1)
            Phi = o.magnus(P.ham, ts, 1)
            S, v = o.backward(Phi, P.ST(), np.zeros(n), n)
            K, _ = P.gain(ts[:-1], S[:-1], v[:-1])
            x = o.forward(Phi, S, v, P.x0, n)
            u = -np.einsum("kij,kj->ki", K, x[:-1])
            rec = {}
            el = o.element(Phi[:steps], n)
            for ff in (False, True):
                ge = ctx.call("CLQR.parBackwardPass_init", q.parBackwardPass_init, blocks, steps, forward=ff)
                ctx.true("block elements", len(ge) == blocks + 1, "%d elements" % len(ge), abort=True)
                fe = ctx.call("CLQR.parFwdBwdPass_init", q.parFwdBwdPass_init, P.x0, blocks, steps, forward=ff)
                ctx.true("block elements", len(fe) == blocks + 1, "%d elements" % len(fe), abort=True)
                for j, nm in enumerate(("A", "b", "C", "eta", "J")):
                    w = np.array([el[j]] * blocks)
                    rec["block %s %s" % (nm, ff)] = ([e[j] for e in ge[:-1]], w)
                    rec["fwdbwd block %s %s" % (nm, ff)] = ([e[j] for e in fe[1:]], w)
            for em in ("rk4", "exact"):
                gK, gS = ctx.call("CLQR.parBackwardPass " + em, q.parBackwardPass, blocks, steps, extract_method=em)
                lens(ctx, "backward grid", st, (gK,), (gS,))
                rec["K " + em] = (gK, K)
                rec["S " + em] = (gS, S)
            hu, hx = o.held(P, ts, P.x0, np.array(gK), z(st), False, 1)
            for em in ("rk4", "exact"):
                gu, gx = ctx.call("CLQR.parForwardPass " + em, q.parForwardPass, P.x0, gK, blocks, steps, extract_method=em)
                lens(ctx, "forward grid", st, (gu,), (gx,))
                law(ctx, gK, z(st), gu, gx)
                rec["held x " + em] = (gx, hx)
                rec["x1 " + em] = (gx, x)
                gu, gx = ctx.call("CLQR.parForwardPass zoh " + em, q.parForwardPass, P.x0, gK, blocks, steps, extract_method=em, u_zoh=True)
                lens(ctx, "forward grid", st, (gu,), (gx,))
                law(ctx, gK, z(st), gu, gx)
                rec["x1 zoh " + em] = (gx, x)
            for ff in (True, False):
                fp = ctx.call("CLQR.parForwardPass_init", q.parForwardPass_init, P.x0, gK, blocks, steps, forward=ff)
                he = [o.held_element(P, ts[k * steps:(k + 1) * steps + 1], np.array(gK)[k * steps:(k + 1) * steps],
                                     z(steps), 1) for k in range(blocks)]
                rec["block Psi %s" % ff] = ([e[0] for e in fp[1:]], np.array([e[0] for e in he]))
                rec["block phi %s" % ff] = ([e[1] for e in fp[1:]], np.array([e[1] for e in he]))
            gu, gx = ctx.call("CLQR.parFwdBwdPass", q.parFwdBwdPass, P.x0, gK, gS, blocks, steps)
            lens(ctx, "fwdbwd grid", st, (gu,), (gx,))
            rec["fwdbwd x"] = (gx, x)
            rec["fwdbwd u"] = (gu, u)
            return rec
        levels(ctx, level, orders={k: 1 for k in ("x1 rk4", "x1 exact", "x1 zoh rk4", "x1 zoh exact")}, max_mult=16)
        ctx.call_raises("length mismatch", ValueError, q.parForwardPass_init, P.x0, [np.zeros((P.m, n))] * 5, 2, 3)
    ctx.cases(12, 120, body)


def g_long(ctx):
    """Horizons of many time constants, few long or many short blocks."""
    def body(rng, i):
        inv = i % 2 == 0
        P, N = long_prob(rng, i, invariant=True if inv else None, homogeneous=inv)
        n = P.n
        q = P.build()
        r = clqr(P) if inv else None
        blocks = int(rng.integers(1, 5)) if i % 4 < 2 else int(rng.integers(5, 40))
        s0 = max(1, int(np.ceil(N / blocks)))
        fwd = bool(i // 2 % 2)
        lam = np.abs(np.linalg.eigvals(P.ham(np.array([P.T / 2]))[0]).real).max() * P.T
        ctx.note(n=n, m=P.m, p=P.p, T=round(P.T, 3), blocks=blocks, steps=s0, invariant=inv, decay=round(lam, 1), digest=P.digest())
        if lam > 20:
            ctx.feature("horizon of more than 20 time constants")

        def level(mult):
            steps = s0 * mult
            st = blocks * steps
            dt = P.T / st
            ts = dt * np.arange(st + 1)
            Phi = o.magnus(P.ham, ts)
            S, v = o.backward(Phi, P.ST(), P.vT(), n)
            K, d = P.gain(ts[:-1], S[:-1], v[:-1])
            x = o.forward(Phi, S, v, P.x0, n)
            u = d - np.einsum("kij,kj->ki", K, x[:-1])
            els = [o.element(Phi[k * steps:(k + 1) * steps], n) for k in range(blocks)]
            if not np.max([np.abs(z).max() for z in [S, v, x, u] + [z for e in els for z in e]]) <= 1e3:
                raise Skip()
            gK, gd, gS, gv = ctx.call("CLQT.parBackwardPass", q.parBackwardPass, blocks, steps, forward=fwd)
            lens(ctx, "backward grid", st, (gK, gd), (gS, gv))
            rec = dict(K=(gK, K), d=(gd, d), S=(gS, S), v=(gv, v))
            gu, gx = ctx.call("CLQT.parFwdBwdPass", q.parFwdBwdPass, P.x0, gK, gd, gS, gv, blocks, steps, forward=fwd)
            rec.update(x=(gx, x), u=(gu, u))
            gu, gx = ctx.call("CLQT.parForwardPass", q.parForwardPass, P.x0, gK, gd, blocks, steps, forward=fwd)
            su, sx = q.seqForwardPass(P.x0, gK, gd)
            ctx.close("parallel equals sequential roll-out", np.array(gx), np.array(sx), 1e-9, 1e-9 * max(1.0, np.abs(np.array(sx)).max()))
            if inv:
                for em in ("rk4", "exact"):
                    gK, gS = ctx.call("CLQR.parBackwardPass " + em, r.parBackwardPass, blocks, steps, extract_method=em)
                    rec["regulator K " + em] = (gK, K)
                    rec["regulator S " + em] = (gS, S)
                gu, gx = ctx.call("CLQR.parFwdBwdPass", r.parFwdBwdPass, P.x0, gK, gS, blocks, steps)
                rec.update({"regulator x": (gx, x), "regulator u": (gu, u)})
            return rec
        levels(ctx, level, max_mult=8)
    ctx.cases(8, 64, body)


def tf_group(shapes):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import clqt_tf as ct
        state = {}

        def body(rng, i):
            n, m, p, blocks, steps = shapes[i % len(shapes)]
            P = o.rand_prob(rng, n, m, p)
            key = (n, m, p)
            if key not in state:
                state[key] = o.tf_funs(P)
            f, assign = state[key]
            assign(P)
            q = P.build()
            sub = i >= len(shapes) and i % 2 == 0
            t0 = float(rng.uniform(-2, 2)) if sub else 0.0
            P.T = q.T = min(P.T, 0.3 * blocks * steps / o.rate(P))
            h = float(rng.uniform(0.3, 1)) * 0.3 / o.rate(P, t0) if sub else P.T / (blocks * steps)
            ctx.note(n=n, m=m, p=p, blocks=blocks, steps=steps, t0=round(t0, 3), digest=P.digest())
            c = lambda a: tf.constant(np.asarray(a), tf.float64)
            fb = [f[k] for k in P.names]
            ff = [f[k] for k in ("F", "L", "c")]
            dt_, t0_, ST, vT = ctx.call("par_backwardpass_defaults", ct.par_backwardpass_defaults, blocks, steps, c(P.XT), c(P.HT), c(P.rT), c(P.T))
            ctx.close("defaults", [float(dt_), float(t0_)], [P.T / steps / blocks, 0.0], 1e-14, 1e-15)
            ctx.close("default terminal S", ST, P.ST(), 1e-12, 1e-13)
            ctx.close("default terminal v", vT, P.vT(), 1e-12, 1e-13)
            dd = ctx.call("clqt_par_fwdbwdpass_defaults", ct.clqt_par_fwdbwdpass_defaults, blocks, steps, c(P.T))
            ctx.close("defaults", [float(z) for z in dd], [P.T / steps / blocks, 0.0], 1e-14, 1e-15)
            dt, t0t = (c(h), c(t0)) if sub else (dt_, t0_)
            for fw in (False, True):
                got = ctx.call("clqt_par_backwardpass", ct.clqt_par_backwardpass, blocks, steps, dt, t0t, ST, vT, *fb, forward=fw)
                K, d, S, v = q.parBackwardPass(blocks, steps, dt=h, t0=t0, forward=fw)
                sc = max(1.0, np.abs(S).max(), np.abs(v).max())
                for nm, g_, w in zip("SvKd", got, (S, v, K, d)):
                    ctx.close("tensor equals array: " + nm, g_, np.array(w), 1e-8, 1e-9, scale=sc)
            if True:
                sS, sv, sK, sd = ctx.call("clqt_seq_backwardpass", ct.clqt_seq_backwardpass, blocks * steps, dt, t0t, ST, vT, *fb)
                hd = h * max(np.linalg.norm(z, 2) for z in P.ham(t0 + h * blocks * steps * np.linspace(0, 1, 7)))
                if hd < 0.4:
                    ctx.close("parallel near sequential: S", got[0], to_np(sS), 0, 20 * hd ** 4 * sc ** 2 + 1e-9)
                    ctx.feature("fine step")
            for fw in (True, False):
                gx, gu = ctx.call("clqt_par_forwardpass", ct.clqt_par_forwardpass, blocks, steps, c(P.x0), got[2], got[3], dt, t0t, *ff, forward=fw)
                u, x = q.parForwardPass(P.x0, K, d, blocks, steps, dt=h, t0=t0, forward=fw)
                ctx.close("tensor equals array: x", gx, np.array(x), 1e-8, 1e-9)
                ctx.close("tensor equals array: u", gu, np.array(u), 1e-8, 1e-9)
                gx, gu = ctx.call("clqt_par_fwdbwdpass", ct.clqt_par_fwdbwdpass, blocks, steps, c(P.x0), got[0], got[1], got[2], got[3], dt, t0t, *fb, forward=fw)
                u, x = q.parFwdBwdPass(P.x0, K, d, S, v, blocks, steps, dt=h, t0=t0, forward=fw)
                # the array version repeats the last state of the block, the tensor one its own
                ctx.close("tensor equals array: fwdbwd x", gx, np.array(x), 1e-7, 1e-8)
                ctx.close("tensor equals array: fwdbwd u", gu, np.array(u), 1e-7, 1e-8)
                sx, su = ctx.call("clqt_seq_forwardpass", ct.clqt_seq_forwardpass, c(P.x0), got[2], got[3], dt, t0t, *ff)
                if fw:
                    gx, gu = ctx.call("clqt_par_forwardpass", ct.clqt_par_forwardpass, blocks, steps, c(P.x0), got[2], got[3], dt, t0t, *ff)
                    ctx.close("tensor parallel equals sequential roll-out x", gx, to_np(sx), 1e-9, 1e-10)
                    ctx.close("tensor parallel equals sequential roll-out u", gu, to_np(su), 1e-9, 1e-10)
            gx, gu = ctx.call("clqt_par_forwardpass zoh", ct.clqt_par_forwardpass, blocks, steps, c(P.x0), got[2], got[3], dt, t0t, *ff, u_zoh=True)
            u, x = q.parForwardPass(P.x0, K, d, blocks, steps, dt=h, t0=t0, u_zoh=True)
            ctx.close("tensor equals array: zoh x", gx, np.array(x), 1e-8, 1e-9)
            ctx.close("tensor equals array: zoh u", gu, np.array(u), 1e-8, 1e-9)
        ctx.cases(3 * len(shapes), 24 * len(shapes), body)
    return g


def g_units(ctx):
    """Every block-parallel pass gives the same numbers in other units of
    states, controls, outputs, costs and time; the tensor passes too."""
    import tensorflow as tf
    from parallel_control import clqt_tf as ct
    state = {}
    c = lambda a: tf.constant(np.asarray(a), tf.float64)

    def array(P, blocks, steps, inv):
        q = P.build()
        out = {}
        for fw in (False, True):
            K, d, S, v = ctx.call("CLQT.parBackwardPass", q.parBackwardPass, blocks, steps, forward=fw)
            u, x = ctx.call("CLQT.parForwardPass", q.parForwardPass, P.x0, K, d, blocks, steps, forward=fw)
            u2, x2 = ctx.call("CLQT.parFwdBwdPass", q.parFwdBwdPass, P.x0, K, d, S, v, blocks, steps, forward=fw)
            for k, z in zip(("K", "d", "S", "v", "u", "x", "u 2", "x 2"), (K, d, S, v, u, x, u2, x2)):
                out["%s %s" % (k, fw)] = (k[0], z)
        if inv:
            r = clqr(P)
            K, S = ctx.call("CLQR.parBackwardPass", r.parBackwardPass, blocks, steps)
            u, x = ctx.call("CLQR.parForwardPass", r.parForwardPass, P.x0, K, blocks, steps)
            u2, x2 = ctx.call("CLQR.parFwdBwdPass", r.parFwdBwdPass, P.x0, K, S, blocks, steps)
            out.update({"regulator " + k: (k[0], z) for k, z in zip(("K", "S", "u", "x", "u 2", "x 2"), (K, S, u, x, u2, x2))})
        return out

    def tensor(P, blocks, steps):
        if "f" not in state:
            state["f"] = o.tf_funs(P)
        f, assign = state["f"]
        assign(P)
        fb = [f[k] for k in P.names]
        dt, t0, ST, vT = ct.par_backwardpass_defaults(blocks, steps, c(P.XT), c(P.HT), c(P.rT), c(P.T))
        S, v, K, d = ctx.call("clqt_par_backwardpass", ct.clqt_par_backwardpass, blocks, steps, dt, t0, ST, vT, *fb)
        x, u = ctx.call("clqt_par_forwardpass", ct.clqt_par_forwardpass, blocks, steps, c(P.x0), K, d, dt, t0, *[f[k] for k in ("F", "L", "c")])
        x2, u2 = ctx.call("clqt_par_fwdbwdpass", ct.clqt_par_fwdbwdpass, blocks, steps, c(P.x0), S, v, K, d, dt, t0, *fb)
        return {k: (k[0], to_np(z)) for k, z in {"S": S, "v": v, "K": K, "d": d, "x": x, "u": u, "x 2": x2, "u 2": u2}.items()}

    def body(rng, i):
        tens, inv = i % 5 == 4, i % 5 == 1
        P = o.rand_prob(rng, 2, 1, 2) if tens else o.rand_prob(rng, invariant=inv or None, homogeneous=inv)
        blocks, steps = (3, 4) if tens else (int(rng.integers(1, 8)), int(rng.integers(1, 6)))
        P.T = min(P.T, 0.4 * blocks * steps / o.rate(P))
        ctx.note(n=P.n, m=P.m, p=P.p, blocks=blocks, steps=steps, tensor=tens, digest=P.digest())
        o.same_in_units(ctx, rng, P, (lambda Q: tensor(Q, blocks, steps)) if tens else (lambda Q: array(Q, blocks, steps, inv)), rtol=1e-8)
    ctx.cases(60, 600, body)


def g_stages(ctx):
    """Block elements, scan and extraction called one by one, with given and with
    default times, are the whole pass; lengths that do not fit are refused."""
    from parallel_control import lqt_np

    def body(rng, i):
        lqr = i % 3 == 2
        P = o.rand_prob(rng, invariant=lqr or None, homogeneous=lqr)
        blocks, steps = int(rng.integers(1, 9)), int(rng.integers(1, 7))
        P.T = min(P.T, 0.4 * blocks * steps / o.rate(P))
        q = clqr(P) if lqr else P.build()
        t0 = None if lqr or i % 2 else float(rng.uniform(-2, 2))
        P.shift(t0)
        dt = P.T / steps / blocks
        kw = {} if t0 is None else dict(dt=dt, t0=t0)
        N = blocks * steps
        nm = "CLQR." if lqr else "CLQT."
        ctx.note(n=P.n, m=P.m, p=P.p, blocks=blocks, steps=steps, t0=t0, regulator=lqr, digest=P.digest())
        call = lambda f, *a, **k: ctx.call(nm + f, getattr(q, f), *a, **k)

        def same(label, got, want):
            for g, w in zip(got, want):
                ctx.close(label, np.array(g), np.array(w), 1e-10, 1e-11)
            ctx.true(label, len(got) == len(want), "%d outputs, not %d" % (len(got), len(want)))
        gains = call("parBackwardPass", blocks, steps, **kw)
        law_ = gains[:1] if lqr else gains[:2]
        vals = gains[1:] if lqr else gains[2:]
        el = lqt_np.par_backward_pass_scan(call("parBackwardPass_init", blocks, steps, **kw))
        same("stages: backward", call("parBackwardPass_extract", el, steps, **kw), gains)
        zoh = bool(i % 4 < 2)
        ef = lqt_np.par_forward_pass_scan(call("parForwardPass_init", P.x0, *law_, blocks, steps, **kw))
        same("stages: forward", call("parForwardPass_extract", *law_, ef, steps, u_zoh=zoh, **kw),
             call("parForwardPass", P.x0, *law_, blocks, steps, u_zoh=zoh, **kw))
        eb = lqt_np.par_fwdbwd_pass_scan(call("parFwdBwdPass_init", P.x0, blocks, steps, **kw))
        both = call("parFwdBwdPass", P.x0, *law_, *vals, blocks, steps, **kw)
        same("stages: forward-backward", call("parFwdBwdPass_extract", *law_, *vals, eb, steps, **kw), both)
        if not lqr and t0 is None:
            # a default time step is the horizon split evenly, from time zero
            same("stages: defaults", call("parBackwardPass_extract", el, steps, dt, 0.0), gains)
            same("stages: defaults", call("parBackwardPass", blocks, steps, dt=dt, t0=0.0), gains)
            same("stages: defaults", call("parForwardPass_extract", *law_, ef, steps, dt, 0.0, zoh),
                 call("parForwardPass", P.x0, *law_, blocks, steps, u_zoh=zoh))
            same("stages: defaults", call("parFwdBwdPass_extract", *law_, *vals, eb, steps, dt, 0.0), both)
        # one gain or value too many or too few
        more = rng.integers(2) or N == 1
        cut = (lambda l: list(l) + [l[-1]]) if more else (lambda l: list(l)[:-1])
        bad = [cut(z) for z in law_]
        bv = [cut(z) for z in vals]
        ctx.call_raises("length mismatch", ValueError, q.parForwardPass_extract, *bad, ef, steps)
        ctx.call_raises("length mismatch", ValueError, q.parFwdBwdPass_extract, *bad, *bv, eb, steps)
        ctx.call_raises("length mismatch", ValueError, q.parFwdBwdPass_extract, *law_, *bv, eb, steps)
        ctx.call_raises("length mismatch", ValueError, q.parForwardPass_init, P.x0, *bad, blocks, steps)
        ctx.call_raises("length mismatch", ValueError, q.parForwardPass, P.x0, *bad, blocks, steps)
    ctx.cases(60, 800, body)


GROUPS = dict(long=g_long, stages=g_stages, units=g_units, np=g_np, split=g_split, clqr=g_clqr, tf1=tf_group([(2, 1, 2, 5, 4)]), tf2=tf_group([(3, 2, 1, 1, 5)]),
              tf3=tf_group([(1, 1, 1, 7, 1)]), tf4=tf_group([(2, 2, 3, 8, 2)]))
