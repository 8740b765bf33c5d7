"""C13  Parareal iterations reach the fine sequential solution."""
import numpy as np

from vf.core import Skip, to_np
from vf import oracles_ct as o


def parareal(fine, coarse, init, blocks, niter):
    """Textbook parareal on a tuple-valued state, blocks visited in sweep order:
    U_{k+1} = G(U_k^new) + F(U_k^old) - G(U_k^old)."""
    U = [init]
    for k in range(blocks):
        U.append(coarse(k, U[-1]))
    for _ in range(niter):
        F = [fine(k, U[k]) for k in range(blocks)]
        G = [coarse(k, U[k]) for k in range(blocks)]
        N = [init]
        for k in range(blocks):
            g = coarse(k, N[k])
            N.append(tuple(a + b - c for a, b, c in zip(g, F[k], G[k])))
        U = N
    return U


def draw(rng, blocks, n=None, m=None, p=None, coarse=(0.15, 1.0)):
    P = o.rand_prob(rng, n, m, p)
    P.T = 1.0
    P.T = min(2.0, blocks * float(rng.uniform(*coarse)) / o.rate(P))
    return P


def size(*zs):
    m = float(np.max([np.max(np.abs(to_np(z))) for z in zs]))
    if not np.isfinite(m) or m > 1e4:
        raise Skip()
    return max(1.0, m)


def refs(P, q, blocks, steps, niter, K=None, d=None, zoh=False):
    """Expected results after niter iterations, assembled from the sequential
    solver block by block."""
    h, H = P.T / blocks / steps, P.T / blocks
    out = {}
    fb = lambda k, U: (lambda r: (r[2][0], r[3][0]))(q.seqBackwardPass(steps, dt=h, t0=(blocks - 1 - k) * H, S=U[0], v=U[1]))
    gb = lambda k, U: (lambda r: (r[2][0], r[3][0]))(q.seqBackwardPass(1, dt=H, t0=(blocks - 1 - k) * H, S=U[0], v=U[1]))
    U = parareal(fb, gb, (P.ST(), P.vT()), blocks, niter)
    Kx, dd, S, v = [], [], [U[0][0]], [U[0][1]]
    for k in range(blocks):
        r = q.seqBackwardPass(steps, dt=h, t0=(blocks - 1 - k) * H, S=U[k][0], v=U[k][1])
        Kx, dd, S, v = r[0] + Kx, r[1] + dd, r[2][:-1] + S, r[3][:-1] + v
    out["bw"] = [np.array(z) for z in (Kx, dd, S, v)]
    fa = lambda k, U: tuple(z[-1] for z in q.seqFwdBwdPass(None, steps, dt=h, t0=k * H, A=U[0], b=U[1], C=U[2]))
    ga = lambda k, U: tuple(z[-1] for z in q.seqFwdBwdPass(None, 1, dt=H, t0=k * H, A=U[0], b=U[1], C=U[2]))
    n = P.n
    U = parareal(fa, ga, (np.zeros((n, n)), P.x0, np.zeros((n, n))), blocks, niter)
    A, b, C = [], [], []
    for k in range(blocks):
        r = q.seqFwdBwdPass(None, steps, dt=h, t0=k * H, A=U[k][0], b=U[k][1], C=U[k][2])
        cut = None if k == blocks - 1 else -1
        A, b, C = A + r[0][:cut], b + r[1][:cut], C + r[2][:cut]
    out["fb"] = [np.array(z) for z in (A, b, C)]
    if K is None:
        K, d = out["bw"][:2]
    for zoh in (False, True):
        ff = lambda k, U: (q.seqForwardPass(U[0], K[k * steps:(k + 1) * steps], d[k * steps:(k + 1) * steps], dt=h, t0=k * H, u_zoh=zoh)[1][-1],)
        gf = lambda k, U: (q.seqForwardPass(U[0], K[k * steps:k * steps + 1], d[k * steps:k * steps + 1], dt=H, t0=k * H, u_zoh=zoh)[1][-1],)
        U = parareal(ff, gf, (P.x0,), blocks, niter)
        u, x = [], []
        for k in range(blocks):
            r = q.seqForwardPass(U[k][0], K[k * steps:(k + 1) * steps], d[k * steps:(k + 1) * steps], dt=h, t0=k * H, u_zoh=zoh)
            u, x = u + r[0], x + (r[1] if k == blocks - 1 else r[1][:-1])
        out["fw", zoh] = [np.array(u), np.array(x)]
    return out


def fine(P, q, blocks, steps):
    st = blocks * steps
    K, d, S, v = q.seqBackwardPass(st, dt=P.T / st)
    A, b, C = q.seqFwdBwdPass(P.x0, st, dt=P.T / st)
    return [np.array(z) for z in (K, d, S, v)], [np.array(z) for z in (A, b, C)]


def g_np(ctx):
    from parallel_control.parareal_clqt_np import Parareal_CLQT_np

    def body(rng, i):
        blocks, steps = int(rng.integers(1, 8)), int(rng.integers(1, 7))
        if i % 8 == 7:      # many blocks, or many steps in a block
            blocks, steps = (int(rng.integers(8, 21)), int(rng.integers(1, 5))) if i % 16 == 7 else (int(rng.integers(1, 4)), int(rng.integers(20, 60)))
            ctx.feature("many blocks" if blocks > 7 else "many steps")
        P = draw(rng, blocks)
        q = P.build()
        pa = Parareal_CLQT_np(q)
        (K, d, S, v), (A, b, C) = fine(P, q, blocks, steps)
        sc = size(K, d, S, v, A, b, C)
        ctx.note(n=P.n, m=P.m, p=P.p, blocks=blocks, steps=steps, T=round(P.T, 3), digest=P.digest())
        for niter in sorted({0, 1, 2, max(blocks - 1, 0), blocks, blocks + 2} if blocks < 8 else {0, 2, blocks // 2, blocks}):
            r = refs(P, q, blocks, steps, niter, K, d)
            if not np.max([np.max(np.abs(z)) for w in r.values() for z in w]) <= 100 * sc:
                ctx.feature("diverged iterate")
                continue
            full = niter >= blocks
            got = ctx.call("backwardPass", pa.backwardPass, blocks, steps, niter=niter)
            for nm, g, w, t in zip("KdSv", got, r["bw"], (K, d, S, v)):
                ctx.close("iterate " + nm, np.array(g), w, 1e-10, 1e-11, scale=sc)
                # sweep starts at the final time: the last niter+1 blocks are exact
                e = steps * max(0, blocks - 1 - niter)
                ctx.close("exact blocks " + nm, np.array(g)[e:], t[e:], 1e-10, 1e-11, scale=sc)
            if full:
                ctx.feature("full iteration")
            got = ctx.call("fwdBwdPass", pa.fwdBwdPass, blocks, steps, P.x0, niter=niter)
            for nm, g, w, t in zip("AbC", got, r["fb"], (A, b, C)):
                ctx.close("iterate " + nm, np.array(g), w, 1e-10, 1e-11, scale=sc)
                e = steps * min(blocks, niter + 1)
                ctx.close("exact blocks " + nm, np.array(g)[:e], t[:e], 1e-10, 1e-11, scale=sc)
            for zoh in (False, True):
                tu, tx = q.seqForwardPass(P.x0, list(K), list(d), u_zoh=zoh)
                s2 = size(tu, tx)
                gu, gx = ctx.call("forwardPass", pa.forwardPass, blocks, steps, P.x0, list(K), list(d), u_zoh=zoh, niter=niter)
                ctx.close("iterate u", np.array(gu), r["fw", zoh][0], 1e-10, 1e-11, scale=s2)
                ctx.close("iterate x", np.array(gx), r["fw", zoh][1], 1e-10, 1e-11, scale=s2)
                e = steps * min(blocks, niter + 1)
                ctx.close("exact blocks x", np.array(gx)[:e], np.array(tx)[:e], 1e-10, 1e-11, scale=s2)
                ctx.close("exact blocks u", np.array(gu)[:e], np.array(tu)[:e], 1e-10, 1e-11, scale=s2)
                if full:
                    ctx.close("exact final state", gx[-1], tx[-1], 1e-10, 1e-11, scale=s2)
    ctx.cases(40, 500, body)


def g_default(ctx):
    """Default iteration count (one per step of a block) and arbitrary gains."""
    from parallel_control.parareal_clqt_np import Parareal_CLQT_np

    def body(rng, i):
        blocks = int(rng.integers(1, 6))
        steps = blocks + int(rng.integers(0, 3))      # default niter = steps >= blocks: exact
        P = draw(rng, blocks)
        q = P.build()
        pa = Parareal_CLQT_np(q)
        t1, t2 = fine(P, q, blocks, steps)
        sc = size(*t1, *t2)
        ctx.note(n=P.n, blocks=blocks, steps=steps, digest=P.digest())
        for nm, g, w in zip("KdSv", ctx.call("backwardPass", pa.backwardPass, blocks, steps), t1):
            ctx.close("default iterations " + nm, np.array(g), w, 1e-10, 1e-11, scale=sc)
        for nm, g, w in zip("AbC", ctx.call("fwdBwdPass", pa.fwdBwdPass, blocks, steps, P.x0), t2):
            ctx.close("default iterations " + nm, np.array(g), w, 1e-10, 1e-11, scale=sc)
        K = [0.4 * rng.standard_normal((P.m, P.n)) for _ in range(blocks * steps)]
        d = [rng.standard_normal(P.m) for _ in range(blocks * steps)]
        tu, tx = q.seqForwardPass(P.x0, K, d)
        gu, gx = ctx.call("forwardPass", pa.forwardPass, blocks, steps, P.x0, K, d)
        s2 = size(tu, tx)
        ctx.close("default iterations x", np.array(gx), np.array(tx), 1e-10, 1e-11, scale=s2)
        ctx.close("default iterations u", np.array(gu), np.array(tu), 1e-10, 1e-11, scale=s2)
    ctx.cases(40, 300, body)


def tf_group(n, m, p, blocks, steps, niters):
    def g(ctx):
        import tensorflow as tf
        from parallel_control import parareal_clqt_tf as pt
        state = {}

        def body(rng, i):
            P = draw(rng, blocks, n, m, p)
            if "f" not in state:
                state["f"] = o.tf_funs(P)
            f, assign = state["f"]
            assign(P)
            q = P.build()
            niter = niters[i % len(niters)]
            r = refs(P, q, blocks, steps, niter)
            t1, t2 = fine(P, q, blocks, steps)
            sc = size(*r["bw"], *r["fb"])
            ctx.note(blocks=blocks, steps=steps, niter=niter, digest=P.digest())
            c = lambda a: tf.constant(np.asarray(a), tf.float64)
            fb = [f[k] for k in P.names]
            ff = [f[k] for k in ("F", "L", "c")]
            nit = niter if len(niters) == 1 else tf.constant(niter)
            S, v, K, d = ctx.call("pclqt_backwardpass", pt.pclqt_backwardpass, blocks, steps, nit, c(P.XT), c(P.HT), c(P.rT), c(P.T), *fb)
            for nm, g_, w, t in zip("KdSv", (K, d, S, v), r["bw"], t1):
                ctx.close("tensor iterate " + nm, g_, w, 1e-10, 1e-11, scale=sc)
                e = steps * max(0, blocks - 1 - niter)
                ctx.close("tensor exact blocks " + nm, to_np(g_)[e:], t[e:], 1e-10, 1e-11, scale=sc)
            A, b, C = ctx.call("pclqt_fwdbwdpass", pt.pclqt_fwdbwdpass, blocks, steps, nit, c(P.x0), c(P.T), *fb)
            for nm, g_, w, t in zip("AbC", (A, b, C), r["fb"], t2):
                ctx.close("tensor iterate " + nm, g_, w, 1e-10, 1e-11, scale=sc)
                e = steps * min(blocks, niter + 1)
                ctx.close("tensor exact blocks " + nm, to_np(g_)[:e], t[:e], 1e-10, 1e-11, scale=sc)
            for zoh in (False, True):
                x, u = ctx.call("pclqt_forwardpass", pt.pclqt_forwardpass, blocks, steps, nit, c(P.x0), c(P.T), K, d, *ff, u_zoh=zoh)
                wu, wx = r["fw", zoh]
                s2 = size(wu, wx)
                ctx.close("tensor iterate x", x, wx, 1e-10, 1e-11, scale=s2 * sc)
                ctx.close("tensor iterate u", u, wu, 1e-10, 1e-11, scale=s2 * sc)
            x, u = ctx.call("pclqt_backwardforwardpass", pt.pclqt_backwardforwardpass, blocks, steps, nit, c(P.x0), c(P.XT), c(P.HT), c(P.rT), c(P.T), *fb)
            wu, wx = r["fw", False]
            ctx.close("tensor backward-forward x", x, wx, 1e-10, 1e-11, scale=s2 * sc)
            ctx.close("tensor backward-forward u", u, wu, 1e-10, 1e-11, scale=s2 * sc)
            Kr, dr, Sr, vr = r["bw"]
            wu, wx = q.combineForwardBackward(list(Kr), list(dr), list(Sr), list(vr), *r["fb"])
            cond = max(np.linalg.cond(np.eye(n) + a @ b_) for a, b_ in zip(r["fb"][2], Sr))
            if cond < 1e5:
                x, u = ctx.call("pclqt_backwardbwdfwdpass", pt.pclqt_backwardbwdfwdpass, blocks, steps, nit, c(P.x0), c(P.XT), c(P.HT), c(P.rT), c(P.T), *fb)
                ctx.close("tensor backward-value x", x, np.array(wx), 1e-10, 1e-11, scale=size(wx) * sc)
                ctx.close("tensor backward-value u", u, np.array(wu), 1e-10, 1e-11, scale=size(wu) * sc)
        ctx.cases(2 * len(niters), 20 * len(niters), body)
    return g


def g_units(ctx):
    """Iterates are the same in other units of states, controls, outputs, costs and time."""
    from parallel_control.parareal_clqt_np import Parareal_CLQT_np

    def body(rng, i):
        blocks, steps = int(rng.integers(1, 7)), int(rng.integers(1, 6))
        niter = int(rng.integers(0, blocks + 1))
        P = draw(rng, blocks)
        r = refs(P, P.build(), blocks, steps, niter)
        sc = size(*r["bw"], *r["fb"])
        if sc > 1e4:
            raise Skip()
        ctx.note(n=P.n, blocks=blocks, steps=steps, niter=niter, digest=P.digest())

        def run(Q):
            pa = Parareal_CLQT_np(Q.build())
            K, d, S, v = ctx.call("backwardPass", pa.backwardPass, blocks, steps, niter=niter)
            A, b, C = ctx.call("fwdBwdPass", pa.fwdBwdPass, blocks, steps, Q.x0, niter=niter)
            u, x = ctx.call("forwardPass", pa.forwardPass, blocks, steps, Q.x0, K, d, niter=niter)
            return {k: (k, z) for k, z in dict(K=K, d=d, S=S, v=v, A=A, b=b, C=C, u=u, x=x).items()}
        o.same_in_units(ctx, rng, P, run, rtol=1e-9 * sc)
    ctx.cases(60, 600, body)


GROUPS = dict(units=g_units, np=g_np, default=g_default, tf1=tf_group(2, 1, 2, 3, 4, [1, 2, 3]), tf2=tf_group(1, 1, 1, 4, 1, [4, 2, 5]),
              tf3=tf_group(3, 2, 2, 2, 3, [2]), tf4=tf_group(2, 2, 1, 1, 5, [1]))
