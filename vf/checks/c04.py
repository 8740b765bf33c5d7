"""C04: Viterbi decoders."""
import numpy as np
from vf.core import big_dims
from vf import oracles_fsc as O


def judge(ctx, lab, prior, Pi, Po, ys, v_map, Vs, A, best, unique, sets, per_state=False, prob=False, tol=None):
    T = len(ys)
    v = np.asarray(v_map).ravel()
    tol = tol or 1e-9 * (1.0 + abs(best))
    if not ctx.true(lab + ":len", v.shape == (T + 1,) and (v >= 0).all() and (v < len(prior)).all(), "decoded %s" % v[:8]):
        return
    if per_state:
        bad = [k for k in range(T + 1) if int(v[k]) not in sets[k]]
        ctx.true(lab + ":on_map", not bad, "states off every MAP path at %s" % bad[:5])
    if not per_state or unique:
        lp = O.path_logp(prior, Pi, Po, ys, v)
        ctx.true(lab + ":map", lp >= best - tol, "log-probability %.12g of decoded path, maximum %.12g" % (lp, best))
    if Vs is not None:
        V = np.asarray(Vs, dtype=float)
        if ctx.true(lab + ":vshape", V.shape == A.shape, "values %s expected %s" % (V.shape, A.shape)):
            fin = np.isfinite(A)
            if prob:
                ctx.close(lab + ":values", np.where(fin, V, 0.0), np.where(fin, np.exp(A), 0.0), rtol=0, atol=1e-9 * 1.0 + 0)
                with np.errstate(divide="ignore"):
                    sel = fin & (A > -650)
                    ctx.close(lab + ":logvalues", np.log(np.where(sel, V, 1.0)), np.where(sel, A, 0.0), rtol=1e-9, atol=1e-9)
            else:
                ctx.close(lab + ":values", np.where(fin, V, 0.0), np.where(fin, -A, 0.0), rtol=1e-9 if tol < 1e-3 else 1e-4, atol=tol)
                ctx.true(lab + ":impossible", not np.any(V[~fin] < 1e6), "finite value for an unreachable state")


def oracle(prior, Pi, Po, ys):
    A = O.hmm_dp(prior, Pi, Po, ys)
    B = O.hmm_bwd(Pi, Po, ys)
    best = A[-1].max()
    tol = 1e-9 * (1 + abs(best))
    sets = [set(np.nonzero(A[k] + B[k] >= best - tol)[0].tolist()) for k in range(len(ys) + 1)]
    return A, best, all(len(s) == 1 for s in sets), sets


NPV = ["ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi"]


def lengths(rng, i):
    hs = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]
    return hs[i % len(hs)] if i % 2 else int(rng.integers(1, 60))


def group_np(ctx):
    from parallel_control import viterbi_np

    def body(rng, i):
        T = lengths(rng, i)
        n, m = big_dims(rng, i, int(rng.integers(1, 6)), int(rng.integers(1, 5)), hi=40)
        prior, Pi, Po, ys, zk = O.rand_hmm(rng, n, m, T)
        ys = ys.astype([np.int64, np.int32, np.uint8][(i // 3) % 3])
        A, best, unique, sets = oracle(prior, Pi, Po, ys)
        vit = ctx.call("construct", viterbi_np.Viterbi_np, prior, Pi, Po)
        with np.errstate(all="ignore"):
            for name in NPV:
                v, Vs = ctx.call(name, getattr(vit, name), ys)
                judge(ctx, name, prior, Pi, Po, ys, v, Vs, A, best, unique, sets,
                      per_state=(name == "parBwdFwdBwdViterbi"), prob=(name == "ref_viterbi"))
        ctx.feature("unique" if unique else "tied")
        ctx.feature("hmm:" + zk)
        ctx.note(n=n, m=m, T=T, kind=zk, digest=[prior, Pi, Po, ys], nontrivial=n > 1)
    ctx.cases(300, 2500, body)


def group_long(ctx):
    """Long sequences through the log-domain decoders."""
    from parallel_control import viterbi_np, ge_model_np

    def body(rng, i):
        T = int(rng.integers(200, ctx.n(500, 2000)))
        if i % 2:
            mod = ge_model_np.GEModel(seed=int(rng.integers(1, 10 ** 6)))
            xs, ys = ctx.call("genData", mod.genData, T)
            prior, Pi, Po = mod.prior, mod.Pi, mod.Po
            zk = "ge"
        else:
            prior, Pi, Po, ys, zk = O.rand_hmm(rng, 3, 3, T)
        A, best, unique, sets = oracle(prior, Pi, Po, ys)
        vit = viterbi_np.Viterbi_np(prior, Pi, Po)
        with np.errstate(all="ignore"):
            for name in NPV[1:]:
                v, Vs = ctx.call(name, getattr(vit, name), ys)
                judge(ctx, name, prior, Pi, Po, ys, v, Vs, A, best, unique, sets, per_state=(name == "parBwdFwdBwdViterbi"))
        ctx.note(T=T, kind=zk, digest=[ys])
    ctx.cases(6, 40, body)


def group_wide(ctx):
    """More states than the observation type can count."""
    from parallel_control import viterbi_np

    def body(rng, i):
        n, m, T = int(rng.integers(257, 300)), 2, int(rng.integers(1, 5))
        prior = rng.uniform(0.1, 1, size=n)
        prior[int(rng.integers(256, n))] = 50.0
        prior /= prior.sum()
        Pi = rng.uniform(0.01, 1, size=(n, n)) + np.eye(n) * float(rng.choice([0.0, 20.0]))
        Pi /= Pi.sum(axis=1, keepdims=True)
        Po = rng.uniform(0.1, 1, size=(n, m))
        Po /= Po.sum(axis=1, keepdims=True)
        ys = rng.integers(0, m, size=T).astype(np.uint8)
        A, best, unique, sets = oracle(prior, Pi, Po, ys)
        vit = viterbi_np.Viterbi_np(prior, Pi, Po)
        for name in NPV[:4]:
            v, Vs = ctx.call(name, getattr(vit, name), ys)
            judge(ctx, name, prior, Pi, Po, ys, v, Vs, A, best, unique, sets, prob=(name == "ref_viterbi"))
        ctx.note(n=n, T=T, digest=[prior, ys])
    ctx.cases(4, 30, body)


def group_wide_tf(ctx):
    """Tensor decoders with many states, many symbols and long sequences."""
    import tensorflow as tf
    from parallel_control import viterbi_tf
    shapes = [(2, 135, 3), (6, 3, 300), (600, 3, 2), (1, 260, 2), (300, 2, 140), (3, 130, 130)]

    class M:
        pass

    def body(rng, i):
        T, n, m = shapes[i % len(shapes)]
        if n > 100:
            prior = rng.uniform(0.1, 1, size=n)
            prior[int(rng.integers(128, n))] = 50.0
            prior /= prior.sum()
            Pi = rng.uniform(0.01, 1, size=(n, n)) + np.eye(n) * float(rng.choice([0.0, 20.0]))
            Pi /= Pi.sum(axis=1, keepdims=True)
            Po = rng.uniform(0.1, 1, size=(n, m))
            Po /= Po.sum(axis=1, keepdims=True)
            ys, zk = rng.integers(0, m, size=T), "wide"
        else:
            prior, Pi, Po, ys, zk = O.rand_hmm(rng, n, m, T)
        A, best, unique, sets = oracle(prior, Pi, Po, ys)
        mod = M()
        mod.prior, mod.Pi, mod.Po = prior, Pi, Po
        with np.errstate(all="ignore"):
            fs, Ls, LT = ctx.call("make_viterbi_fsc", viterbi_tf.make_viterbi_fsc, mod, ys)
        for name in ("viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw"):
            if n > 200 and "par" in name:
                continue        # n^3 tables per combination
            v, Vs = ctx.call(name, getattr(viterbi_tf, name), fs, Ls, LT)
            judge(ctx, name, prior, Pi, Po, ys, v.numpy(), Vs.numpy(), A, best, unique, sets, per_state=name.endswith("bwfwbw"))
        c = lambda a: tf.constant(a, dtype=tf.float64)
        yt = tf.constant(ys, dtype=tf.int32)
        for name in ("viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"):
            v, Vs = ctx.call(name, getattr(viterbi_tf, name), c(prior), c(Pi), c(Po), yt)
            judge(ctx, name, prior, Pi, Po, ys, v.numpy(), Vs.numpy(), A, best, unique, sets, per_state=name.endswith("fwbwfw"))
        ctx.feature("unique" if unique else "tied")
        ctx.feature("wide:%d/%d/%d" % (T, n, m))
        ctx.note(n=n, m=m, T=T, kind=zk, digest=[prior, ys])
    ctx.cases(6, 36, body)


TF_SHAPES = [(1, 2, 2), (2, 3, 2), (3, 2, 3), (4, 4, 2), (5, 3, 2), (8, 3, 3), (9, 4, 2), (16, 3, 2), (33, 2, 2), (7, 1, 2)]


def group_tf(ctx):
    import tensorflow as tf
    from parallel_control import viterbi_tf

    class M:
        pass

    def body(rng, i):
        T, n, m = TF_SHAPES[i % len(TF_SHAPES)]
        prior, Pi, Po, ys, zk = O.rand_hmm(rng, n, m, T)
        A, best, unique, sets = oracle(prior, Pi, Po, ys)
        mod = M()
        mod.prior, mod.Pi, mod.Po = prior, Pi, Po
        with np.errstate(all="ignore"):
            fs, Ls, LT = ctx.call("make_viterbi_fsc", viterbi_tf.make_viterbi_fsc, mod, ys)
        for name in ("viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw"):
            v, Vs = ctx.call(name, getattr(viterbi_tf, name), fs, Ls, LT)
            judge(ctx, name, prior, Pi, Po, ys, v.numpy(), Vs.numpy(), A, best, unique, sets, per_state=name.endswith("bwfwbw"))
        c = lambda a: tf.constant(a, dtype=tf.float64)
        yt = tf.constant(ys, dtype=tf.int32)
        for name in ("viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"):
            v, Vs = ctx.call(name, getattr(viterbi_tf, name), c(prior), c(Pi), c(Po), yt)
            judge(ctx, name, prior, Pi, Po, ys, v.numpy(), Vs.numpy(), A, best, unique, sets, per_state=name.endswith("fwbwfw"))
        ctx.feature("unique" if unique else "tied")
        ctx.note(n=n, m=m, T=T, kind=zk, digest=[prior, Pi, Po, ys], nontrivial=n > 1)
    ctx.cases(60, 400, body)


GROUPS = dict(np=group_np, long=group_long, wide=group_wide, tf=group_tf, wide_tf=group_wide_tf)
