"""C20: problem construction."""
import numpy as np

from vf import oracles_fsc as OF
from vf import oracles_lq as Q
from vf.core import Skip

ROLE = dict(F="nn", L="nm", X="pp", U="mm", XT="qq", c="n", H="pn", r="p", HT="qn", rT="q", Z="mm", s="m", M="pm")
SEQ = [k for k in ROLE if k not in ("XT", "HT", "rT")]


def data(rng, T, n, m, p, q):
    """Consistent data; weights positive definite so that mixed problems stay well posed."""
    d = dict(n=n, m=m, p=p, q=q)
    out = {}
    for k, role in ROLE.items():
        one = lambda k=k, role=role: (Q.spd(rng, d[role[0]]) if k in ("X", "U", "XT") else
                                      0.1 * rng.normal(size=[d[c] for c in role]) if k == "M" else
                                      rng.normal(size=[d[c] for c in role]) * 0.7)
        out[k] = [one() for _ in range(T)] if k in SEQ else one()
    if rng.random() < 0.3:      # terms that say nothing: zero or as the defaults
        for k in ("c", "H", "r", "HT", "rT", "Z", "s", "M"):
            if rng.random() < 0.4:
                z = plain(k, [d[c] for c in ROLE[k]])
                out[k] = [z.copy() for _ in range(T)] if k in SEQ else z
    return out


def plain(k, sh):
    """A value of this shape that a reader would take for "nothing here"."""
    return np.eye(*sh) if k in ("H", "HT", "Z", "F", "X", "U", "XT") and len(sh) == 2 else np.zeros(sh)


def default(k, n, m, p, q):
    return dict(XT=np.eye(p), c=np.zeros(n), H=np.eye(p, n), r=np.zeros(p), HT=np.eye(p, n), rT=np.zeros(p),
                Z=np.eye(m), s=np.zeros(m), M=np.zeros((p, m)))[k]


def alternatives(sh):
    o = {sh + (1,), (1,) + sh}
    if len(sh) > 1:
        o.add(sh[:-1])
        o.add(sh[::-1])
    for ax in range(len(sh)):
        for d in (-1, 1, 2):
            t = list(sh)
            t[ax] += d
            if t[ax] > 0:
                o.add(tuple(t))
    o.discard(sh)
    return sorted(o)


def expanded(lq, k):
    return getattr(lq, k)


def g_lqt_expand(ctx):
    """Every mixture of constant, time-varying and omitted terms equals the fully written problem."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T, n, m, p = int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
        vary = i % 4 == 3 and T > 1      # reference dimension changes along the horizon
        pd = [int(rng.integers(1, 5)) for _ in range(T)] if vary else [p] * T
        p = pd[0]
        full = data(rng, T, n, m, p, p)
        if vary:
            for k in range(T):
                full["X"][k] = Q.spd(rng, pd[k])
                full["H"][k] = rng.normal(size=(pd[k], n))
                full["r"][k] = rng.normal(size=pd[k])
                full["M"][k] = 0.1 * rng.normal(size=(pd[k], m))
        kw, given, want = {}, {}, {}
        for k in ROLE:
            opts = ["list", "const"] if k in "FLXU" else ["list", "const", "omit", "none"]
            mode = str(rng.choice(opts))
            if vary and k in "XHrM" and mode == "const":
                mode = "list"
            if k not in SEQ and mode in ("list", "const"):
                kw[k] = want[k] = full[k]
            elif mode == "list":
                kw[k], want[k] = list(full[k]), full[k]
            elif mode == "const":
                kw[k], want[k] = full[k][0], [full[k][0]] * T
            else:
                if mode == "none":
                    kw[k] = None
                if k in SEQ:
                    want[k] = [default(k, n, m, pk, pk) for pk in pd]
                else:
                    want[k] = default(k, n, m, p, p)
            given[k] = mode
        if not any(isinstance(kw[k], list) for k in "FLXU"):
            kw["T"] = T
        elif rng.uniform() < 0.3:
            kw["T"] = T
        snap = {k: ([a.copy() for a in v] if isinstance(v, list) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
        if i % 2:
            lq = ctx.call("checkAndExpand", LQT.checkAndExpand, **kw)
        else:   # positional use
            pos = [kw.pop(k) for k in "FLXU"]
            lq = ctx.call("checkAndExpand", LQT.checkAndExpand, *pos, **kw)
            kw.update(zip("FLXU", pos))
        ref = LQT(*[want[k] for k in ("F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "Z", "s", "M")])
        for k in ROLE:
            a, b = getattr(lq, k), getattr(ref, k)
            if k in SEQ:
                ctx.true("length " + k, len(a) == T, "%s expanded to %d entries for %d steps" % (k, len(a), T), abort=True)
                for j in range(T):
                    ctx.true("entry " + k, a[j].shape == b[j].shape and np.array_equal(a[j], b[j]),
                             "%s[%d] is not the value written out (given as %s)" % (k, j, given[k]), got=a[j], want=b[j])
            else:
                ctx.true("entry " + k, a.shape == b.shape and np.array_equal(a, b), "%s (given as %s)" % (k, given[k]), got=a, want=b)
        for k, v in snap.items():
            same = all(np.array_equal(a, b) for a, b in zip(v, kw[k])) and len(v) == len(kw[k]) if isinstance(v, list) else \
                np.array_equal(v, kw[k]) if isinstance(v, np.ndarray) else v is kw[k] or v == kw[k]
            ctx.true("arguments untouched", same, "argument %s changed" % k)
        # same costs and, when convex, the same solution
        x0 = rng.normal(size=n)
        us = [rng.normal(size=m) for _ in range(T)]
        xs = Q.simulate(want, x0, us)
        ctx.close("cost of a trajectory", float(ctx.call("cost", lq.cost, us, xs)), Q.cost(want, xs, us), rtol=1e-9,
                  scale=Q.cost(dict(want, M=[np.zeros_like(a) for a in want["M"]]), xs, us) + 1)
        if all(np.linalg.eigvalsh(np.block([[want["X"][k], want["M"][k]], [want["M"][k].T, want["U"][k]]]))[0] > 1e-3 for k in range(T)) \
                and all(np.linalg.cond(want["Z"][k]) < 50 for k in range(T)):
            a = ctx.call("seqBackwardPass", lq.seqBackwardPass)
            b = ref.seqBackwardPass()
            for nm, x, y in zip(("K", "d", "S", "v"), a, b):
                ctx.close("solution " + nm, np.concatenate([np.ravel(t) for t in x]), np.concatenate([np.ravel(t) for t in y]), rtol=1e-12)
            ctx.feature("solved")
        ctx.note(T=T, n=n, m=m, vary=vary, given=",".join("%s:%s" % kv for kv in sorted(given.items())), digest=[np.concatenate([np.ravel(a) for a in want["F"]])])
    ctx.cases(1500, 15000, body)


def g_lqt_reject(ctx):
    """Every single-argument inconsistency is refused."""
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        T = int(rng.integers(1, 7))
        n, m, p, q = (int(v) for v in rng.integers(1, 5, size=4))
        full = data(rng, T, n, m, p, q)
        few = float(rng.choice([0.2, 0.5, 0.9]))
        const = {k for k in SEQ if rng.uniform() < few}
        for k in SEQ:       # the same array object at several steps
            if rng.uniform() < 0.3:
                full[k] = OF.share(rng, full[k])
        base = {k: (v[0] if k in const else v) for k, v in full.items()}
        base["T"] = T
        k = list(ROLE)[i % len(ROLE)]
        base = {a: (list(b) if isinstance(b, list) else b) for a, b in base.items()}
        ctx.call("consistent data", LQT.checkAndExpand, **base)
        dims = dict(n=n, m=m, p=p, q=q)
        sh = tuple(dims[c] for c in ROLE[k])
        n_bad = 0
        for bad in alternatives(sh):
            # a wrong shape is only an inconsistency when nothing else can agree with it
            if k == "F" and len(bad) == 2 and bad[0] == bad[1]:
                pass        # every other term still says n
            for where in (["only"] if k not in SEQ or k in const else ["first", "middle", "last", "all"]):
                kw = {a: (list(b) if isinstance(b, list) else b) for a, b in base.items()}
                quiet = rng.uniform() < 0.3
                A = plain(k, bad) if quiet else rng.normal(size=bad)
                if where == "only":
                    kw[k] = A
                elif where == "all":
                    kw[k] = [plain(k, bad) if quiet else rng.normal(size=bad) for _ in range(T)]
                else:
                    if quiet:
                        kw[k] = [plain(k, sh) for _ in range(T)]
                    kw[k][dict(first=0, middle=T // 2, last=T - 1)[where]] = A
                ctx.call_raises("shape of " + k, ValueError, LQT.checkAndExpand, **kw)
                n_bad += 1
        if k in SEQ and k not in const:
            for d in (-1, 1, 2, T):
                if T + d < 1:
                    continue
                kw = {a: (list(b) if isinstance(b, list) else b) for a, b in base.items()}
                kw[k] = (kw[k] * 3)[:T + d]
                if not any(a not in const and a != k for a in "FLXU") and k in "FLXU":
                    continue        # the only sequence present defines the horizon
                others = [a for a in SEQ if a != k and a not in const]
                if not others:
                    continue
                ctx.call_raises("length of " + k, ValueError, LQT.checkAndExpand, **kw)
                n_bad += 1
        # constants only and no horizon
        kw = {a: (b[0] if isinstance(b, list) else b) for a, b in full.items()}
        ctx.call_raises("horizon unknown", ValueError, LQT.checkAndExpand, **kw)
        ctx.feature("refusals", n_bad)
        ctx.note(key=k, T=T, n=n, m=m, p=p, q=q, const=",".join(sorted(const)))
    ctx.cases(780, 7800, body)


def g_fsc_expand(ctx):
    from parallel_control.fsc_np import FSC

    def body(rng, i):
        T, nx, nu = int(rng.integers(1, 9)), int(rng.integers(1, 8)), int(rng.integers(1, 5))
        dt = [np.float64, np.float32, np.int64][i % 3]
        f = [rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]
        L = [(rng.uniform(0, 9, size=(nx, nu)) * (1 if dt != np.int64 else 5)).astype(dt) for _ in range(T)]
        LT = (rng.uniform(0, 9, size=nx)).astype(dt)
        mf, mL, mT = str(rng.choice(["list", "const"])), str(rng.choice(["list", "const"])), str(rng.choice(["given", "omit", "none"]))
        kw = dict(f=list(f) if mf == "list" else f[0], L=list(L) if mL == "list" else L[0])
        wf, wL = (f if mf == "list" else [f[0]] * T), (L if mL == "list" else [L[0]] * T)
        wT = LT if mT == "given" else np.ones(nx, dtype=dt)
        if mT != "omit":
            kw["LT"] = LT if mT == "given" else None
        if mf == mL == "const" or rng.uniform() < 0.3:
            kw["T"] = T
        fsc = ctx.call("checkAndExpand", FSC.checkAndExpand, **kw)
        ctx.true("lengths", len(fsc.f) == T and len(fsc.L) == T, "lengths %d, %d for %d steps" % (len(fsc.f), len(fsc.L), T), abort=True)
        for k in range(T):
            ctx.true("moves", np.array_equal(fsc.f[k], wf[k]), "f[%d]" % k)
            ctx.true("stage cost", np.array_equal(fsc.L[k], wL[k]) and fsc.L[k].dtype == dt, "L[%d]" % k)
        ctx.true("terminal cost", np.array_equal(fsc.LT, wT), "LT given as %s" % mT)
        us, Vs = ctx.call("seqBackwardPass", fsc.seqBackwardPass)
        V = OF.fsc_dp(wf, wL, wT)
        tol = 1e-5 if dt == np.float32 else 1e-12
        ctx.close("values", np.array([np.asarray(v, float) for v in Vs]), np.array(V, float), rtol=tol)
        ctx.note(T=T, nx=nx, nu=nu, given=mf + mL + mT, dtype=str(np.dtype(dt)), digest=[np.array(L)])
    ctx.cases(600, 6000, body)


def g_fsc_reject(ctx):
    from parallel_control.fsc_np import FSC

    def body(rng, i):
        T, nx, nu = int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 5))
        f = [rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]
        L = [rng.uniform(size=(nx, nu)) for _ in range(T)]
        if rng.uniform() < 0.4:
            f, L = OF.share(rng, f), OF.share(rng, L)
        base = dict(f=f[0] if i % 3 == 1 else f, L=L[0] if i % 3 == 2 else L, LT=rng.uniform(size=nx), T=T)
        ctx.call("consistent data", FSC.checkAndExpand, **base)
        bad_n = 0
        for k, sh in (("f", (nx, nu)), ("L", (nx, nu)), ("LT", (nx,))):
            for bad in alternatives(sh):
                A = np.zeros(bad, dtype=int if k == "f" else float)
                for where in (["only"] if not isinstance(base[k], list) else ["first", "middle", "last", "all"]):
                    kw = dict(base)
                    if where == "only":
                        kw[k] = A
                    elif where == "all":
                        kw[k] = [A] * T
                    else:
                        kw[k] = list(kw[k])
                        kw[k][dict(first=0, middle=T // 2, last=T - 1)[where]] = A
                    ctx.call_raises("shape of " + k, ValueError, FSC.checkAndExpand, **kw)
                    bad_n += 1
        if i % 3 == 0:
            for k in ("f", "L"):
                for d in (-1, 1, T):
                    if T + d > 0:
                        kw = dict(base)
                        kw[k] = (kw[k] * 2)[:T + d]
                        kw.pop("T")
                        ctx.call_raises("length of " + k, ValueError, FSC.checkAndExpand, **kw)
                        bad_n += 1
        ctx.call_raises("horizon unknown", ValueError, FSC.checkAndExpand, f[0], L[0], base["LT"])
        ctx.feature("refusals", bad_n)
        ctx.note(T=T, nx=nx, nu=nu, form=i % 3)
    ctx.cases(300, 3000, body)


GROUPS = dict(lqt_expand=g_lqt_expand, lqt_reject=g_lqt_reject, fsc_expand=g_fsc_expand, fsc_reject=g_fsc_reject)
