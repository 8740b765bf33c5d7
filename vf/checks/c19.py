"""C19: purity and repeatability.

Every case is a random history: a pool of operations on several problem objects
(two of them of equal size, to catch state keyed by size or identity), executed
in a random order with repetitions.  Reference results come from each operation
run alone on a private deep copy.  After every operation all inputs and all
results returned so far are compared byte for byte with their snapshots."""
import copy
import hashlib
import sys

import numpy as np

from vf import oracles_ct as oc
from vf import oracles_fsc as of
from vf import oracles_lq as Q
from vf.core import Skip, relayout, to_np


def freeze(x, seen=None):
    """Structural digest of nested data and objects."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, freeze(x[k])) for k in sorted(x))
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return tuple(freeze(v) for v in x.ravel())
    if isinstance(x, np.generic) or isinstance(x, np.ndarray) or hasattr(x, "numpy") or type(x).__module__.startswith("jax"):
        a = to_np(x)
        return (a.shape, str(a.dtype), hashlib.sha1(np.ascontiguousarray(a).tobytes()).digest())
    if callable(x) or isinstance(x, type):
        return "callable"
    if hasattr(x, "__dict__"):
        return (type(x).__name__,) + tuple((k, freeze(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_"))
    return repr(type(x))


def leaves(x):
    if isinstance(x, (list, tuple)):
        return [z for v in x for z in leaves(v)]
    if hasattr(x, "__dict__") and type(x).__module__.startswith("parallel_control"):
        return [z for k, v in sorted(vars(x).items()) for z in leaves(v)]
    if x is None or callable(x):
        return []
    return [to_np(x).astype(float)]


def spread(a, b):
    """Largest deviation relative to the size of each result component."""
    a, b = leaves(a), leaves(b)
    if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
        return float("inf")
    w = 0.0
    for x, y in zip(a, b):
        if x.size and not np.array_equal(x, y, equal_nan=True):
            w = max(w, float(np.max(np.abs(x - y)) / max(1.0, np.max(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 1.0)))
            if not np.isfinite(w):
                return float("inf")
    return w


class Watched(list):
    """A caller's list that remembers being changed, even when changed back.  Copies are plain lists."""
    log = None

    def __copy__(self):
        return list(self)

    def __deepcopy__(self, memo):
        return copy.deepcopy(list(self), memo)

    def __reduce_ex__(self, protocol):
        return (list, (list(self),))


def _recording(nm):
    plain = getattr(list, nm)

    def changed(self, *a, **k):
        if self.log is not None:
            self.log.append("%s of a list handed over, in %s" % (nm.strip("_"), sys._getframe(1).f_code.co_name))
        return plain(self, *a, **k)
    return changed


for _nm in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__", "__imul__"):
    setattr(Watched, _nm, _recording(_nm))


def watched(x, log, memo):
    """Nested argument lists replaced by watched ones (lists shared stay shared)."""
    if id(x) in memo:
        return memo[id(x)][1]
    if type(x) is list:
        y = Watched(watched(v, log, memo) for v in x)
        y.log = log
    elif type(x) is tuple:
        y = tuple(watched(v, log, memo) for v in x)
    elif type(x) is dict:
        y = {k: watched(v, log, memo) for k, v in x.items()}
    else:
        return x
    memo[id(x)] = (x, y)
    return y


class Pool:
    """name, function, arguments (private to the pool, shared between operations)."""

    def __init__(self, rng=None):
        self.ops, self.watch = [], []
        self.rng, self.memo = rng, {}

    def add(self, name, fn, *args, **kw):
        if self.rng is not None:
            args, kw = (relayout(self.rng, z, self.memo, 0.4, True) for z in (args, kw))
        self.ops.append((name, fn, args, kw))

    def lay(self, *arrays):
        """The same values in other memory layouts (some shared, some read-only)."""
        return relayout(self.rng, list(arrays), self.memo, 0.4, True)

    def guard(self, name, obj):
        self.watch.append((name, obj, freeze(obj)))


def run_history(ctx, pool, rng, length, tol=1e-9, copies=True, skip_watch=()):
    if getattr(ctx, "concurrent", False):
        return run_threads(ctx, pool, rng, tol)
    dc = copy.deepcopy if copies else (lambda z: z)
    want = []
    for name, fn, args, kw in pool.ops:
        a, k = dc(args), dc(kw)
        if not copies:
            pool.guard("arguments of " + name, (args, kw))
        want.append(ctx.call(name, fn, *a, **k))
    frozen = [freeze(w) for w in want]
    args_frozen = [(n, (a, k), freeze((a, k))) for n, _, a, k in pool.ops]
    order = list(rng.permutation(len(pool.ops)))
    order += list(rng.integers(0, len(pool.ops), size=max(0, length - len(order))))
    returned = []
    for step, j in enumerate(order):
        name, fn, args, kw = pool.ops[j]
        got = ctx.call(name, fn, *args, **kw)
        ctx.feature("operations")
        d = spread(got, want[j])
        if not ctx.true("same result", d <= tol, "%s differs by %.3g from the same call made alone" % (name, d)):
            return
        returned.append((name, got, freeze(got)))
        bad = None
        for n2, obj, fz in args_frozen:
            if freeze(obj) != fz:
                bad = "arguments of %s changed by %s" % (n2, name)
        for n2, obj, fz in pool.watch:
            if freeze(obj) != fz:
                bad = "%s changed by %s" % (n2, name)
        if step % 6 == 5 or j == order[-1]:
            for n2, obj, fz in returned:
                if freeze(obj) != fz:
                    bad = "result returned earlier by %s changed by %s or shortly before" % (n2, name)
            for w, fz in zip(want, frozen):
                if freeze(w) != fz:
                    bad = "a result returned earlier was changed by %s or shortly before" % name
        if not ctx.true("nothing altered", bad is None, bad):
            return


def run_threads(ctx, pool, rng, tol):
    """Every thread runs all operations, in its own order, on the shared problems."""
    import threading
    want = [ctx.call(n, f, *copy.deepcopy(a), **copy.deepcopy(k)) for n, f, a, k in pool.ops]
    touched, memo = [], {}
    if rng.integers(2):
        pool.ops = [(n, f, watched(a, touched, memo), watched(k, touched, memo)) for n, f, a, k in pool.ops]
        ctx.feature("watched lists", sum(isinstance(y, Watched) for _, y in memo.values()))
    args_frozen = [freeze((a, k)) for _, _, a, k in pool.ops]
    nthreads = int(rng.choice([2, 3, 4, 6]))
    orders = [list(rng.permutation(len(pool.ops))) + list(rng.integers(0, len(pool.ops), size=len(pool.ops))) for _ in range(nthreads)]
    if rng.integers(2):     # everybody in the same order: the same operation at the same time
        orders = [list(orders[0]) for _ in orders]
    start = threading.Barrier(nthreads)
    out = [[] for _ in orders]
    clock = []

    def work(t):
        start.wait()
        for j in orders[t]:
            n, f, a, k = pool.ops[j]
            clock.append((t, j, 0))
            try:
                out[t].append((j, f(*a, **k), None))
            except Exception as e:
                out[t].append((j, None, "%s: %s" % (type(e).__name__, e)))
            clock.append((t, j, 1))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    running, overlaps = {}, set()
    for t, j, end in clock:
        if end:
            running.pop(t, None)
        else:
            overlaps |= {tuple(sorted((j, k))) for k in running.values()}
            running[t] = j
    ctx.feature("overlapping pairs of operations", len(overlaps))
    for t, res in enumerate(out):
        for j, got, err in res:
            ctx.feature("operations")
            name = pool.ops[j][0]
            if not ctx.true("same result in threads", err is None, "%s in one of %d threads: %s" % (name, nthreads, err)):
                return
            d = spread(got, want[j])
            if not ctx.true("same result in threads", d <= tol, "%s differs by %.3g when %d threads solve at the same time" % (name, d, nthreads)):
                return
    bad = next(("arguments of %s changed" % o[0] for o, fz in zip(pool.ops, args_frozen) if freeze(o[2:]) != fz), None) or \
        next(("%s changed" % n for n, obj, fz in pool.watch if freeze(obj) != fz), None)
    ctx.true("nothing altered", bad is None, bad)
    ctx.true("nothing altered", not touched, "; ".join(sorted(set(touched))[:3]))


def method(nm):
    return lambda obj, *a, **k: getattr(obj, nm)(*a, **k)


def draw_lqt(rng, T, n, m, **kw):
    for _ in range(60):
        pr = Q.rand_lqt(rng, T, n, m, **kw)
        sol = Q.dp(pr)
        if Q.well_posed(sol, 1e3) and Q.par_cond(pr, sol) < 1e4:
            return pr, sol
    raise Skip()


def g_lqt(ctx):
    from parallel_control.lqt_np import LQR, LQT
    from parallel_control import lqt_np

    def body(rng, i):
        T, n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        P = Pool(rng)
        for tag in ("a", "b", "c"):
            if tag == "c":
                T, n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
            plain = bool(rng.integers(2))
            pr, sol = draw_lqt(rng, T, n, m, cross=not plain, zmat=not plain, rvar=False)
            lq = Q.build(LQT, pr)
            P.guard("problem " + tag, lq)
            x0 = rng.normal(size=n)
            K, d, S, v = [list(z) for z in (sol["K"], sol["d"], sol["S"], sol["v"])]
            us = [rng.normal(size=m) for _ in range(T)]
            xs = Q.simulate(pr, x0, us)
            A = lambda nm, *a: P.add("LQT.%s (%s)" % (nm, tag), method(nm), lq, *a)
            A("seqBackwardPass"), A("parBackwardPass"), A("seqForwardPass", x0, K, d), A("parForwardPass", x0, K, d)
            A("parFwdBwdPass", x0, K, d, S, v), A("parFwdBwdPass2", x0, K, d, S, v), A("cost", us, xs), A("seqSimulation", x0, us)
            if plain or tag == "a":
                # consistent reference dimension incl. terminal
                pb, _ = draw_lqt(rng, T, n, m, cross=True, zmat=True, rvar=False, rdim=n, rTdim=n)
                lb = Q.build(LQT, pb)
                P.guard("batch problem " + tag, lb)
                P.add("LQT.batchSolution (%s)" % tag, method("batchSolution"), lb, x0)
            if plain:
                A("seqTransformedBackwardPass")
            el = lq.parBackwardPass_init()
            P.add("scan elements (%s)" % tag, lqt_np.par_backward_pass_scan, el)
            A("parBackwardPass_extract", lqt_np.par_backward_pass_scan(el))
            A("parForwardPass_extract", x0, K, d, lqt_np.par_forward_pass_scan(lq.parForwardPass_init(x0, K, d)))
            P.add("LQT.checkAndExpand (%s)" % tag, LQT.checkAndExpand, pr["F"], pr["L"][0], pr["X"], pr["U"], pr["XT"], None, pr["H"], pr["r"], pr["HT"], pr["rT"])
            lr = LQR(*P.lay(pr["F"][0], pr["L"][0], Q.spd(rng, n), Q.spd(rng, m), Q.spd(rng, n)))
            if np.abs(np.linalg.eigvals(lr.F)).max() < 1.5:
                P.guard("regulator " + tag, lr)
                B = lambda nm, *a: P.add("LQR.%s (%s)" % (nm, tag), method(nm), lr, *a)
                Kr, _ = lr.seqBackwardPass(T)
                B("seqBackwardPass", T), B("seqForwardPass", x0, Kr), B("parBackwardPass", T), B("parForwardPass", x0, Kr)
                B("lqrIter", 5), B("lqrDouble", 4)
        run_history(ctx, P, rng, 60)
        ctx.note(T=T, n=n, m=m, ops=len(P.ops), digest=[np.array(pr["F"])])
    ctx.cases(40, 600, body)


def g_edit(ctx):
    """Replacing problem data between solves: the object solves what it holds now."""
    from parallel_control.clqt_np import CLQR
    from parallel_control.fsc_np import FSC
    from parallel_control.lqt_np import LQR, LQT
    from parallel_control.viterbi_np import Viterbi_np

    def parts(rng, i, names, build, data, ops):
        """Any attributes replaced, or overwritten in place, between solves."""
        sets = [data(), data()]
        cur = {k: copy.deepcopy(sets[0][k]) for k in names}
        obj = build(**copy.deepcopy(cur))
        for step in range(14):
            for k in names:
                if rng.uniform() < 0.25:
                    new, old = sets[int(rng.integers(2))][k], getattr(obj, k)
                    if isinstance(old, np.ndarray) and rng.integers(2):
                        old[...] = new
                    else:
                        setattr(obj, k, copy.deepcopy(new))
                    cur[k] = copy.deepcopy(new)
                    ctx.feature("edits")
            nm, args, kw = ops[int(rng.integers(len(ops)))]
            got = ctx.call(nm, getattr(obj, nm), *copy.deepcopy(args), **kw)
            want = getattr(build(**copy.deepcopy(cur)), nm)(*copy.deepcopy(args), **kw)
            if not ctx.true("solves the current data", spread(got, want) < 1e-9, "%s.%s %s after edits deviates" % (type(obj).__name__, nm, kw)):
                break

    def other(rng, i):
        n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        x0 = rng.normal(size=n)
        reg = lambda **k: dict(F=rng.normal(size=(n, n)) * 0.4, L=rng.normal(size=(n, m)) * 0.4, X=0.5 * Q.spd(rng, n), U=Q.spd(rng, m), XT=0.5 * Q.spd(rng, n), **k)
        kind = ["clqr", "lqr", "viterbi", "clqt"][i % 4]
        bl, st = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        N = bl * st
        K = [rng.normal(size=(m, n)) * 0.3 for _ in range(N)]
        if kind == "clqr":
            ops = [("seqBackwardPass", (N,), dict(method=z)) for z in ("exact", "rk4")] + [("parBackwardPass", (bl, st), {}), ("seqFwdBwdPass", (x0, N), {}), ("parForwardPass", (x0, K, bl, st), {})]
            ops += [("seqForwardPass", (x0, K), dict(method=z, u_zoh=y)) for z in ("exact", "rk4") for y in (True, False)] + [("parBackwardPass", (bl, st), dict(extract_method="exact"))]
            parts(rng, i, ["F", "L", "X", "U", "XT", "T"], CLQR, lambda: reg(T=float(rng.uniform(0.1, 0.4))), ops)
        elif kind == "lqr":
            parts(rng, i, ["F", "L", "X", "U", "XT"], LQR, reg, [("seqBackwardPass", (N,), {}), ("parBackwardPass", (N,), {}), ("seqForwardPass", (x0, K), {})])
        elif kind == "viterbi":
            nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 4))
            sto = lambda *z: (lambda a: a / a.sum(-1, keepdims=True))(rng.uniform(0.05, 1, size=z))
            ys = rng.integers(0, ny, size=int(rng.integers(1, 8)))
            parts(rng, i, ["prior", "Pi", "Po"], Viterbi_np, lambda: dict(prior=sto(nx), Pi=sto(nx, nx), Po=sto(nx, ny)),
                  [(z, (ys,), {}) for z in ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi")])
        else:
            p = int(rng.integers(1, 3))
            names = ["F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "T"]

            def data():
                pb = oc.rand_prob(rng, n, m, p)
                return dict(pb.fs, XT=pb.XT, HT=pb.HT, rT=pb.rT, T=min(1.0, 0.5 / oc.rate(pb)))
            from parallel_control.clqt_np import CLQT
            d = [rng.normal(size=m) for _ in range(N)]
            ops = [("seqBackwardPass", (N,), {}), ("parBackwardPass", (bl, st), {}), ("seqFwdBwdPass", (x0, N), {}), ("seqForwardPass", (x0, K, d), {}), ("parForwardPass", (x0, K, d, bl, st), {})]
            parts(rng, i, names, lambda **k: CLQT(*[k[z] for z in names]), data, ops)
        ctx.note(kind=kind, n=n, m=m, digest=[x0])

    def body(rng, i):
        if i % 2:
            return other(rng, i // 2)
        T, n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        prs = [draw_lqt(rng, T, n, m, cross=True, zmat=True, rvar=False, rdim=n, rTdim=n)[0] for _ in range(2)]
        x0 = rng.normal(size=n)
        obj = Q.build(LQT, prs[0])
        cur = prs[0]
        ops = ["seqBackwardPass", "parBackwardPass", "batchSolution", "cost"]
        for step in range(14):
            if rng.uniform() < 0.5:
                cur = prs[int(rng.integers(2))]
                fresh = Q.build(LQT, cur)
                for k, v in vars(fresh).items():
                    if isinstance(v, list) and rng.uniform() < 0.5:
                        getattr(obj, k)[:] = v      # in place, as the nonlinear tracker does
                    else:
                        setattr(obj, k, v)
                ctx.feature("edits")
            nm = str(rng.choice(ops))
            us = [rng.normal(size=m) for _ in range(T)]
            args = dict(batchSolution=(x0,), cost=(us, Q.simulate(cur, x0, us))).get(nm, ())
            got = ctx.call(nm, getattr(obj, nm), *args)
            want = getattr(Q.build(LQT, cur), nm)(*args)
            if not ctx.true("solves the current data", spread(got, want) < 1e-9, "%s after edits deviates" % nm):
                break
        ctx.note(T=T, n=n, m=m, digest=[np.array(cur["F"])])
    ctx.cases(120, 1600, body)


def g_fsc(ctx):
    from parallel_control import fsc_np
    from parallel_control.fsc_np import FSC
    from parallel_control.viterbi_np import Viterbi_np

    def body(rng, i):
        T, nx, nu = int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
        P = Pool(rng)
        kinds = ["float", "int", "sparse", "float"]
        for tag in ("a", "b", "c"):
            if tag == "c":
                T, nx, nu = int(rng.integers(1, 8)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
            f = [rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]
            L = [rng.uniform(0, 5, size=(nx, nu)) for _ in range(T)]
            LT = rng.uniform(0, 5, size=nx)
            if rng.integers(2):
                f, L = of.share(rng, f), of.share(rng, L)
            fs = FSC(*P.lay(f, L, LT))
            P.guard("controller " + tag, fs)
            us, Vs = fs.seqBackwardPass()
            x0 = int(rng.integers(nx))
            mu, mx = fs.seqForwardPass(x0, us)
            A = lambda nm, *a: P.add("FSC.%s (%s)" % (nm, tag), method(nm), fs, *a)
            A("seqBackwardPass"), A("parBackwardPass"), A("seqForwardPass", x0, us), A("parForwardPass", x0, us)
            A("parFwdBwdPass", x0, us, Vs), A("parFwdBwdPass2", x0, us, Vs), A("seqSimulation", x0, mu), A("cost", mx, mu)
            if nu ** T <= 300:
                A("batch_solution", x0)
            el = fs.parBackwardPass_init()
            P.add("scan elements (%s)" % tag, fsc_np.par_backward_pass_scan, el)
            A("parBackwardPass_extract", fsc_np.par_backward_pass_scan(el))
            P.add("FSC.checkAndExpand (%s)" % tag, FSC.checkAndExpand, f, L[0], LT)
            no = int(rng.integers(1, 5))
            if tag == "b":
                no = no_a
            no_a = no
            st = lambda *s: (lambda z: z / z.sum(-1, keepdims=True))(rng.uniform(0.05, 1, size=s))
            vt = Viterbi_np(*P.lay(st(nx), st(nx, nx), st(nx, no)))
            P.guard("decoder " + tag, vt)
            ys = rng.integers(0, no, size=int(rng.integers(1, 10)))
            for nm in ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "getFSC", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi"):
                P.add("Viterbi.%s (%s)" % (nm, tag), method(nm), vt, ys)
            P.add("Viterbi.fscToViterbi (%s)" % tag, method("fscToViterbi"), vt, mx, Vs)
        run_history(ctx, P, rng, 70)
        ctx.note(T=T, nx=nx, nu=nu, ops=len(P.ops), digest=[np.array(L)])
    ctx.cases(40, 600, body)


def g_ct(ctx):
    from parallel_control.clqt_np import CLQR
    from parallel_control.parareal_clqt_np import Parareal_CLQT_np

    def body(rng, i):
        P = Pool(rng)
        n, m, p = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
        for tag in ("a", "b"):
            pb = oc.rand_prob(rng, n, m, p, invariant=bool(rng.integers(2)))
            pb.T = min(2.0, 1.2 / oc.rate(pb))
            q = pb.build()
            P.guard("problem " + tag, q)
            P.guard("problem functions " + tag, [[f.M0, f.M1, f.M2] for f in pb.fs.values()])
            bl, st = int(rng.integers(1, 4)), int(rng.integers(1, 3))
            N = bl * st
            K, d, S, v = q.seqBackwardPass(N)
            Af, bf, Cf = q.seqFwdBwdPass(pb.x0, N)
            x0 = pb.x0
            A = lambda nm, *a, **k: P.add("CLQT.%s (%s)" % (nm, tag), method(nm), q, *a, **k)
            ST, vT = Q.spd(rng, n), rng.normal(size=n)
            A("seqBackwardPass", N), A("seqBackwardPass", N, S=ST, v=vT), A("seqForwardPass", x0, K, d), A("seqForwardPass", x0, K, d, u_zoh=True)
            A("seqFwdBwdPass", x0, N), A("seqFwdBwdPass", x0, N, A=np.eye(n), b=vT, C=ST), A("combineForwardBackward", K, d, S, v, Af, bf, Cf)
            A("parBackwardPass", bl, st), A("parBackwardPass", bl, st, forward=True), A("parForwardPass", x0, K, d, bl, st)
            A("parForwardPass", x0, K, d, bl, st, forward=False, u_zoh=True), A("parFwdBwdPass", x0, K, d, S, v, bl, st)
            A("parFwdBwdPass", x0, K, d, S, v, bl, st, forward=False)
            par = Parareal_CLQT_np(q)
            P.guard("parareal " + tag, par)
            B = lambda nm, *a, **k: P.add("Parareal.%s (%s)" % (nm, tag), method(nm), par, *a, **k)
            it = int(rng.integers(1, 3))
            B("backwardPass", bl, st, niter=it), B("forwardPass", bl, st, x0, K, d, niter=it), B("fwdBwdPass", bl, st, x0, niter=it)
            F, L, X, U, XT = rng.normal(size=(n, n)) * 0.4, rng.normal(size=(n, m)) * 0.4, 0.5 * Q.spd(rng, n), Q.spd(rng, m), 0.5 * Q.spd(rng, n)
            r = CLQR(*P.lay(F, L, X, U, XT), 0.3)
            P.guard("regulator " + tag, r)
            Kr, Sr = r.seqBackwardPass(N)
            R = lambda nm, *a, **k: P.add("CLQR.%s (%s)" % (nm, tag), method(nm), r, *a, **k)
            R("seqBackwardPass", N), R("seqForwardPass", x0, Kr), R("parBackwardPass", bl, st), R("parForwardPass", x0, Kr, bl, st), R("parFwdBwdPass", x0, Kr, Sr, bl, st)
            R("seqFwdBwdPass", x0, N)
            R("seqBackwardPass", N, method="exact"), R("seqForwardPass", x0, Kr, method="exact"), R("seqForwardPass", x0, Kr, method="exact", u_zoh=True)
        run_history(ctx, P, rng, 70)
        ctx.note(n=n, m=m, p=p, ops=len(P.ops), digest=[F])
    ctx.cases(16, 250, body)


def g_misc(ctx):
    from parallel_control import disc
    from parallel_control.condensing_np import LQTCondenser
    from parallel_control.diffeq_np import rk4
    from parallel_control.lqt_np import LQT
    from parallel_control.my_assoc_scan import my_assoc_scan
    from parallel_control.nlqt_np import NLQT
    from parallel_control.nonlinear_model_np import NonlinearModel

    def body(rng, i):
        P = Pool(rng)
        for tag in ("a", "b"):
            F, L = rng.normal(size=(3, 3)), rng.normal(size=(3, 2))
            if i % 3 == 0:
                F, L = rng.integers(-1, 2, size=(3, 3)), rng.integers(-1, 2, size=(3, 2))
            G, Qc = rng.normal(size=(3, 2)), Q.spd(rng, 2)
            dt = float(rng.uniform(0.05, 1))
            P.add("lti_disc " + tag, disc.lti_disc, F, L, Qc, dt)
            P.add("lti_disc default " + tag, disc.lti_disc, F, L)
            P.add("lti_disc_u " + tag, disc.lti_disc_u, F, L, G, Qc, dt)
            x = rng.normal(size=3)
            P.add("rk4 " + tag, lambda F, x, dt: rk4(lambda z: F @ z, dt, x), F, x, dt)
            P.add("rk4 t " + tag, lambda F, x, dt, g: rk4(lambda z, t, p: F @ z + t * p, dt, x, 0.3, g), F, x, dt, rng.normal(size=3))
            k = int(rng.integers(1, 12))
            mats = [rng.normal(size=(2, 2)) for _ in range(k)]
            P.add("scan " + tag, my_assoc_scan, lambda a, b: b @ a, mats)
            P.add("reverse scan " + tag, my_assoc_scan, lambda a, b: b @ a, mats, True)
        # one condenser used over and over for different problems and block lengths
        cond = LQTCondenser()

        def condense(lq, Nc, us, xs, cond=cond):
            c = cond.condense(lq, Nc)
            return c, cond.convertUX(us, xs)

        def alone(lq, Nc, us, xs):
            return condense(lq, Nc, us, xs, LQTCondenser())
        T, n, m = int(rng.integers(1, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
        for tag in ("a", "b", "c"):
            if tag == "c":
                T = int(rng.integers(1, 9))
            pr, _ = draw_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=n, rTdim=n)
            pr["s"] = [np.zeros(m)] * T
            lq = Q.build(LQT, pr)
            P.guard("problem " + tag, lq)
            for Nc in {1, int(rng.integers(1, T + 2))}:
                Tc = -(-T // Nc)
                us = [rng.normal(size=m * Nc) for _ in range(Tc)]
                xs = [rng.normal(size=n) for _ in range(Tc + 1)]
                P.add("condense %s/%d" % (tag, Nc), condense, lq, Nc, us, xs)
        # iterated tracker sharing one problem object, interleaved with linear solves of it
        model = NonlinearModel()
        xyt, _ = model.genData(12, 4)
        lqt, x0 = model.getLQT(xyt[:, :2], steps=int(rng.integers(1, 4)))
        Tn = len(lqt.F)
        P.guard("tracked problem", lqt)
        nl = [NLQT(lqt, model), NLQT(lqt, model)]
        x0 = x0 + np.array([0, 0, 0, 0.5])
        for j in range(3):
            us = [rng.normal(size=2) * 0.3 for _ in range(Tn)]
            xs = nl[0].simulate(x0, us)
            for meth in (0, 1, 2):
                P.add("iterate %d method %d" % (j, meth), method("iterate"), nl[j % 2], us, xs, meth)
            P.add("simulate %d" % j, method("simulate"), nl[j % 2], x0, us)
            P.add("nonlinear cost %d" % j, method("cost"), nl[j % 2], x0, us)
        P.add("linear solve of the tracked problem", lambda q: q.cost([np.zeros(2)] * len(q.F), [np.zeros(4)] * (len(q.F) + 1)), lqt)
        P.add("discrete gains of the tracked problem", lambda q: (q.F, q.L, q.c), lqt)
        run_working(ctx, P, rng, 70)
        ctx.note(T=T, n=n, m=m, ops=len(P.ops), digest=[F])
    ctx.cases(30, 400, body)


def run_working(ctx, P, rng, length):
    """As run_history, but the operations' own objects (condenser, tracker) are
    allowed to change; only the data handed in is watched."""
    from parallel_control.nlqt_np import NLQT
    ops = P.ops
    want = [ctx.call(n, f, *copy.deepcopy(a), **copy.deepcopy(k)) for n, f, a, k in ops]
    watched = [(n, tuple(z for z in a if not isinstance(z, NLQT))) for n, f, a, k in ops]
    watched = [(n, z, freeze(z)) for n, z in watched]
    order = list(rng.permutation(len(ops))) + list(rng.integers(0, len(ops), size=max(0, length - len(ops))))
    returned = []
    for j in order:
        n, f, a, k = ops[j]
        got = ctx.call(n, f, *a, **k)
        ctx.feature("operations")
        d = spread(got, want[j])
        if not ctx.true("same result", d <= 1e-8, "%s differs by %.3g from the same call made alone" % (n, d)):
            return
        returned.append((n, got, freeze(got)))
        bad = next(("%s (input) changed by %s" % (w[0], n) for w in watched + P.watch if freeze(w[1]) != w[2]), None) or \
            next(("result returned earlier by %s changed by %s" % (w[0], n) for w in returned if freeze(w[1]) != w[2]), None)
        if not ctx.true("nothing altered", bad is None, bad):
            return


def g_jax(ctx):
    import contextlib
    import io
    import jax.numpy as jnp
    from parallel_control import hjb_grid_1d_np as hj, sqp_np

    def body(rng, i):
        P = Pool(rng)
        for tag in ("a", "b"):
            n, m = 3, 1
            G, c = Q.spd(rng, n), rng.normal(size=n)
            A, b = rng.normal(size=(m, n)), rng.normal(size=m)
            P.add("lqe_solve " + tag, sqp_np.lqe_solve, G, c, A, b)
            Gj, cj, Aj, bj = map(jnp.array, (G, c, A, b))
            fun = lambda x, G=Gj, c=cj: 0.5 * x @ G @ x + c @ x + 0.01 * jnp.sum(x ** 4)
            con = lambda x, A=Aj, b=bj: A @ x - b + 0.02 * x[0] ** 2
            x0 = rng.normal(size=n) * 0.3

            def quiet(fn, *a, **k):
                with contextlib.redirect_stdout(io.StringIO()):
                    return fn(*a, **k)
            P.add("local_eq " + tag, lambda x, fun=fun, con=con: quiet(sqp_np.local_eq, fun, con, x, max_iter=8, quiet=True), x0)
            P.add("local_eq_fast " + tag, lambda x, fun=fun, con=con: sqp_np.local_eq_fast(fun, con, jnp.array(x), 4), x0)
            P.add("bfgs " + tag, lambda x, fun=fun, con=con: quiet(sqp_np.bfgs_eq_bt, fun, con, x, max_iter=6, quiet=True), x0)
            B, s = Q.spd(rng, n), rng.normal(size=n)
            P.add("bfgs_basic_update " + tag, sqp_np.bfgs_basic_update, B, s, B @ s + 0.1 * s, True)
            P.add("bfgs_damped_update " + tag, sqp_np.bfgs_damped_update, B, s, rng.normal(size=n), True)
            ns = 5
            V1, V2 = rng.uniform(0, 4, size=(ns, ns)), rng.uniform(0, 4, size=(ns, ns))
            for nm in ("combine_V", "combine_V_interp"):
                P.add(nm + tag, getattr(hj, nm), jnp.array(V1), jnp.array(V2))
            xg, ug = np.linspace(-1, 1, ns), np.linspace(-1, 1, 4)
            a0 = float(rng.uniform(0.2, 1))
            hb = hj.HJB_Grid_1d(lambda x, u, a0=a0: a0 * x + u, lambda x, u: x * x + u * u, lambda x: x * x, 0.4, 2, 3, jnp.array(xg))
            P.guard("grid problem " + tag, hb)
            uj, bv = jnp.array(ug), jnp.array(V1)
            for nm, arg in (("seqBackwardPass_symfd", uj), ("seqBackwardPass_upwind", uj), ("seqBackwardPass_assoc", bv), ("parBackwardPass", bv)):
                P.add(nm + tag, method(nm), hb, arg)
        run_history(ctx, P, rng, 46, tol=1e-7, copies=False)
        ctx.note(ops=len(P.ops), digest=[G, c])
    ctx.cases(5, 60, body)


def g_tf(ctx):
    """Traced solvers with alternating sizes and data; array arguments stay as they were."""
    import tensorflow as tf
    from parallel_control import condensing_tf as cz, fsc_tf, lqt_np, lqt_tf, viterbi_tf as vt
    from parallel_control.fsc_np import FSC
    from parallel_control.lqt_np import LQT

    def body(rng, i):
        P = Pool(rng)
        sizes = [(3, 2, 1), (3, 2, 1), (5, 3, 2)]
        for tag, (T, n, m) in zip("abc", sizes):
            pr, sol = draw_lqt(rng, T, n, m, cross=False, zmat=False, rvar=False, rdim=n, rTdim=n)
            pr["s"] = [np.zeros(m)] * T
            lq = Q.build(LQT, pr)
            P.guard("problem " + tag, lq)
            P.add("lqt_np_to_tf " + tag, lqt_tf.lqt_np_to_tf, lq)
            P.add("lqt_np_to_tf_gen " + tag, lqt_tf.lqt_np_to_tf_gen, lq)
            st = lambda k: np.array(pr[k])
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = [st(k) for k in ("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U")]
            Ms, ss = st("M"), st("s")
            K, d, S, v = [np.array(sol[k]) for k in ("K", "d", "S", "v")]
            x0 = rng.normal(size=n)
            A = lambda nm, *a, mod=lqt_tf: P.add(nm + " " + tag, getattr(mod, nm), *a)
            for w in ("seq", "par"):
                A("lqt_%s_backwardpass" % w, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
                A("lqt_%s_forwardpass" % w, x0, Fs, cs, Ls, K, d)
            A("lqt_par_fwdbwdpass", x0, Fs, cs, Ls, Hs, rs, Xs, Us, S, v, K, d)
            A("lqt_gen_to_canon", Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
            A("lqt_canon_to_gen", K, d, Hs, rs, Us, Ms, ss)
            for Nc in (1, 2):
                A("condense", Fs, cs, Ls, Hs, rs, Xs, Us, Nc, mod=cz)
            nx, nu = n + 1, m + 1
            f = np.stack([rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]).astype(np.int32)
            L, LT = rng.uniform(0, 3, size=(T, nx, nu)), rng.uniform(0, 3, size=nx)
            us, Vs = FSC(list(f), list(L), LT).seqBackwardPass()
            us = np.array(us, dtype=np.int32)
            for w in ("seq", "par"):
                A("fsc_%s_backwardpass" % w, f, L, LT, mod=fsc_tf)
                A("fsc_%s_forwardpass" % w, np.int32(0), f, us, mod=fsc_tf)
            A("fsc_par_fwdbwdpass", np.int32(0), f, L, us, np.array(Vs), mod=fsc_tf)
            sto = lambda *s: (lambda z: z / z.sum(-1, keepdims=True))(rng.uniform(0.05, 1, size=s))
            hm = (sto(nx), sto(nx, nx), sto(nx, nu), rng.integers(0, nu, size=T + 1).astype(np.int32))
            for nm in ("viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"):
                A(nm, *hm, mod=vt)
        run_history(ctx, P, rng, ctx.n(75, 160))
        ctx.note(ops=len(P.ops), digest=[Fs])
    ctx.cases(2, 24, body)


def g_tfct(ctx):
    """Continuous-time solvers and the nonlinear tracker on tensors."""
    import tensorflow as tf
    from parallel_control import clqt_tf as ct, nlqt_tf as nt, nonlinear_model_tf as mt, parareal_clqt_tf as pt
    tf_funs = oc.tf_funs

    def body(rng, i):
        P = Pool(rng)
        n, m, p = 2, 1, 2
        bl, st = 2, 2
        N = bl * st
        funs = {}
        order = ("F", "L", "X", "U", "c", "H", "r")
        for tag in ("a", "b"):
            pb = oc.rand_prob(rng, n, m, p)
            pb.T = min(1.5, 1.0 / oc.rate(pb))
            q = pb.build()
            f, _ = tf_funs(pb)
            funs[tag] = f
            seven = tuple(f[k] for k in order)
            flc = (f["F"], f["L"], f["c"])
            K, d, S, v = [np.array(z) for z in q.seqBackwardPass(N)]
            T = np.float64(pb.T)
            dt, dtb = T / N, T / bl
            t0s = np.float64(0.0)
            A = lambda nm, *a, mod=ct, **k: P.add(nm + " " + tag, lambda *z, nm=nm, mod=mod, k=k: getattr(mod, nm)(*z, **k), *a)
            ST, vT = pb.ST(), pb.vT()
            A("clqt_seq_backwardpass", N, dt, t0s, ST, vT, *seven)
            A("clqt_seq_forwardpass", pb.x0, K, d, dt, t0s, *flc)
            A("clqt_par_backwardpass", bl, st, dt, t0s, ST, vT, *seven)
            A("clqt_par_forwardpass", bl, st, pb.x0, K, d, dt, t0s, *flc)
            A("clqt_par_fwdbwdpass", bl, st, pb.x0, S, v, K, d, dt, t0s, *seven)
            A("pclqt_backwardpass", bl, st, 1, pb.XT, pb.HT, pb.rT, T, *seven, mod=pt)
        us, xs = rng.normal(size=(3, 2)) * 0.2, rng.normal(size=(4, 4))
        f4 = (mt.nonlinear_model_f, mt.nonlinear_model_Fx, mt.nonlinear_model_Fu)
        Hs, HT = np.tile(np.eye(3, 4), (3, 1, 1)), np.eye(3, 4)
        rs, rT = rng.normal(size=(3, 3)), rng.normal(size=3)
        Xs, XT, Us = np.tile(np.eye(3), (3, 1, 1)), np.eye(3), np.tile(np.eye(2), (3, 1, 1))
        for nm in ("nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2"):
            for e in (0.0, 0.1):
                P.add("%s %g" % (nm, e), lambda *z, nm=nm: getattr(nt, nm)(*z[:2], *f4, *z[2:]), us + e, xs, Hs, HT, rs, rT, Xs, XT, Us)
        run_history(ctx, P, rng, ctx.n(26, 60), copies=False)
        ctx.note(ops=len(P.ops), digest=[rs])
    ctx.cases(1, 8, body)


def g_threads(ctx):
    """The same pools of operations, carried out by several threads at once."""
    ctx.concurrent = True
    bodies = []
    cases, ctx.cases = ctx.cases, lambda q, t, body, tag="": bodies.append(body)
    for g in (g_lqt, g_fsc, g_ct):
        g(ctx)
    ctx.cases = cases
    ctx.cases(24, 300, lambda rng, i: bodies[i % len(bodies)](rng, i))


GROUPS = dict(threads=g_threads, lqt=g_lqt, edit=g_edit, fsc=g_fsc, ct=g_ct, misc=g_misc, jax=g_jax, tf=g_tf, tfct=g_tfct)
