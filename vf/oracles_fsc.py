"""Independent oracles for finite-state control and HMM decoding."""
import itertools
import numpy as np

from vf.core import relayout, step_labels


def fsc_dp(f, L, LT):
    """Plain backward induction, element by element, in float64."""
    T = len(f)
    nx, nu = f[0].shape
    V = [None] * (T + 1)
    V[T] = [float(v) for v in LT]
    for k in range(T - 1, -1, -1):
        V[k] = [min(float(L[k][x, u]) + V[k + 1][int(f[k][x, u])] for u in range(nu)) for x in range(nx)]
    return np.array(V)


def fsc_dp_fast(f, L, LT):
    """The same induction with whole tables at once, for large problems."""
    V = np.empty((len(f) + 1, len(LT)))
    V[-1] = LT
    for k in range(len(f) - 1, -1, -1):
        V[k] = (np.asarray(L[k], dtype=float) + V[k + 1][np.asarray(f[k], dtype=int)]).min(axis=1)
    return V


def relabel(rng, f, L, LT):
    """The same problem with states and controls renamed: (problem, px, pu) with new = p[old]."""
    nx, nu = f[0].shape
    px, pu = rng.permutation(nx), rng.permutation(nu)
    ix, iu = np.argsort(px), np.argsort(pu)
    return [px[a[ix][:, iu]] for a in f], [l[ix][:, iu] for l in L], LT[ix], px, pu


def fsc_brute(f, L, LT, x0):
    T = len(f)
    nu = f[0].shape[1]
    best, n_opt, arg = np.inf, 0, None
    for us in itertools.product(range(nu), repeat=T):
        x, c = x0, 0.0
        xs = [x]
        for k in range(T):
            c += float(L[k][x, us[k]])
            x = int(f[k][x, us[k]])
            xs.append(x)
        c += float(LT[x])
        if c < best:
            best, arg = c, (us, xs)
    return best, arg


def fsc_count_opt(f, L, LT, V, x0, tol):
    """Optimal states at each time reachable from x0 (sets)."""
    T = len(f)
    sets = [{x0}]
    for k in range(T):
        nxt = set()
        for x in sets[-1]:
            for u in range(f[k].shape[1]):
                xp = int(f[k][x, u])
                if abs(float(L[k][x, u]) + V[k + 1][xp] - V[k][x]) <= tol:
                    nxt.add(xp)
        sets.append(nxt)
    return sets


def traj_cost(f, L, LT, xs, us):
    return sum(float(L[k][int(xs[k]), int(us[k])]) for k in range(len(us))) + float(LT[int(xs[-1])])


def share(rng, xs):
    lab, first = step_labels(rng, len(xs)), {}
    return [first.setdefault(k, x) for k, x in zip(lab, xs)]


def rand_fsc(rng, T, nx, nu, kind):
    """kind: dyadic (exact, many ties), real, integer, huge, negative, const."""
    if kind == "walk":
        base = np.array([[max(0, min(nx - 1, x + u - nu // 2)) for u in range(nu)] for x in range(nx)], dtype=int)
        f = [base.copy() for _ in range(T)]
    elif kind == "perm":
        f = [np.stack([rng.permutation(nx) for _ in range(nu)], axis=1) for _ in range(T)]
    else:
        f = [rng.integers(0, nx, size=(nx, nu)) for _ in range(T)]
    ck = rng.choice(["dyadic", "tied", "real", "negative", "huge", "sparse"])
    if ck == "dyadic":
        g = lambda s: rng.integers(-400, 400, size=s) / 8.0
    elif ck == "tied":
        g = lambda s: rng.integers(0, 3, size=s).astype(float)
    elif ck == "real":
        g = lambda s: rng.normal(size=s) * 3.0
    elif ck == "negative":
        g = lambda s: -rng.uniform(0.0, 10.0, size=s)
    elif ck == "huge":
        g = lambda s: rng.integers(0, 1000, size=s) * 2.0 ** 30
    else:
        g = lambda s: np.where(rng.uniform(size=s) < 0.7, 0.0, rng.uniform(0, 5, size=s))
    L = [g((nx, nu)) for _ in range(T)]
    LT = g((nx,))
    if T > 1 and rng.uniform() < 0.35:      # the same array object at several steps
        f, L = share(rng, f), share(rng, L)
    if rng.uniform() < 0.25:
        f, L, LT = relayout(rng, (f, L, LT))
    return f, L, LT, str(ck)


def hmm_dp(prior, Pi, Po, ys):
    """Forward max-log-prob table and the best score."""
    with np.errstate(divide="ignore"):
        lp, lPi, lPo = np.log(prior), np.log(Pi), np.log(Po)
    n = len(prior)
    A = [[float(v) for v in lp]]
    for y in ys:
        A.append([max(A[-1][i] + lPi[i, j] for i in range(n)) + lPo[j, int(y)] for j in range(n)])
    return np.array(A)


def hmm_bwd(Pi, Po, ys):
    with np.errstate(divide="ignore"):
        lPi, lPo = np.log(Pi), np.log(Po)
    n = Pi.shape[0]
    B = [np.zeros(n)]
    for y in reversed(list(ys)):
        b = B[0]
        B.insert(0, np.array([max(lPi[i, j] + lPo[j, int(y)] + b[j] for j in range(n)) for i in range(n)]))
    return np.array(B)


def path_logp(prior, Pi, Po, ys, xs):
    with np.errstate(divide="ignore"):
        s = np.log(prior[int(xs[0])])
        for k, y in enumerate(ys):
            s += np.log(Pi[int(xs[k]), int(xs[k + 1])]) + np.log(Po[int(xs[k + 1]), int(y)])
    return float(s)


def rand_hmm(rng, n, m, T):
    zk = rng.choice(["dense", "zeros", "leftright", "tied", "peaked"])

    def stoch(shape, zero_ok=True):
        if zk == "tied":
            a = rng.integers(1, 3, size=shape).astype(float)
        elif zk == "peaked":
            a = rng.uniform(size=shape) ** 8 + 1e-12
        else:
            a = rng.uniform(0.05, 1.0, size=shape)
        if zk == "zeros" and zero_ok:
            a = np.where(rng.uniform(size=shape) < 0.4, 0.0, a)
            if a.ndim == 1:
                a[rng.integers(shape[0])] += 0.5
            else:
                for i in range(shape[0]):
                    a[i, rng.integers(shape[1])] += 0.5
        return a / a.sum(axis=-1, keepdims=True)
    prior = stoch((n,))
    Pi = stoch((n, n))
    if zk == "leftright":
        Pi = np.triu(Pi)
        Pi = Pi / Pi.sum(axis=1, keepdims=True)
    Po = stoch((n, m))
    # observations generated by the model: positive probability by construction
    x = rng.choice(n, p=prior)
    ys = []
    for _ in range(T):
        x = rng.choice(n, p=Pi[x])
        ys.append(int(rng.choice(m, p=Po[x])))
    ys = np.array(ys, dtype=int)
    if rng.uniform() < 0.25:
        prior, Pi, Po, ys = relayout(rng, (prior, Pi, Po, ys))
    return prior, Pi, Po, ys, str(zk)
