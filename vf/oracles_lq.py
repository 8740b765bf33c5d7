"""Independent oracles for linear-quadratic tracking.

A problem is a dict of lists F,c,L,X,U,M,H,r,Z,s (length T) and HT,XT,rT.
Value functions are kept in homogeneous coordinates, V(x) = 1/2 [x;1]' P [x;1],
and eliminated by Schur complement of the joint (x,u,1) quadratic form -- a
different derivation from the code under test, and exact for cross terms.
"""
import numpy as np

from vf.core import relayout, step_labels

KEYS = ["F", "c", "L", "X", "U", "M", "H", "r", "Z", "s"]


def spd(rng, n, lo=0.3, hi=3.0):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    return (q * rng.uniform(lo, hi, size=n)) @ q.T


def psd(rng, n, rank=None):
    rank = n if rank is None else rank
    if rank == 0:
        return np.zeros((n, n))
    g = rng.normal(size=(rank, n)) / np.sqrt(n)
    return g.T @ g


def rand_F(rng, n, kind):
    F = rng.normal(size=(n, n))
    rho = max(np.abs(np.linalg.eigvals(F)).max(), 1e-3)
    F = F * (rng.uniform(0.5, 1.05) / rho)
    sv = np.linalg.norm(F, 2)
    if sv > 2.0:
        F *= 2.0 / sv
    if kind == "singular":
        F[:, rng.integers(n)] = 0.0
        if rng.uniform() < 0.3:
            F = np.zeros_like(F)
    elif kind == "orth":
        F, _ = np.linalg.qr(F)
    elif kind == "integrator":
        F = np.eye(n) + 0.2 * np.triu(rng.normal(size=(n, n)), 1)
    elif kind == "unstable":
        F = F * 1.4
    return F


def rand_lqt(rng, T, n, m, cross=True, zmat=True, rvar=True, rdim=None, rTdim=None, kinds=None, const=False, offs=True, xrank="any"):
    """Random convex tracking problem with time-varying data."""
    kinds = kinds or ["plain", "singular", "orth", "integrator", "unstable"]
    kind = str(rng.choice(kinds))
    p0 = int(rng.integers(1, n + 2)) if rdim is None else rdim
    pr = {k: [] for k in KEYS}
    for k in range(T):
        if const and k > 0:
            for key in KEYS:
                if key not in ("r",) or not offs:
                    pr[key].append(pr[key][0])
            if offs:
                pr["r"].append(rng.normal(size=p0))
            continue
        p = p0 if const or not rvar else int(rng.integers(1, n + 2))
        pr["F"].append(rand_F(rng, n, kind))
        pr["L"].append(rng.normal(size=(n, m)) * rng.choice([0.3, 1.0]))
        pr["c"].append(rng.normal(size=n) * (0.5 if offs else 0.0))
        pr["H"].append(rng.normal(size=(p, n)) if rng.uniform() < 0.8 else np.eye(p, n))
        pr["r"].append(rng.normal(size=p) if offs else np.zeros(p))
        U = spd(rng, m)
        if cross and rng.uniform() < 0.9:
            # joint [[X, M], [M', U]] >= 0 by construction
            X0 = psd(rng, p, int(rng.integers(0, p + 1)) if xrank == "any" else p)
            if xrank != "any":
                X0 = X0 + 0.2 * np.eye(p)
            G = rng.normal(size=(p, m)) * 0.5
            M = G @ U
            X = X0 + G @ U @ G.T
        else:
            M = np.zeros((p, m))
            X = psd(rng, p, int(rng.integers(0, p + 1))) if xrank == "any" else spd(rng, p)
        X = 0.5 * (X + X.T)
        pr["X"].append(X)
        pr["U"].append(U)
        pr["M"].append(M)
        if zmat and rng.uniform() < 0.8:
            q1, _ = np.linalg.qr(rng.normal(size=(m, m)))
            q2, _ = np.linalg.qr(rng.normal(size=(m, m)))
            Z = (q1 * rng.uniform(0.5, 2.0, size=m)) @ q2
        else:
            Z = np.eye(m)
        pr["Z"].append(Z)
        pr["s"].append(rng.normal(size=m) if cross and offs else np.zeros(m))
    pT = int(rng.integers(1, n + 2)) if rTdim is None else rTdim
    pr["HT"] = rng.normal(size=(pT, n))
    pr["XT"] = spd(rng, pT) if rng.uniform() < 0.7 or xrank != "any" else psd(rng, pT, int(rng.integers(0, pT + 1)))
    pr["rT"] = rng.normal(size=pT) if offs else np.zeros(pT)
    pr["kind"] = kind
    if not const and rng.uniform() < 0.2:
        pr = neutral(rng, pr, xrank == "any")
    if 1 < T <= 64 and not const and rng.uniform() < 0.3:
        pr = share(rng, pr)
    if rng.uniform() < 0.25:
        pr = relayout(rng, pr)
        pr["kind"] += "+layout"
    return pr


def start(rng, n):
    """Initial state: now and then zero, partly zero or integer-valued."""
    x = rng.normal(size=n)
    how = int(rng.integers(16))
    return 0.0 * x if how == 0 else x * rng.integers(0, 2, size=n) if how == 1 else np.round(2 * x) if how == 2 else x


def neutral(rng, pr, weights=True):
    """Zero and identity data at some or all steps, each argument on its own."""
    T = len(pr["F"])
    pr = dict(pr, **{k: list(pr[k]) for k in KEYS})

    def steps(p):
        if rng.uniform() >= p:
            return []
        how = int(rng.integers(4))
        return range(T) if how == 0 else [int(rng.integers(T))] if how == 1 else [(0, T - 1)[int(rng.integers(2))]] if how == 2 else [k for k in range(T) if rng.integers(2)]
    for key in ("c", "r", "s", "M", "L"):
        for k in steps(0.15 if key == "L" else 0.3):
            pr[key][k] = np.zeros_like(pr[key][k])
    for k in steps(0.2):
        pr["F"][k] = np.eye(len(pr["F"][k])) * float(rng.integers(0, 2))
    for k in steps(0.2 * weights):
        pr["H"][k] = np.eye(*pr["H"][k].shape) * float(rng.integers(0, 2))
    for k in steps(0.2):
        pr["Z"][k] = np.eye(len(pr["Z"][k]))
    for k in steps(0.3 * weights):
        if not pr["M"][k].any():
            pr["X"][k] = np.eye(len(pr["X"][k])) * float(rng.integers(0, 2))
    for k in steps(0.3):
        if not pr["M"][k].any():
            pr["U"][k] = np.eye(len(pr["U"][k]))
    pr["kind"] = str(pr.get("kind")) + "+neutral"
    return pr


def share(rng, pr):
    """Constant, piecewise constant and recurring data: each argument on its own
    has the same array (the same object) at some steps.  Stays convex."""
    T = len(pr["F"])
    pr = dict(pr, **{k: list(pr[k]) for k in KEYS})

    def labels(key):
        lab = step_labels(rng, T)
        out = {}
        for k in range(T):
            out.setdefault((lab[k], np.shape(pr[key][k])), []).append(k)
        return list(out.values())

    for ks in labels("M"):
        if len(ks) > 1:     # [X0 M0; M0' U0] + diag(Xk, Uk)
            M0, X0, U0 = (pr[q][ks[0]] for q in "MXU")
            for k in ks:
                pr["M"][k] = M0
            for k in ks[1:]:
                pr["X"][k], pr["U"][k] = pr["X"][k] + X0, pr["U"][k] + U0
    for key in "XU":        # larger weights keep it convex
        for ks in labels(key):
            w = {id(pr[key][k]): pr[key][k] for k in ks}
            w = sum(w.values())
            for k in ks:
                pr[key][k] = w
    for key in ("F", "L", "c", "H", "r", "Z", "s"):
        for ks in labels(key):
            for k in ks:
                pr[key][k] = pr[key][ks[0]]
    pr["kind"] = str(pr.get("kind")) + "+shared"
    return pr


def stage_form(pr, k):
    """W with stage cost = 1/2 z'Wz, z=[x;u;1]."""
    n, m = pr["L"][k].shape
    E = np.hstack([pr["H"][k], np.zeros((pr["H"][k].shape[0], m)), -pr["r"][k][:, None]])
    G = np.hstack([np.zeros((m, n)), pr["Z"][k], -pr["s"][k][:, None]])
    W = E.T @ pr["X"][k] @ E + G.T @ pr["U"][k] @ G
    C = E.T @ pr["M"][k] @ G
    return W + C + C.T


def dp(pr):
    """Returns lists S,v,const (0..T) and K,d (0..T-1)."""
    T = len(pr["F"])
    n, m = pr["L"][0].shape
    ET = np.hstack([pr["HT"], -pr["rT"][:, None]])
    P = ET.T @ pr["XT"] @ ET
    Ss, vs, cs, Ks, ds = [P[:n, :n]], [-P[:n, n]], [0.5 * P[n, n]], [], []
    for k in reversed(range(T)):
        A = np.zeros((n + 1, n + m + 1))
        A[:n, :n], A[:n, n:n + m], A[:n, n + m], A[n, n + m] = pr["F"][k], pr["L"][k], pr["c"][k], 1.0
        Q = stage_form(pr, k) + A.T @ P @ A
        iu = list(range(n, n + m))
        ix = list(range(n)) + [n + m]
        Quu, Qux = Q[np.ix_(iu, iu)], Q[np.ix_(iu, ix)]
        G = np.linalg.solve(Quu, Qux)           # u = -G [x;1]
        P = Q[np.ix_(ix, ix)] - Qux.T @ G
        P = 0.5 * (P + P.T)
        Ss.append(P[:n, :n])
        vs.append(-P[:n, n])
        cs.append(0.5 * P[n, n])
        Ks.append(G[:, :n])
        ds.append(-G[:, n])
    for l in (Ss, vs, cs, Ks, ds):
        l.reverse()
    return dict(S=Ss, v=vs, const=cs, K=Ks, d=ds, pr=pr)


def roll(pr, x0, K, d):
    xs, us = [np.asarray(x0, float)], []
    for k in range(len(K)):
        u = -K[k] @ xs[-1] + d[k]
        us.append(u)
        xs.append(pr["F"][k] @ xs[-1] + pr["c"][k] + pr["L"][k] @ u)
    return xs, us


def simulate(pr, x0, us):
    xs = [np.asarray(x0, float)]
    for k in range(len(us)):
        xs.append(pr["F"][k] @ xs[-1] + pr["c"][k] + pr["L"][k] @ us[k])
    return xs


def cost(pr, xs, us):
    e = pr["HT"] @ xs[-1] - pr["rT"]
    tot = 0.5 * e @ pr["XT"] @ e
    for k in range(len(us)):
        z = np.concatenate([xs[k], us[k], [1.0]])
        tot += 0.5 * z @ stage_form(pr, k) @ z
    return float(tot)


def gradient(pr, xs, us):
    """dJ/du by the adjoint recursion (for any trajectory)."""
    T = len(us)
    n, m = pr["L"][0].shape
    lam = pr["HT"].T @ pr["XT"] @ (pr["HT"] @ xs[-1] - pr["rT"])
    g = [None] * T
    for k in reversed(range(T)):
        z = np.concatenate([xs[k], us[k], [1.0]])
        w = stage_form(pr, k) @ z
        g[k] = w[n:n + m] + pr["L"][k].T @ lam
        lam = w[:n] + pr["F"][k].T @ lam
    return np.array(g)


def dense(pr, x0):
    """Minimize over the stacked control vector; returns xs, us, cost, cond(Hessian)."""
    T = len(pr["F"])
    n, m = pr["L"][0].shape
    Bx, bx = [np.zeros((n, T * m))], [np.asarray(x0, float)]
    for k in range(T):
        B = pr["F"][k] @ Bx[-1]
        B[:, k * m:(k + 1) * m] += pr["L"][k]
        Bx.append(B)
        bx.append(pr["F"][k] @ bx[-1] + pr["c"][k])
    E = pr["HT"] @ Bx[T]
    e = pr["HT"] @ bx[T] - pr["rT"]
    Hs = E.T @ pr["XT"] @ E
    g = E.T @ pr["XT"] @ e
    for k in range(T):
        Sel = np.zeros((m, T * m))
        Sel[:, k * m:(k + 1) * m] = np.eye(m)
        A = np.vstack([Bx[k], Sel, np.zeros((1, T * m))])
        b = np.concatenate([bx[k], np.zeros(m), [1.0]])
        W = stage_form(pr, k)
        Hs += A.T @ W @ A
        g += A.T @ W @ b
    ev = np.linalg.eigvalsh(0.5 * (Hs + Hs.T))
    u = np.linalg.solve(Hs, -g)
    us = [u[k * m:(k + 1) * m] for k in range(T)]
    xs = simulate(pr, x0, us)
    return xs, us, cost(pr, xs, us), ev[-1] / max(ev[0], 1e-300), ev[0]


def sensitivity(pr, sol):
    """Largest change of the solution per unit change of the data (relative to
    the size of the solution): amplification of rounding errors by the problem
    itself, e.g. an unobserved unstable mode carried over a long horizon."""
    rng, e = np.random.default_rng(5), 1e-9

    def per(a, sym=False):
        a = np.asarray(a, float)
        d = rng.normal(size=a.shape) * e
        return a + (0.5 * (d + d.T) if sym else d)
    q = {k: [per(a, k in "XU") for a in pr[k]] for k in KEYS}
    q.update(HT=per(pr["HT"]), XT=per(pr["XT"], True), rT=per(pr["rT"]))
    with np.errstate(all="ignore"):
        try:
            o = dp(q)
        except np.linalg.LinAlgError:
            return np.inf
        out = 0.0
        for k in "SvKd":
            a, b = np.array(sol[k]), np.array(o[k])
            out = max(out, float(np.abs(a - b).max()) / max(1.0, float(np.abs(a).max())) / e)
    return out if np.isfinite(out) else np.inf


def well_posed(sol, lim=1e5, sens=2e4):
    if max(sol["K"][0].shape) > 7:      # rounding grows with the dimensions
        lim, sens = lim / 10, sens / 20
    return (all(np.all(np.isfinite(S)) and np.abs(S).max() < lim for S in sol["S"]) and all(np.abs(v).max() < lim for v in sol["v"])
            and sensitivity(sol["pr"], sol) < sens)


def build(lqt_cls, pr):
    return lqt_cls(*[list(pr[k]) if isinstance(pr[k], list) else pr[k]
                     for k in ("F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "Z", "s", "M")])


def digest(pr):
    return [np.concatenate([np.asarray(a).ravel() for a in pr[k]]) for k in ("F", "X", "U", "L")] + [np.asarray(pr["rT"])]


def par_cond(pr, sol):
    """Amplification of rounding in interval composition: reach gramian times cost-to-go."""
    n = pr["F"][0].shape[0]
    C, g, a, P = np.zeros((n, n)), 0.0, 0.0, np.eye(n)
    for k in range(len(pr["F"])):
        UZ = pr["U"][k] @ pr["Z"][k]
        A = pr["F"][k] - pr["L"][k] @ np.linalg.solve(UZ, pr["M"][k].T @ pr["H"][k])
        C = A @ C @ A.T + pr["L"][k] @ np.linalg.solve(pr["Z"][k].T @ UZ, pr["L"][k].T)
        P = A @ P
        g, a = max(g, np.abs(C).max()), max(a, np.abs(P).max())
    s = max(np.abs(S).max() for S in sol["S"])
    return (1 + g * s) * (1 + a)


class Units:
    """The same problem expressed in other units, x = s x', u = t u', outputs
    and references w, control offsets z, costs a.  All factors are powers of
    two, so the data are represented exactly and the solution of the new
    problem is the old one in new units, up to rounding."""

    def __init__(self, rng, zt=False, span=24):
        e = lambda k: 2.0 ** int(rng.integers(-k, k + 1))
        self.a, self.s, self.t, self.w, self.z = e(span), e(span // 2), e(span // 2), e(span // 2), e(span // 2)
        if zt:
            self.z = self.t

    def problem(self, pr):
        a, s, t, w, z = self.a, self.s, self.t, self.w, self.z
        f = dict(F=1.0, c=1 / s, L=t / s, X=a * w * w, U=a * z * z, M=a * w * z, H=s / w, r=1 / w, Z=t / z, s=1 / z)
        q = {k: [np.asarray(v) * f[k] for v in pr[k]] for k in KEYS}
        q.update(HT=pr["HT"] * (s / w), XT=pr["XT"] * (a * w * w), rT=pr["rT"] / w, kind=pr.get("kind"))
        return q

    def back(self, K=None, d=None, S=None, v=None):
        """Gains, offsets and value functions in the original units."""
        a, s, t = self.a, self.s, self.t
        f = lambda x, g: None if x is None else np.array(x) * g
        return [x for x in (f(K, t / s), f(d, t), f(S, 1 / (a * s * s)), f(v, 1 / (a * s))) if x is not None]

    def law(self, K, d):
        return [np.asarray(k) * (self.s / self.t) for k in K], [np.asarray(k) / self.t for k in d]

    def value(self, S, v):
        return [np.asarray(x) * (self.a * self.s ** 2) for x in S], [np.asarray(x) * (self.a * self.s) for x in v]

    def note(self):
        return dict(units="2^" + ",".join("%d" % np.log2(k) for k in (self.a, self.s, self.t, self.w, self.z)))
