"""Continuous-time linear-quadratic tracking: independent reference.

The reference never touches Riccati equations or Runge-Kutta: it propagates the
Hamiltonian (state, costate, 1) system with a sixth-order Magnus integrator and
gets value functions, trajectories and conditional value functions from its
transition matrices."""
import numpy as np
from scipy import linalg

from vf.core import relayout

_G = 0.5 + np.array([-1, 0, 1]) * np.sqrt(15) / 10


class Fun:
    """M(t) = M0 + M1 sin(w t + p) + M2 t (any number of leading times); with a
    window (a, b) only a smooth pulse of it, exactly zero at and outside a, b."""

    def __init__(self, M0, M1=None, M2=None, w=0.0, p=0.0, win=None):
        self.M0 = np.asarray(M0, float)
        self.M1 = np.zeros_like(self.M0) if M1 is None else np.asarray(M1, float)
        self.M2 = np.zeros_like(self.M0) if M2 is None else np.asarray(M2, float)
        self.w, self.p = float(w), float(p)
        self.win = win
        self.constant = win is None and not (self.M1.any() or self.M2.any())

    def __call__(self, t):
        if self.constant and np.ndim(t) == 0:
            return self.M0      # the same array every time, as in lambda t: F
        return (self.M0 + self.M1 * np.sin(self.w * t + self.p) + self.M2 * t) * self.env(t)

    def env(self, t):
        if self.win is None:
            return 1.0
        z = np.clip((t - self.win[0]) / (self.win[1] - self.win[0]), 0.0, 1.0)
        return (4 * z * (1 - z)) ** 6

    def hold(self):
        self.M1, self.M2, self.win, self.constant = np.zeros_like(self.M0), np.zeros_like(self.M0), None, True

    def pulse(self, a, b):
        self.win, self.constant = (a, b), False

    def many(self, ts):
        ts = np.asarray(ts, float).reshape((-1,) + (1,) * self.M0.ndim)
        return (self.M0 + self.M1 * np.sin(self.w * ts + self.p) + self.M2 * ts) * self.env(ts)


class Prob:
    names = ("F", "L", "X", "U", "c", "H", "r")

    def __init__(self, n, m, p, T, fs, XT, HT, rT, x0):
        self.n, self.m, self.p, self.T = n, m, p, T
        self.fs = fs
        self.XT, self.HT, self.rT, self.x0 = XT, HT, rT, x0

    def build(self):
        from parallel_control import clqt_np
        f = self.fs
        return clqt_np.CLQT(f["F"], f["L"], f["X"], f["U"], self.XT, f["c"], f["H"], f["r"], self.HT, self.rT, self.T)

    def shift(self, t0):
        """Pulses move with the horizon."""
        for f in self.fs.values():
            if f.win is not None and t0:
                f.win = (f.win[0] + t0, f.win[1] + t0)

    def ST(self):
        return self.HT.T @ self.XT @ self.HT

    def vT(self):
        return self.HT.T @ self.XT @ self.rT

    def ham(self, ts):
        v = {k: self.fs[k].many(ts) for k in self.names}
        n = self.n
        G = np.zeros((len(v["F"]), 2 * n + 1, 2 * n + 1))
        Lt = np.swapaxes(v["L"], -1, -2)
        Ht = np.swapaxes(v["H"], -1, -2)
        G[:, :n, :n] = v["F"]
        G[:, :n, n:2 * n] = -v["L"] @ np.linalg.solve(v["U"], Lt)
        G[:, :n, 2 * n] = v["c"]
        G[:, n:2 * n, :n] = -Ht @ v["X"] @ v["H"]
        G[:, n:2 * n, n:2 * n] = -np.swapaxes(v["F"], -1, -2)
        G[:, n:2 * n, 2 * n] = (Ht @ v["X"] @ v["r"][..., None])[..., 0]
        return G

    def gain(self, ts, S, v):
        """K_k = U(t)^-1 L' S_k, d_k = U(t)^-1 L' v_k."""
        K, d = [], []
        for t, s, w in zip(ts, S, v):
            UL = np.linalg.solve(self.fs["U"](t), self.fs["L"](t).T)
            K.append(UL @ s)
            d.append(UL @ w)
        return np.array(K), np.array(d)

    def digest(self):
        return [self.fs[k].M0 for k in self.names] + [self.fs[k].M1 for k in self.names] + [self.XT, self.rT, self.x0]


def magnus(G, ts, sub=2):
    """Transition matrices of z' = G(t) z over each interval of the grid."""
    ts = np.asarray(ts, float)
    N = len(ts) - 1
    h = np.repeat(np.diff(ts) / sub, sub)
    st = np.concatenate([ts[k] + (ts[k + 1] - ts[k]) * np.arange(sub) / sub for k in range(N)])
    A1, A2, A3 = (G(st + g * h) for g in _G)
    hh = h[:, None, None]
    a1 = hh * A2
    a2 = np.sqrt(15) * hh / 3 * (A3 - A1)
    a3 = 10 * hh / 3 * (A3 - 2 * A2 + A1)
    br = lambda x, y: x @ y - y @ x
    C1 = br(a1, a2)
    C2 = -br(a1, 2 * a3 + C1) / 60
    Om = a1 + a3 / 12 + br(-20 * a1 - a3 + C1, a2 + C2) / 240
    E = linalg.expm(Om)
    out = E[0::sub]
    for i in range(1, sub):
        out = E[i::sub] @ out
    return out


def split(P, n):
    return P[:n, :n], P[:n, n:2 * n], P[:n, 2 * n], P[n:2 * n, :n], P[n:2 * n, n:2 * n], P[n:2 * n, 2 * n]


def backward(Phi, S, v, n):
    Ss, vs = [S], [v]
    for P in Phi[::-1]:
        a, b, p, c, d, q = split(P, n)
        M = d - S @ b
        S, v = np.linalg.solve(M, S @ a - c), -np.linalg.solve(M, S @ p - v - q)
        S = 0.5 * (S + S.T)
        Ss.append(S)
        vs.append(v)
    return np.array(Ss[::-1]), np.array(vs[::-1])


def forward(Phi, Ss, vs, x0, n):
    xs = [x0]
    for k, P in enumerate(Phi):
        a, b, p = split(P, n)[:3]
        x = xs[-1]
        xs.append(a @ x + b @ (Ss[k] @ x - vs[k]) + p)
    return np.array(xs)


def fwd_abc(Phi, A, b, C, n):
    As, bs, Cs = [A], [b], [C]
    for P in Phi:
        p11, p12, f1, p21, p22, f2 = split(P, n)
        M = np.linalg.solve((p22 - p21 @ C).T, (p12 - p11 @ C).T).T
        A, b, C = p11 @ A - M @ p21 @ A, p11 @ b + f1 - M @ (p21 @ b + f2), -0.5 * (M + M.T)
        As.append(A)
        bs.append(b)
        Cs.append(C)
    return np.array(As), np.array(bs), np.array(Cs)


def element(Phi, n):
    """Conditional value function (A,b,C,eta,J) of a stretch of intervals."""
    Ss, vs = backward(Phi, np.zeros((n, n)), np.zeros(n), n)
    As, bs, Cs = fwd_abc(Phi, np.eye(n), np.zeros(n), np.zeros((n, n)), n)
    return As[-1], bs[-1], Cs[-1], vs[0], Ss[0]


def held(P, ts, x0, K, d, zoh=False, sub=3):
    """Exact states when the law (K_k, d_k) is held over each interval: as
    feedback, or (zoh) as the constant control computed at its start."""
    n = P.n
    x = np.asarray(x0, float)
    xs, us = [x], []
    for k in range(len(ts) - 1):
        u = -K[k] @ x + d[k]
        us.append(u)

        def G(t):
            F, L, c = P.fs["F"].many(t), P.fs["L"].many(t), P.fs["c"].many(t)
            g = np.zeros((len(F), n + 1, n + 1))
            g[:, :n, :n] = F if zoh else F - L @ K[k]
            g[:, :n, n] = c + (L @ (u if zoh else d[k]))
            return g
        E = magnus(G, ts[k:k + 2], sub)[0]
        x = (E @ np.append(x, 1.0))[:n]
        xs.append(x)
    return np.array(us), np.array(xs)


def held_element(P, ts, K, d, sub=3):
    """Affine map (Psi, phi) of the closed loop over the whole grid."""
    n = P.n
    tot = np.eye(n + 1)
    for k in range(len(ts) - 1):
        def G(t):
            F, L, c = P.fs["F"].many(t), P.fs["L"].many(t), P.fs["c"].many(t)
            g = np.zeros((len(F), n + 1, n + 1))
            g[:, :n, :n] = F - L @ K[k]
            g[:, :n, n] = c + (L @ d[k])
            return g
        tot = magnus(G, ts[k:k + 2], sub)[0] @ tot
    return tot[:n, :n], tot[:n, n]


def rand_prob(rng, n=None, m=None, p=None, invariant=None, T=None, homogeneous=False, pulses=True):
    n = int(rng.integers(1, 5)) if n is None else n
    m = int(rng.integers(1, 4)) if m is None else m
    p = int(rng.integers(1, 5)) if p is None else p
    invariant = bool(rng.random() < 0.3) if invariant is None else invariant
    T = float(rng.uniform(0.6, 2.5)) if T is None else T
    tv = 0.0 if invariant else 1.0
    w = lambda: float(rng.uniform(0.5, 3.0))
    ph = lambda: float(rng.uniform(-3, 3))

    def fun(shape, s0, s1, s2=0.0):
        return Fun(s0 * rng.standard_normal(shape), tv * s1 * rng.standard_normal(shape),
                   tv * s2 * rng.standard_normal(shape), w(), ph())

    def psd(k, base, var, rank=None):
        rank = k if rank is None else rank
        a = rng.standard_normal((k, max(rank, 1)))
        a = a @ a.T / max(k, 1) if rank else np.zeros((k, k))
        b = rng.standard_normal((k, max(rank, 1)))
        b = b @ b.T / max(k, 1) if rank else np.zeros((k, k))
        # M0 + M1 sin stays PSD because M0 - M1 = a + base I
        return Fun(a + base * np.eye(k) + tv * var * b, tv * var * b, None, w(), ph())

    F = fun((n, n), 0.7, 0.4)
    kind = int(rng.integers(0, 4))
    if kind == 0 and n > 1:                       # integrator chain (singular F)
        F = Fun(np.diag(np.ones(n - 1), 1), tv * 0.3 * rng.standard_normal((n, n)), None, w(), ph())
    fs = dict(F=F, L=fun((n, m), 0.7, 0.3), X=psd(p, 0.0 if rng.random() < .5 else 0.3, 0.4, rank=int(rng.integers(0, p + 1))),
              U=psd(m, 0.6, 0.3), c=fun((n,), 0.5, 0.5, 0.1), H=fun((p, n), 0.7, 0.3), r=fun((p,), 1.0, 1.0, 0.3))
    if rng.random() < 0.2:
        fs["c"] = Fun(np.zeros(n))
    if homogeneous:
        fs["c"], fs["r"] = Fun(np.zeros(n)), Fun(np.zeros(p))
    if rng.random() < 0.2:      # zero and identity coefficients
        for k, z in (("F", 0), ("L", 0), ("c", 0), ("H", 1), ("r", 0), ("U", 1), ("X", 0)):
            if rng.random() < 0.25:
                f = fs[k]
                f.M0 = np.zeros_like(f.M0) if not z else np.eye(*f.M0.shape)
                f.hold()
    if not invariant and rng.random() < 0.45:     # only some coefficients vary
        keep = rng.random(len(fs)) < rng.choice([0.2, 0.5, 0.8])
        for f, k in zip(fs.values(), keep):
            if not k:
                f.hold()
    if not invariant and T > 2.1 and rng.random() < 0.4:      # the same values at both ends
        for f in fs.values():
            if not f.constant:
                f.M2, f.w = np.zeros_like(f.M0), 2 * np.pi / T
    if pulses and not invariant and not homogeneous and rng.random() < 0.12:  # exactly zero at both ends, not between
        for k in ("c", "r") if rng.random() < 0.4 else ("c",):
            fs[k].M0 = 1.5 * rng.standard_normal(fs[k].M0.shape)
            fs[k].pulse(0.1 * T, 0.92 * T)
    a = rng.standard_normal((p, p))
    XT = a @ a.T / p * float(rng.choice([0.0, 0.3, 1.0, 1.0]))
    HT = rng.standard_normal((p, n)) * 0.8
    rT = np.zeros(p) if homogeneous else rng.standard_normal(p)
    x0 = rng.standard_normal(n) * (rng.random() > 0.06)
    if rng.random() < 0.25:
        XT, HT, rT, x0 = relayout(rng, (XT, HT, rT, x0))
        for f in fs.values():
            f.M0 = relayout(rng, f.M0)
    return Prob(n, m, p, T, fs, XT, HT, rT, x0)


def rate(P, t0=0.0):
    """Fastest rate of the problem on [t0, t0+T]: h below 1/rate resolves it."""
    G = P.ham(np.linspace(t0, t0 + P.T, 9))
    g = np.abs(np.linalg.eigvals(G)).max()
    nrm = max(np.linalg.norm(x, 2) for x in G)
    w = max(P.fs[k].w if P.fs[k].win is None else 7 / (P.fs[k].win[1] - P.fs[k].win[0]) for k in P.names)
    L, U = P.fs["L"](t0 + P.T), P.fs["U"](t0 + P.T)
    w = max(w, 0.5 * np.linalg.norm(L @ np.linalg.solve(U, L.T) @ P.ST(), 2))
    return max(g, 0.5 * nrm, w)


def steps_for(P, h=0.25, t0=0.0):
    """Steps so that rate * dt is about h (asymptotic regime)."""
    return int(np.clip(np.ceil(P.T * rate(P, t0) / h), 4, 60))


def order_ok(errs, p, floor, slack=4.0):
    """errs at N, 2N, 4N: the error falls like h^p (with slack), or is at the floor."""
    return errs[2] <= floor or errs[2] <= errs[0] * slack / 4.0 ** p


def tf_funs(P, dtype="float64"):
    """tf callables with the coefficients in variables, so that one trace serves
    many draws; returns (functions, assign)."""
    import tensorflow as tf
    V = {}
    for k in Prob.names:
        f = P.fs[k]
        V[k] = [tf.Variable(tf.cast(a, dtype)) for a in (f.M0, f.M1, f.M2, np.array(f.w), np.array(f.p), np.array(f.win or (0.0, 0.0)))]

    def mk(k):
        M0, M1, M2, w, p, win = V[k]

        def env(t):
            d = win[1] - win[0]
            z = tf.clip_by_value((t - win[0]) / tf.where(d > 0, d, tf.ones_like(d)), 0.0, 1.0)
            return tf.where(d > 0, (4 * z * (1 - z)) ** 6, tf.ones_like(z))
        return lambda t: (M0 + M1 * tf.sin(w * t + p) + M2 * t) * env(t)

    def assign(Q):
        for k in Prob.names:
            f = Q.fs[k]
            for v, a in zip(V[k], (f.M0, f.M1, f.M2, np.array(f.w), np.array(f.p), np.array(f.win or (0.0, 0.0)))):
                v.assign(tf.cast(a, dtype))
    return {k: mk(k) for k in Prob.names}, assign


class Units:
    """The same problem in other units: states s, controls u, outputs w, costs a,
    time tau (powers of two, so exact).  Every pass of a one-step method gives
    the same numbers in the new units, up to rounding."""

    def __init__(self, rng, span=16):
        e = lambda k: 2.0 ** int(rng.integers(-k, k + 1))
        self.a, self.s, self.u, self.w, self.tau = e(span), e(span // 2), e(span // 2), e(span // 2), e(span // 2)

    def problem(self, P):
        a, s, u, w, tau = self.a, self.s, self.u, self.w, self.tau
        f = dict(F=tau, L=tau * u / s, X=a * tau * w * w, U=a * tau * u * u, c=tau / s, H=s / w, r=1 / w)
        fs = {k: Fun(P.fs[k].M0 * f[k], P.fs[k].M1 * f[k], P.fs[k].M2 * f[k] * tau, P.fs[k].w * tau, P.fs[k].p,
                     P.fs[k].win and (P.fs[k].win[0] / tau, P.fs[k].win[1] / tau)) for k in P.names}
        return Prob(P.n, P.m, P.p, P.T / tau, fs, P.XT * (a * w * w), P.HT * (s / w), P.rT / w, P.x0 / s)

    def back(self, kind, z):
        """An array of the given kind in the original units."""
        a, s, u = self.a, self.s, self.u
        f = dict(K=u / s, d=u, S=1 / (a * s * s), v=1 / (a * s), x=s, u=u, A=1.0, b=s, C=a * s * s)
        return np.array(z) * f[kind]

    def note(self):
        return dict(units="2^" + ",".join("%d" % np.log2(k) for k in (self.a, self.s, self.u, self.w, self.tau)))


def same_in_units(ctx, rng, P, run, run2=None, rtol=1e-9, label="units"):
    """run(P) -> {monitor: (kind, array)} in both units (run2 for the second)."""
    un = Units(rng)
    ctx.note(**un.note())
    one, two = run(P), (run2 or run)(un.problem(P))
    for k in one:
        kind, w = one[k]
        w = np.array(w)
        ctx.close("%s: %s" % (label, k), un.back(kind, two[k][1]), w, rtol, 1e-12, scale=max(1e-3, np.abs(w).max()))
