"""Monitoring core: cases, observations, verdicts.

A *group* is a Python function run in its own process.  It drives the code
under test through `Ctx.call` (every call is an observed event) and judges what
came back with `Ctx.close` / `Ctx.true` (the oracles).  Verdicts are
three-valued: a failed oracle or an exception escaping the code under test is a
violation with the case seed that replays it; an exception in the harness or too
few observations is inconclusive; otherwise the property held on what was seen.
"""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np


class CaseAbort(Exception):
    """Ends a case after a violation was recorded."""


class Skip(Exception):
    """Case outside the domain of the property (ill-conditioned draw, ...)."""


# errors raised while the harness consumes outputs that mean malformed outputs
_MALFORMED = ("ValueError", "IndexError", "KeyError", "LinAlgError", "InvalidArgumentError")
_RESOURCE = ("ResourceExhausted", "MemoryError", "No space left", "Cannot allocate memory")


def _h(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "little")


def to_np(x):
    """Anything numeric (tf, jax, lists, numpy) as a numpy array."""
    if isinstance(x, (list, tuple)):
        return np.asarray([to_np(v) for v in x])
    if hasattr(x, "numpy"):
        x = x.numpy()
    return np.asarray(x)


def brief(x, n=12):
    try:
        a = to_np(x)
        s = np.array2string(a.ravel()[:n], precision=6, threshold=n)
        return "shape=%s %s" % (a.shape, s)
    except Exception:
        return repr(x)[:200]


def relayout(rng, x, memo=None, prob=0.5, readonly=False):
    """The same values in another memory layout: Fortran order, a window into a
    larger array, reversed strides.  Objects that were shared stay shared."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][1]
    if type(x) in (list, tuple):
        out = type(x)(relayout(rng, v, memo, prob, readonly) for v in x)
    elif type(x) is dict:
        out = {k: relayout(rng, v, memo, prob, readonly) for k, v in x.items()}
    elif type(x) is np.ndarray and x.ndim and x.dtype != object and rng.uniform() < prob:
        how = int(rng.integers(5))
        if how == 0:
            out = np.array(x, order="F")
        elif how == 1:      # every second entry of the last axis of a larger array
            big = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 77, dtype=x.dtype)
            big[..., 1::2] = x
            out = big[..., 1::2]
        elif how == 2:      # reversed
            out = np.array(x[::-1])[::-1]
        elif how == 3:      # rows of a wider table
            big = np.full((x.shape[0] + 2,) + x.shape[1:-1] + (x.shape[-1] + 3,) * (x.ndim > 1), -55, dtype=x.dtype)
            win = (slice(1, -1),) + (slice(None),) * (x.ndim - 2) + (slice(2, -1),) * (x.ndim > 1)
            big[win] = x
            out = big[win]
        else:               # transpose of a contiguous array
            out = np.array(x.T, order="C").T
        if readonly and rng.uniform() < 0.3:
            out.flags.writeable = False
    else:
        out = x
    memo[id(x)] = (x, out)
    return out


def step_labels(rng, T):
    """Which of T steps have the same data: all, none, all but one or two, the
    ends, two alternating or randomly recurring kinds, a period, pieces."""
    how = str(rng.choice(["all", "none", "mostly", "ends", "two", "period", "pieces", "recurring"]))
    lab = list(range(T))
    if how == "all":
        lab = [0] * T
    elif how == "mostly":
        lab = [0] * T
        for j in rng.integers(0, T, size=int(rng.integers(1, 3))):
            lab[int(j)] = 1 + int(j)
    elif how == "ends":
        lab[-1] = lab[0]
    elif how == "two":
        lab = [int(v) for v in rng.integers(0, 2, size=T)]
    elif how == "period":
        q = int(rng.integers(2, 4))
        lab = [k % q for k in range(T)]
    elif how == "pieces":
        for k in range(1, T):
            lab[k] = lab[k - 1] if rng.uniform() < 0.6 else k
    elif how == "recurring":
        lab = [int(v) for v in rng.integers(0, max(2, T // 2), size=T)]
    return lab


def big_dims(rng, i, *dims, lo=7, hi=21, every=17):
    """Now and then much larger dimensions than the usual ones."""
    if i % every == every - 1:
        dims = tuple(int(rng.integers(lo, hi)) for _ in dims)
    return dims if len(dims) > 1 else dims[0]


class Ctx:
    def __init__(self, prop, group, tier, seed, budget, only=None, max_viol=3):
        self.prop, self.group, self.tier, self.seed = prop, group, tier, int(seed)
        self.budget, self.only, self.max_viol = budget, only, max_viol
        self.t0 = time.time()
        self.violations, self.errors, self.skips = [], [], 0
        self.evals = 0
        self.sigs, self.samples = set(), []
        self.calls, self.oracles, self.feat = {}, {}, {}
        self.maxdev = {}
        self.idx = None
        self.desc = {}
        self.case_nontrivial, self.case_calls = False, 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- cases -----------------------------------------------------------
    def cases(self, quick, thorough, body, tag=""):
        """Run `body(rng, i)` for a fixed number of cases (a time budget only
        cuts the tail short)."""
        total = self.n(quick, thorough)
        for i in range(total):
            cid = "%s%d" % (tag, i)
            if self.only is not None and cid != self.only:
                continue
            if self.only is None and time.time() - self.t0 > self.budget:
                self.feat["budget_cut"] = self.feat.get("budget_cut", 0) + 1
                break
            if len(self.violations) >= self.max_viol:
                break
            rng = np.random.default_rng(_h(self.seed, self.prop, self.group, cid))
            self.idx, self.desc, self.case_nontrivial, self.case_calls = cid, {}, False, 0
            nv = len(self.violations)
            try:
                body(rng, i)
            except CaseAbort:
                pass
            except Skip:
                self.skips += 1
                continue
            except Exception as e:
                self.evals += 1
                if self.case_calls and any(c.__name__ in _MALFORMED for c in type(e).__mro__) and not any(r in str(e) for r in _RESOURCE):
                    # what the code returned could not be consumed as specified
                    # (missing entries, incompatible shapes, singular matrices)
                    self.violate("consume", "output could not be consumed: %s: %s" % (type(e).__name__, str(e)[:300]),
                                 tb=traceback.format_exc()[-2500:])
                    continue
                # anything else is a harness error: never a verdict
                self.evals -= 1
                self.errors.append("%s case %s: %s\n%s" % (self.group, cid, e, traceback.format_exc()[-3000:]))
                if len(self.errors) > 3:
                    break
                continue
            self.evals += 1
            if self.case_nontrivial and len(self.violations) == nv:
                self.sigs.add(json.dumps(self.desc, sort_keys=True, default=str))
                if len(self.samples) < 2:
                    self.samples.append(dict(group=self.group, case=cid, **self.desc))

    def note(self, nontrivial=True, digest=None, **desc):
        """Describe the case; `digest` arrays make distinct draws distinct."""
        self.desc.update({k: (v if isinstance(v, (int, float, str, bool, list, type(None))) else str(v))
                          for k, v in desc.items()})
        if digest is not None:
            h = hashlib.sha256()
            for a in (digest if isinstance(digest, (list, tuple)) else [digest]):
                h.update(np.ascontiguousarray(to_np(a)).tobytes())
            self.desc["digest"] = h.hexdigest()[:12]
        self.case_nontrivial = self.case_nontrivial or bool(nontrivial)

    def feature(self, name, k=1):
        self.feat[name] = self.feat.get(name, 0) + k

    # ---- events ----------------------------------------------------------
    def call(self, label, fn, *a, **kw):
        self.calls[label] = self.calls.get(label, 0) + 1
        self.case_calls += 1
        try:
            return fn(*a, **kw)
        except Exception as e:
            s = "%s: %s" % (type(e).__name__, e)
            if any(r in s for r in _RESOURCE):
                raise
            self.violate(label, "raised on a valid input: " + s[:600], tb=traceback.format_exc()[-2500:])
            raise CaseAbort()

    def call_raises(self, label, exc, fn, *a, **kw):
        """The code must refuse with `exc`."""
        self.calls[label] = self.calls.get(label, 0) + 1
        self.case_calls += 1
        self.oracles[label] = self.oracles.get(label, 0) + 1
        try:
            r = fn(*a, **kw)
        except exc:
            return True
        except Exception as e:
            s = "%s: %s" % (type(e).__name__, e)
            if any(r in s for r in _RESOURCE):
                raise
            self.violate(label, "refused with the wrong error %s" % s[:300])
            return False
        self.violate(label, "accepted inconsistent input, returned %r" % (type(r),))
        return False

    # ---- oracles ---------------------------------------------------------
    def violate(self, label, msg, **extra):
        self.violations.append(dict(property=self.prop, group=self.group, case=self.idx, seed=self.seed,
                                    tier=self.tier, monitor=label, message=msg,
                                    desc=dict(self.desc), extra={k: str(v)[:3000] for k, v in extra.items()}))

    def true(self, label, cond, msg="", abort=False, **extra):
        self.oracles[label] = self.oracles.get(label, 0) + 1
        if not bool(cond):
            self.violate(label, msg or "condition is false", **extra)
            if abort:
                raise CaseAbort()
            return False
        return True

    def close(self, label, got, want, rtol=1e-6, atol=1e-9, scale=None, abort=False):
        """Max abs deviation <= atol + rtol * scale (scale: max |want| unless given)."""
        self.oracles[label] = self.oracles.get(label, 0) + 1
        try:
            g, w = to_np(got), to_np(want)
            ok_shape = g.shape == w.shape
        except Exception as e:
            self.violate(label, "output not comparable: %s" % e)
            if abort:
                raise CaseAbort()
            return False
        if not ok_shape:
            self.violate(label, "shape %s, expected %s" % (g.shape, w.shape))
            if abort:
                raise CaseAbort()
            return False
        if g.size == 0:
            return True
        g = g.astype(float)
        w = w.astype(float)
        sc = float(np.max(np.abs(w))) if scale is None else float(scale)
        dev = np.abs(g - w)
        m = float(np.max(dev)) if np.all(np.isfinite(dev)) else float("inf")
        if not np.all(np.isfinite(dev)) and np.array_equal(np.isfinite(g), np.isfinite(w)):
            # same infinities in the same places are equal
            fin = np.isfinite(w)
            if np.array_equal(g[~fin], w[~fin]):
                m = float(np.max(dev[fin])) if fin.any() else 0.0
        tol = atol + rtol * sc
        key = label
        r = m / tol if tol > 0 else (0.0 if m == 0 else float("inf"))
        if np.isfinite(r):
            self.maxdev[key] = max(self.maxdev.get(key, 0.0), r)
        if not m <= tol:
            self.violate(label, "deviation %.3g > tolerance %.3g (scale %.3g)" % (m, tol, sc),
                         got=brief(g), want=brief(w))
            if abort:
                raise CaseAbort()
            return False
        return True

    def result(self):
        return dict(group=self.group, evals=self.evals, skips=self.skips, violations=self.violations,
                    errors=self.errors, distinct=sorted(self.sigs), samples=self.samples,
                    calls=self.calls, oracles=self.oracles, features=self.feat,
                    max_dev_over_tol={k: float("%.3g" % v) for k, v in self.maxdev.items()},
                    wall_s=time.time() - self.t0)
