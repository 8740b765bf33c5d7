"""C01: associative scan."""
import numpy as np
from parallel_control.my_assoc_scan import my_assoc_scan

from vf.oracles_fsc import share


def fold(op, items):
    acc = items[0]
    for v in items[1:]:
        acc = op(acc, v)
    return acc


def algebra(rng, name, n):
    if name == "string":
        return lambda a, b: a + b, ["<%d>" % i for i in range(n)], lambda a, b: a == b
    if name == "tuple":
        return lambda a, b: a + b, [tuple(rng.integers(0, 9, size=rng.integers(0, 3)).tolist()) for i in range(n)], lambda a, b: a == b
    if name == "left":
        return lambda a, b: a, list(range(n)), lambda a, b: a == b
    if name == "right":
        return lambda a, b: b, list(range(n)), lambda a, b: a == b
    if name == "matmod":
        d = int(rng.integers(1, 4))
        return (lambda a, b: (a @ b) % 9973), [rng.integers(0, 9973, size=(d, d)) for _ in range(n)], np.array_equal
    if name == "func":
        d = int(rng.integers(1, 7))
        return (lambda a, b: b[a]), [rng.integers(0, d, size=d) for _ in range(n)], np.array_equal
    if name == "affine":
        p = 10007
        return (lambda a, b: ((a[0] * b[0]) % p, (a[1] * b[0] + b[1]) % p)), \
            [(int(rng.integers(0, p)), int(rng.integers(0, p))) for _ in range(n)], lambda a, b: a == b
    if name == "minplus":
        d = int(rng.integers(1, 4))
        return (lambda a, b: (a[:, :, None] + b[None, :, :]).min(axis=1)), \
            [rng.integers(-50, 50, size=(d, d)) for _ in range(n)], np.array_equal
    if name == "falsy":      # zero / empty elements must not be mistaken for padding
        return (lambda a, b: a + b), [int(rng.integers(0, 2)) * int(rng.integers(0, 5)) for _ in range(n)], lambda a, b: a == b
    if name == "chain":      # rectangular matrices: only adjacent products exist
        d = rng.integers(1, 4, size=n + 1)
        return (lambda a, b: a @ b), [rng.integers(-3, 4, size=(int(d[i]), int(d[i + 1]))).astype(object) for i in range(n)], np.array_equal
    raise KeyError(name)


NAMES = ["string", "tuple", "left", "right", "matmod", "func", "affine", "minplus", "falsy", "chain"]


def lengths(ctx, rng, i):
    small = list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129]
    return small[i % len(small)] if i < 3 * len(small) else int(rng.integers(1, ctx.n(300, 2000)))


def group_algebra(ctx):
    def body(rng, i):
        name = NAMES[int(rng.integers(len(NAMES)))]
        n = lengths(ctx, rng, i)
        if name in ("tuple", "string", "chain"):
            n = min(n, 200)
        op, a, eq = algebra(rng, name, n)
        if name != "chain" and rng.uniform() < 0.3:     # one element object at several places
            a = share(rng, a)
            ctx.feature("repeated elements")
        keep = [v.copy() if isinstance(v, np.ndarray) else v for v in a]
        ids = [id(v) for v in a]
        for rev in (False, True):
            got = ctx.call("scan", my_assoc_scan, op, a, reverse=rev)
            ctx.true("len", len(got) == n, "length %d for %d elements" % (len(got), n), abort=True)
            acc, want = None, []
            if not rev:
                for v in a:
                    acc = v if acc is None else op(acc, v)
                    want.append(acc)
            else:
                for v in reversed(a):
                    acc = v if acc is None else op(v, acc)
                    want.append(acc)
                want.reverse()
            bad = [k for k in range(n) if got[k] is None or not eq(got[k], want[k])]
            ctx.true("prefix_rev" if rev else "prefix", not bad, "%s n=%d reverse=%s wrong at %s" % (name, n, rev, bad[:5]))
            ctx.true("input_list_untouched", len(a) == n and [id(v) for v in a] == ids, "caller's list changed")
            ctx.true("elements_untouched", all(eq(x, y) for x, y in zip(a, keep)), "caller's elements changed")
        got = ctx.call("scan_default", my_assoc_scan, op, a)
        ctx.true("default_is_forward", eq(got[-1], fold(op, a)), "default direction is not forward")
        ctx.note(algebra=name, n=n, nontrivial=n > 1)
    ctx.cases(600, 6000, body)


def group_intervals(ctx):
    """Online monitor inside the operator: only adjacent spans, in order."""
    def body(rng, i):
        n = (i % 70) + 1 if i < 210 else int(rng.integers(1, 1500 if i % 40 else 12000))
        for rev in (False, True):
            bad = []

            def op(a, b):
                ctx.calls["op"] = ctx.calls.get("op", 0) + 1
                if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[1] + 1 != b[0]:
                    bad.append((a, b))
                    return (a[0] if a else -1, b[1] if b else -1)
                return (a[0], b[1])
            a = [(k, k) for k in range(n)]
            got = ctx.call("scan", my_assoc_scan, op, a, reverse=rev)
            ctx.true("op_adjacent", not bad, "operator applied to %s" % bad[:3])
            want = [(k, n - 1) if rev else (0, k) for k in range(n)]
            ctx.true("spans", list(got) == want, "n=%d reverse=%s" % (n, rev))
        ctx.note(n=n, kind="interval", nontrivial=n > 1)
    ctx.cases(260, 1500, body)


def group_float(ctx):
    """Real-valued monoids used by the solvers, judged with a tolerance."""
    def body(rng, i):
        n = int(rng.integers(1, 40))
        d = int(rng.integers(1, 4))
        el = [(rng.normal(size=(d, d)) / np.sqrt(d), rng.normal(size=d)) for _ in range(n)]
        op = lambda a, b: (b[0] @ a[0], b[0] @ a[1] + b[1])
        keep = [(e[0].copy(), e[1].copy()) for e in el]
        for rev in (False, True):
            got = ctx.call("scan", my_assoc_scan, op, el, reverse=rev)
            for k in range(n):
                w = fold(op, el[k:] if rev else el[:k + 1])
                ctx.close("affine_A", got[k][0], w[0], rtol=1e-9, atol=1e-9)
                ctx.close("affine_b", got[k][1], w[1], rtol=1e-9, atol=1e-9)
        ctx.true("elements_untouched", all(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) for x, y in zip(el, keep)))
        ctx.note(n=n, d=d, digest=el[0][0], nontrivial=n > 1)
    ctx.cases(150, 1500, body)


GROUPS = dict(algebra=group_algebra, intervals=group_intervals, float=group_float)
