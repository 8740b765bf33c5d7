"""C22: experiment scripts run what their options say and record it faithfully.

Each case runs a real script (runpy, as __main__) in a scratch directory with
random options.  Monitors at the public functions of the benchmark modules log
every call (bound arguments, order, what was returned); the oracle compares that
log, the options, the exit status and every file the script wrote.  In the
`stub` groups the monitors return made-up results at once; in the `real` group
they pass through to the real benchmarks."""
import ast
import contextlib
import glob
import inspect
import io
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

from vf.core import Skip, CaseAbort

ROOT = os.environ.get("VF_REPO", "/repo")

# mask bits as documented beside the scripts
LINEAR = ["sequential_bw", "parallel_bw", "sequential_bwfw", "parallel_bwfw_1", "parallel_bwfw_2",
          "sequential_cond_bwfw", "parallel_cond_bwfw_1", "parallel_cond_bwfw_2"]
FINITE = ["seq_bw", "par_bw", "seq_bwfw", "par_bwfw_1", "par_bwfw_2"]
NONLIN = ["seq", "par_1", "par_2"]
CONTLIN = ["seq_bw", "seq_bw_fw", "par_bw", "par_bw_fw", "par_bw_fwbw", "parareal_bw", "parareal_bw_fw", "parareal_bw_fwbw"]
HJB = ["seq_upwind", "seq_assoc", "par_assoc"]
VIT = ["seq_fwbw", "par_fwbw", "seqpar_fwbw", "par_fwbwfw"]
TEXT = ["seq_fwbw", "seqpar_fwbw", "par_fwbw", "par_fwbwfw"]


class Monitor:
    """Replaces module functions by recorders for the time of one run."""

    def __init__(self):
        self.log, self.saved = [], []

    def patch(self, mod, name, reply):
        orig = getattr(mod, name)
        sig = inspect.signature(orig)

        def rec(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            ev = dict(name=name, args=dict(b.arguments), t0=time.time())
            self.log.append(ev)
            ev["result"] = reply(ev, lambda: orig(*a, **k))
            ev["t1"] = time.time()
            return ev["result"]
        self.saved.append((mod, name, orig))
        setattr(mod, name, rec)

    def restore(self):
        for mod, name, orig in reversed(self.saved):
            setattr(mod, name, orig)

    def of(self, *names):
        return [e for e in self.log if e["name"] in names]


def launch(script, argv, cwd):
    """(exit code, printed text); exceptions escape."""
    old, oargv, env = os.getcwd(), sys.argv, os.environ.get("TF_CPP_MIN_LOG_LEVEL")
    out, code = io.StringIO(), 0
    os.chdir(cwd)
    sys.argv = [script] + argv
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    finally:
        os.chdir(old)
        sys.argv = oargv
        if env is None:
            os.environ.pop("TF_CPP_MIN_LOG_LEVEL", None)
        else:
            os.environ["TF_CPP_MIN_LOG_LEVEL"] = env
    return code, out.getvalue()


@contextlib.contextmanager
def place(text1=None, text2=None):
    d = tempfile.mkdtemp(prefix="vf_scripts_")
    try:
        os.makedirs(d + "/run/res")
        os.makedirs(d + "/notebooks")
        for n, t in (("text1", text1), ("text2", text2)):
            if t is not None:
                with open("%s/notebooks/%s.txt" % (d, n), "w") as f:
                    f.write(t)
        yield d + "/run"
    finally:
        shutil.rmtree(d)


def tree(cwd):
    out = {}
    for base, _, files in os.walk(os.path.dirname(cwd)):
        for f in files:
            if not base.endswith("notebooks"):
                p = os.path.join(base, f)
                with open(p) as h:
                    out[os.path.relpath(p, cwd)] = h.read()
    return out


def rows(text):
    return [[float(v) for v in l.split()] for l in text.splitlines() if l.strip()]


def suffix(o):
    return "".join(c for c in o["device"] if c.isalpha()).lower() + ("_sc" if o["single"] else "_mc")


def same_rows(ctx, what, got, want):
    ok = len(got) == len(want) and all(len(g) == len(w) for g, w in zip(got, want)) and \
        all(abs(a - b) <= 1e-6 * (1 + 1e-3 * abs(b)) or (np.isnan(a) and np.isnan(b)) for g, w in zip(got, want) for a, b in zip(g, w))
    return ctx.true("recorded rows", ok, "%s records %s, measured %s" % (what, got[:4], want[:4]))


def draw(rng, base, sizes=True):
    """Random options in random order, some left at their defaults."""
    o, argv = dict(base), []
    if sizes:
        o["start"] = float(rng.choice([0.3, 1, 1.5, 2, 2.25]))
        o["stop"] = o["start"] + float(rng.choice([0, 0.5, 1, 2.5]))
        o["num"] = int(rng.integers(1, 7))
    o["single"] = int(rng.integers(2))
    o["device"] = str(rng.choice(["/CPU:0", "/GPU:0", "/CPU:1", "/device:CPU:0"]))
    o["mask"] = int(rng.choice([65535, 0, 1, 2, 4, 8, 16, 32, 64, 128, int(rng.integers(256)), int(rng.integers(256))]))
    for k in ("n", "nc", "nx", "niter", "steps"):
        if k in o:
            o[k] = int(rng.integers(1, 40))
    keys = [k for k in o]
    used = [keys[i] for i in rng.permutation(len(keys)) if rng.uniform() < 0.75]
    for k in keys:
        if k not in used:
            o[k] = base[k]
    fmt = lambda v: repr(int(v)) if isinstance(v, float) and v == int(v) and rng.uniform() < 0.5 else str(v)
    argv = ["%s=%s" % (k, fmt(o[k])) for k in used]
    return o, argv


def spoil(rng, argv):
    """The same command line with one option that is not understood."""
    bad = str(rng.choice(["unknown=1", "masks=3", "7", "start=1=2", "--help", "Device=/CPU:0"]))
    a = list(argv)
    a.insert(int(rng.integers(len(a) + 1)), bad)
    return a


def sizes_of(o):
    return [int(v) for v in np.logspace(o["start"], o["stop"], num=o["num"], base=10).astype(int)]


def close_sizes(a, b):
    # rounding of a power of ten just below or above an integer
    return len(a) == len(b) and all(abs(int(x) - int(y)) <= 1 for x, y in zip(a, b))


def threads(mon, tf):
    for nm in ("set_intra_op_parallelism_threads", "set_inter_op_parallelism_threads"):
        mon.patch(tf.config.threading, nm, lambda ev, call: None)


def judge_threads(ctx, mon, o):
    sets = mon.of("set_intra_op_parallelism_threads", "set_inter_op_parallelism_threads")
    if o["single"]:
        ok = {e["name"] for e in sets} == {"set_intra_op_parallelism_threads", "set_inter_op_parallelism_threads"} and \
            all(list(e["args"].values()) == [1] for e in sets)
        ctx.true("single thread", ok, "single=1 without limiting both thread pools to one: %s" % [(e["name"], e["args"]) for e in sets])
        names = [e["name"] for e in mon.log]
        last = max((i for i, n in enumerate(names) if n.startswith("set_int")), default=-1)
        first = min((i for i, n in enumerate(names) if not n.startswith("set_int")), default=len(names))
        ctx.true("single thread", last < first, "thread pools limited after work had started")
    else:
        ctx.true("single thread", not sets, "single=0 limits the thread pools")


def refused(ctx, mon, cwd, code, text, before):
    ctx.feature("refusals")
    ctx.true("usage", code == 1, "exit status %r on an option that is not understood" % (code,))
    ctx.true("usage", "Usage" in text, "no usage text")
    work = [e["name"] for e in mon.log]
    ctx.true("usage", not work, "worked in spite of an option that is not understood: %s" % work[:5])
    ctx.true("usage", tree(cwd) == before, "wrote files in spite of an option that is not understood")


def run_script(ctx, script, argv, cwd):
    try:
        return ctx.call("script", launch, script, argv, cwd)
    except CaseAbort:
        raise


# ---- scripts that hand a generator of problems to a benchmark ------------------

def bellman(which):
    import tensorflow as tf
    if which == "linear":
        from parallel_control import linear_speedtest as mod
        base = dict(model="tracking", start=2, stop=5, num=20, n=4, nc=4, single=0, device="/CPU:0", mask=65535)
        bench = ["lqt_%s_speedtest" % b for b in LINEAR]
        gens = ["tracking_generator", "mass_generator"]

        def file(o, j):
            b = LINEAR[j].replace("cond_", "cond%d_" % o["nc"])
            return "res/%s_%d_%s_%s.txt" % (o["model"], o["n"], b, suffix(o))
    elif which == "finite":
        from parallel_control import finite_speedtest as mod
        base = dict(start=2, stop=5, num=20, nx=21, single=0, device="/CPU:0", mask=31)
        bench = ["fsc_%s_speedtest" % b for b in FINITE]
        gens = ["finite_generator"]
        file = lambda o, j: "res/finite_%s_%d_%s.txt" % (FINITE[j], o["nx"], suffix(o))
    else:
        from parallel_control import nonlinear_speedtest as mod
        base = dict(start=2, stop=5, num=20, single=0, device="/CPU:0", mask=7)
        bench = ["nlqt_iter_%s_speedtest" % b for b in NONLIN]
        gens = ["nonlinear_generator"]
        file = lambda o, j: "res/nonlinear_%s_%s.txt" % (NONLIN[j], suffix(o))
    return tf, mod, base, bench, gens, file, "%s/experiments-bellman/run_%s_experiments.py" % (ROOT, which)


def g_bellman(ctx):
    defs = {w: bellman(w) for w in ("linear", "finite", "nonlinear")}

    def body(rng, i):
        which = ["linear", "finite", "nonlinear", "linear"][i % 4]
        tf, mod, base, bench, gens, file, script = defs[which]
        o, argv = draw(rng, base)
        if which == "linear" and rng.uniform() < 0.6:
            o["model"] = str(rng.choice(["mass", "mass", "tracking"]))
            argv = [a for a in argv if not a.startswith("model=")] + ["model=" + o["model"]]
        bad = i % 5 == 4
        if bad:
            argv = spoil(rng, argv)
        mon = Monitor()
        real = getattr(tf.config.threading, "set_intra_op_parallelism_threads")
        def bench_reply(ev, call):
            k = int(rng.integers(1, 6))
            ev["dim"] = k
            return ([int(v) for v in rng.integers(1, 10 ** 6, size=k)], [int(v) for v in rng.integers(1, 300, size=k)],
                    [float(v) for v in 10.0 ** rng.uniform(-4, 2, size=k)])
        with place() as cwd:
            try:
                for g in gens:
                    mon.patch(mod, g, lambda ev, call: ("problems", ev))
                for b in bench:
                    mon.patch(mod, b, bench_reply)
                threads(mon, tf)
                before = tree(cwd)
                code, text = run_script(ctx, script, argv, cwd)
            finally:
                mon.restore()
            after = tree(cwd)
            ctx.note(script=which, argv=" ".join(argv), digest=[np.frombuffer(" ".join(argv).encode(), dtype=np.uint8)])
            if bad:
                return refused(ctx, mon, cwd, code, text, before)
            ctx.true("exit status", code == 0, "exit status %r" % (code,))
            judge_threads(ctx, mon, o)
            want = [j for j in range(len(bench)) if o["mask"] >> j & 1]
            ran = mon.of(*bench)
            ctx.true("selected benchmarks", sorted(e["name"] for e in ran) == sorted(bench[j] for j in want),
                     "mask %d ran %s" % (o["mask"], [e["name"] for e in ran]), abort=True)
            ctx.true("files", sorted(after) == sorted(file(o, j) for j in want), "wrote %s" % sorted(after), abort=True)
            gen_name = "mass_generator" if o.get("model") == "mass" else gens[0]
            fed = []
            for j in want:
                ev = next(e for e in ran if e["name"] == bench[j])
                same_rows(ctx, file(o, j), rows(after[file(o, j)]), [list(map(float, r)) for r in zip(*ev["result"])])
                a = ev["args"]
                ctx.true("options used", a.get("device") == o["device"], "device %r" % (a.get("device"),))
                if "cond" in bench[j]:
                    ctx.true("options used", a.get("Nc") == o["nc"], "block length %r, asked for %d" % (a.get("Nc"), o["nc"]))
                toks = [v for v in a.values() if isinstance(v, tuple) and len(v) == 2 and v[0] == "problems"]
                if ctx.true("problems used", len(toks) == 1, "%s was not given generated problems" % bench[j]):
                    g = toks[0][1]
                    fed.append(id(g))
                    ga = g["args"]
                    ctx.true("problems used", g["name"] == gen_name, "problems from %s" % g["name"])
                    ctx.true("options used", all(ga[k] == o[k] for k in ("start", "stop", "num")), "sizes %s" % ga)
                    if gen_name == "mass_generator":
                        ctx.true("options used", ga["N"] == o["n"], "%s masses" % ga["N"])
                    if which == "finite":
                        ctx.true("options used", ga["nx"] == o["nx"], "%s states" % ga["nx"])
                    ctx.true("options used", ga["dtype"] == (tf.float32 if which == "finite" else tf.float64), "dtype %s" % ga["dtype"])
            ctx.true("problems used", len(set(fed)) == len(fed), "a used-up generator was handed to a second benchmark")
            ctx.feature("benchmarks", len(ran))
    ctx.cases(240, 4000, body)


# ---- scripts that loop over sizes themselves -------------------------------------

def looped(which):
    import tensorflow as tf
    if which == "contlin":
        from parallel_control import contlin_speedtest as mod
        base = dict(model="tracking", start=2, stop=3, num=5, steps=10, n=4, niter=2, single=0, device="/CPU:0", mask=65535)
        bench = ["clqt_%s_speedtest" % b for b in CONTLIN]
        file = lambda o, j: "res/%s_%d_%s_%s" % (o["model"], o["n"], CONTLIN[j].replace("parareal_", "parareal_%d_" % o["niter"]), suffix(o))
        return tf, mod, base, bench, ["clqr_get_tracking_model"], file, ROOT + "/experiments-hjb/run_contlin_experiments.py"
    if which == "nonlin":
        from parallel_control import hjb_grid_1d_speedtest as mod
        base = dict(model="velocity", start=2, stop=3, num=5, steps=10, n=20, single=0, device="/CPU:0", mask=65535)
        file = lambda o, j: "res/%s_%d_%s_%s" % (o["model"], o["n"], HJB[j], suffix(o))
        return tf, mod, base, [b + "_speedtest" for b in HJB], ["get_model"], file, ROOT + "/experiments-hjb/run_nonlin_experiments.py"
    from parallel_control import viterbi_tf as mod
    base = dict(model="ge", start=2, stop=3, num=5, single=0, device="/CPU:0", mask=65535)
    file = lambda o, j: "res/%s_viterbi_%s_%s" % (o["model"], VIT[j], suffix(o))
    return tf, mod, base, ["viterbi_%s_speedtest" % b for b in VIT], [], file, ROOT + "/experiments-viterbi/run_viterbi_experiments.py"


def check_looped(ctx, rng, which, d, o, argv, bad, passthrough):
    tf, mod, base, bench, models, file, script = d
    mon = Monitor()

    def reply(ev, call):
        if passthrough:
            return call()
        t, e1, e2 = float(10.0 ** rng.uniform(-4, 2)), float(rng.normal() * 10.0 ** rng.integers(-5, 3)), float(abs(rng.normal()))
        return (t, e1, e2) if which == "nonlin" else (t, e1)

    def model_reply(ev, call):
        return call() if passthrough else ("model", len(mon.log))
    with place() as cwd:
        try:
            for g in models:
                mon.patch(mod, g, model_reply)
            for b in bench:
                mon.patch(mod, b, reply)
            threads(mon, tf)
            before = tree(cwd)
            t0 = time.time()
            code, text = run_script(ctx, script, argv, cwd)
            wall = time.time() - t0
        finally:
            mon.restore()
        after = tree(cwd)
    ctx.note(script=which, argv=" ".join(argv), digest=[np.frombuffer(" ".join(argv).encode(), dtype=np.uint8)])
    if bad:
        ctx.feature("refusals")
        ctx.true("usage", code == 1 and "Usage" in text, "exit status %r on an option that is not understood" % (code,))
        ctx.true("usage", not mon.log and not after, "worked in spite of an option that is not understood")
        return
    ctx.true("exit status", code == 0, "exit status %r" % (code,))
    judge_threads(ctx, mon, o)
    want = [j for j in range(len(bench)) if o["mask"] >> j & 1]
    ran = mon.of(*bench)
    ctx.true("selected benchmarks", sorted({e["name"] for e in ran}) == sorted(bench[j] for j in want),
             "mask %d ran %s" % (o["mask"], sorted({e["name"] for e in ran})), abort=True)
    names = [file(o, j) + e for j in want for e in (".txt", "_config.txt")]
    ctx.true("files", sorted(after) == sorted(names), "wrote %s" % sorted(after), abort=True)
    made = [e["result"] for e in mon.of(*models)] if models else None
    if which == "nonlin":
        g = mon.of("get_model")
        ctx.true("options used", all(list(e["args"].values()) == [o["n"], o["n"]] for e in g), "grid sizes %s" % [e["args"] for e in g])
    S = sizes_of(o)
    for j in want:
        evs = [e for e in ran if e["name"] == bench[j]]
        size_key = "steps" if which == "viterbi" else "blocks"
        got = [e["args"][size_key] for e in evs]
        ctx.true("sizes", close_sizes(got, S), "%s ran sizes %s, asked for %s" % (bench[j], got, S))
        ctx.true("sizes", all(type(v) is int for v in got), "sizes are %s" % set(map(type, got)))
        for e in evs:
            a = e["args"]
            ctx.true("options used", a.get("device") == o["device"], "device %r" % (a.get("device"),))
            if which != "viterbi":
                ctx.true("options used", a.get("steps") == o["steps"], "%r steps, asked for %d" % (a.get("steps"), o["steps"]))
                ctx.true("problems used", any(a.get("model") is m for m in made), "%s was not given the model" % bench[j])
            if "parareal" in bench[j]:
                ctx.true("options used", a.get("parareal_niter") == o["niter"], "%r parareal iterations, asked for %d" % (a.get("parareal_niter"), o["niter"]))
        dim = dict(contlin=[4.0], nonlin=[float(o.get("n", 0))], viterbi=[])[which]
        same_rows(ctx, file(o, j), rows(after[file(o, j) + ".txt"]),
                  [[float(s)] + dim + [float(v) for v in e["result"]] for s, e in zip(got, evs)])
        try:
            cfg = ast.literal_eval(after[file(o, j) + "_config.txt"])
        except Exception as e:
            cfg = repr(e)
        ctx.true("recorded options", isinstance(cfg, dict) and all(cfg.get(k) == v for k, v in o.items()),
                 "options %s recorded as %s" % (o, cfg))
    ctx.feature("benchmarks", len(ran))


def g_loops(ctx):
    defs = {w: looped(w) for w in ("contlin", "nonlin", "viterbi")}

    def body(rng, i):
        which = ["contlin", "nonlin", "viterbi"][i % 3]
        o, argv = draw(rng, defs[which][2])
        if which == "nonlin" and rng.uniform() < 0.3:
            o["model"] = "other"
            argv = [a for a in argv if not a.startswith("model=")] + ["model=other"]
        bad = i % 5 == 4
        check_looped(ctx, rng, which, defs[which], o, spoil(rng, argv) if bad else argv, bad, False)
    ctx.cases(180, 3000, body)


# ---- text correction -------------------------------------------------------------

def rand_text(rng, n, chars):
    return "".join(chars[int(k)] for k in rng.integers(0, len(chars), size=n))


def g_text(ctx):
    import tensorflow as tf
    from parallel_control import text_model as tm, viterbi_tf
    fns = ["viterbi_" + t for t in TEXT]
    chars = " abcdefghijklmnopqrstuvwxyz"

    def body(rng, i):
        second = i % 2 == 1
        base = dict(order=1, single=0, device="/CPU:0", mask=65535)
        if second:
            base["steps"] = -1
        o, argv = draw(rng, base, sizes=False)
        text1 = rand_text(rng, int(rng.integers(30, 200)), chars)
        n2 = int(rng.integers(8, 40))
        text2 = rand_text(rng, n2, chars)
        put = lambda k, v: (o.__setitem__(k, v), [a for a in argv if not a.startswith(k + "=")] + ["%s=%s" % (k, v)])[1]
        argv = put("order", int(rng.choice([1, 1, 2])))
        argv = put("device", "/CPU:0")
        if second:
            argv = put("steps", int(rng.choice([-1, 2, 5, n2 - 1, n2, n2 + 5])))
        steps = o["steps"] if second and 0 <= o["steps"] <= n2 else n2
        eff = text2[:steps]
        bad = i % 7 == 6
        if bad:
            argv = spoil(rng, argv)
        mon = Monitor()
        pause = 0.002
        decoded = {}

        def reply(ev, call):
            time.sleep(pause)
            # as many indices as a decoder returns, the same for every run of one decoder
            if ev["name"] not in decoded:
                ys = np.asarray(list(ev["args"].values())[3])
                good = np.array([chars.index(c) for c in eff])
                z = np.where(rng.uniform(size=len(ys)) < 0.4, rng.integers(0, 27, size=len(ys)), good[:len(ys)] if len(good) == len(ys) else 0)
                if o["order"] == 2:
                    z = z + 27 * rng.integers(0, 27, size=len(ys))
                decoded[ev["name"]] = np.concatenate([[0], z])
            return tf.constant(decoded[ev["name"]], dtype=tf.int32), tf.zeros((1, 1), dtype=tf.float64)
        with place(text1, text2) as cwd:
            try:
                for f in fns:
                    mon.patch(viterbi_tf, f, reply)
                mon.patch(tm.TextModel, "makeNoisyText", lambda ev, call: call())
                threads(mon, tf)
                before = tree(cwd)
                code, text = run_script(ctx, "%s/experiments-viterbi/run_text_experiments%s.py" % (ROOT, "_2" if second else ""), argv, cwd)
            finally:
                mon.restore()
            after = tree(cwd)
            ctx.note(script="text_2" if second else "text", argv=" ".join(argv), steps=steps,
                     digest=[np.frombuffer((" ".join(argv) + text1 + text2).encode(), dtype=np.uint8)])
            if bad:
                return refused(ctx, mon, cwd, code, text, before)
        ctx.true("exit status", code == 0, "exit status %r" % (code,))
        judge_threads(ctx, mon, o)
        want = [j for j in range(len(fns)) if o["mask"] >> j & 1]
        ran = mon.of(*fns)
        ctx.true("selected benchmarks", sorted({e["name"] for e in ran}) == sorted(fns[j] for j in want),
                 "mask %d ran %s" % (o["mask"], sorted({e["name"] for e in ran})), abort=True)
        stem = "res/text_steps_%d_%d_%s" % (o["order"], steps, suffix(o)) if second else "res/text_%d_%s" % (o["order"], suffix(o))
        ctx.true("files", stem + ".txt" in after, "wrote %s" % sorted(after), abort=True)
        got = rows(after[stem + ".txt"])
        ctx.true("recorded rows", sorted(int(r[0]) for r in got) == [j + 1 for j in want], "rows for %s" % [r[0] for r in got], abort=True)
        m = tm.TextModel(errp=0.1, order=o["order"])
        ref = (m.getNthOrderPrior(text1), m.getNthOrderPi(text1), m.getNthOrderPo())
        noise = mon.of("makeNoisyText")
        ctx.true("problems used", len(noise) == 1 and noise[0]["args"]["test_text"] == eff, "noise added to another text", abort=True)
        noisy = m.textToIndex(noise[0]["result"])
        for r in got:
            nm = fns[int(r[0]) - 1]
            evs = [e for e in ran if e["name"] == nm]
            for e in evs[:1]:
                a = [np.asarray(v) for v in e["args"].values()]
                ctx.true("problems used", all(x.shape == np.shape(y) and np.allclose(x, y) for x, y in zip(a[:3], ref)), "not the trained model")
                ctx.true("problems used", len(a[3]) == steps and np.array_equal(a[3], noisy), "not the noisy text")
            z = decoded[nm][1:]
            err = np.mean([chars[int(k) % 27] != c for k, c in zip(z, eff)])
            ctx.true("recorded rows", int(r[1]) == o["order"] and (not second or int(r[2]) == steps), "row %s" % r)
            ctx.true("recorded rows", abs(r[-1] - err) <= 1e-6, "%s: error %g recorded, %g true" % (nm, r[-1], err))
            span = evs[-1]["t1"] - evs[0]["t0"]
            ctx.true("recorded rows", pause * 0.9 <= r[-2] <= max(span / 2, pause), "time per run %g, all %d runs took %g" % (r[-2], len(evs), span))
        cfg = [v for k, v in after.items() if k.endswith("_config.txt")]
        if ctx.true("files", len(cfg) == 1, "wrote %s" % sorted(after)):
            try:
                c = ast.literal_eval(cfg[0])
            except Exception as e:
                c = repr(e)
            ctx.true("recorded options", isinstance(c, dict) and all(c.get(k) == v for k, v in o.items() if k != "steps"), "options %s recorded as %s" % (o, c))
        ctx.feature("benchmarks", len(want))
    ctx.cases(24, 300, body)


def g_real(ctx):
    """The scripts on the real benchmarks at small sizes."""
    def body(rng, i):
        which = ["viterbi", "nonlin", "contlin"][i % 3]
        d = looped(which)
        # the continuous-time tracker needs a grid on which its integrator is stable
        lo, hi = (1.7, 2) if which == "contlin" else (0.7, 1)
        o = dict(d[2], start=lo, stop=hi, num=2)
        argv = ["start=%g" % lo, "stop=%g" % hi, "num=2"]
        if which != "viterbi":
            o["steps"] = int(rng.integers(8, 12)) if which == "contlin" else int(rng.integers(2, 4))
            o["n"] = 4 if which == "contlin" else int(rng.integers(5, 9))
            argv += ["steps=%d" % o["steps"], "n=%d" % o["n"]]
        if which == "contlin":
            o["mask"] = int(rng.choice([1, 4]))
            argv.append("mask=%d" % o["mask"])
        elif which == "nonlin":
            o["mask"] = 1
            argv.append("mask=1")
        check_looped(ctx, rng, which, d, o, argv, False, True)
    ctx.cases(3, 18, body)


def g_realb(ctx):
    """Bellman scripts on the real benchmarks: files against what was measured."""
    defs = {w: bellman(w) for w in ("linear", "finite", "nonlinear")}

    def body(rng, i):
        which = ["finite", "linear", "nonlinear"][i % 3]
        tf, mod, base, bench, gens, file, script = defs[which]
        o = dict(base, start=1.4, stop=1.7, num=2, mask=int(rng.choice([1, 2, 4])))
        argv = ["start=1.4", "stop=1.7", "num=2", "mask=%d" % o["mask"]]
        if which == "finite":
            o["nx"] = int(rng.integers(4, 8))
            argv.append("nx=%d" % o["nx"])
        mon = Monitor()
        with place() as cwd:
            try:
                for b in bench:
                    mon.patch(mod, b, lambda ev, call: call())
                t0 = time.time()
                code, text = run_script(ctx, script, argv, cwd)
                wall = time.time() - t0
            finally:
                mon.restore()
            after = tree(cwd)
        ctx.note(script=which, argv=" ".join(argv))
        ctx.true("exit status", code == 0, "exit status %r" % (code,))
        j = [j for j in range(len(bench)) if o["mask"] >> j & 1][0]
        ctx.true("files", sorted(after) == [file(o, j)], "wrote %s" % sorted(after), abort=True)
        got = rows(after[file(o, j)])
        S = sizes_of(o)
        T = [int(r[0]) for r in got]
        want = [10 * (v // 10) if which == "linear" else v for v in S]
        ctx.true("sizes", len(T) == len(S) and (which == "nonlinear" or close_sizes(T, want)), "rows for %s, asked for %s" % (T, S))
        D = dict(finite=o.get("nx"), linear=4, nonlinear=4)[which]
        ctx.true("recorded rows", all(int(r[1]) == D for r in got), "dimension %s" % [r[1] for r in got])
        ctx.true("recorded rows", all(0 <= r[2] <= wall for r in got), "times %s in a run of %g s" % ([r[2] for r in got], wall))
        ev = mon.of(bench[j])[0]
        same_rows(ctx, file(o, j), got, [list(map(float, r)) for r in zip(*ev["result"])])
        ctx.feature("benchmarks")
    ctx.cases(3, 18, body)


# ---- the suites -------------------------------------------------------------------

RECORDER = """#!/bin/sh
for a in "$@"; do printf '%s\\0' "$a" >> "$VF_RECORD"; done
printf '\\n' >> "$VF_RECORD"
"""


def suite_commands(path):
    """The python command lines a suite issues, from a run with a recording stand-in."""
    d = tempfile.mkdtemp(prefix="vf_scripts_")
    try:
        for n in ("python", "python3"):
            with open(os.path.join(d, n), "w") as f:
                f.write(RECORDER)
            os.chmod(os.path.join(d, n), 0o755)
        os.makedirs(d + "/run")
        env = dict(PATH=d + ":/usr/bin:/bin", VF_RECORD=d + "/record", HOME=d)
        r = subprocess.run(["/bin/sh", path], cwd=d + "/run", env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        if not os.path.exists(d + "/record"):
            return r.returncode, []
        with open(d + "/record") as f:
            return r.returncode, [line.split("\0")[:-1] for line in f.read().splitlines()]
    finally:
        shutil.rmtree(d)


def g_suites(ctx):
    """The committed suites: all their command lines are understood and none
    overwrites the measurements of another one of its suite."""
    import tensorflow as tf
    from parallel_control import text_model as tm, viterbi_tf
    defs = {"run_%s_experiments.py" % w: bellman(w) for w in ("linear", "finite", "nonlinear")}
    defs.update({"run_%s_experiments.py" % w: looped(w) for w in ("contlin", "nonlin", "viterbi")})
    suites = sorted(glob.glob(ROOT + "/experiments-*/*.sh"))

    def body(rng, i):
        path = suites[i % len(suites)]
        code, cmds = suite_commands(path)
        name = os.path.basename(path)
        ctx.note(suite=name, commands=len(cmds), digest=[np.frombuffer(repr(cmds).encode(), dtype=np.uint8)])
        ctx.true("suite", code == 0 and len(cmds) > 0, "%s: status %d, %d commands" % (name, code, len(cmds)), abort=True)
        files = {}
        for c in cmds:
            script = os.path.join(os.path.dirname(path), c[0])
            ctx.true("suite", os.path.exists(script), "%s calls a missing %s" % (name, c[0]), abort=True)
            mon = Monitor()
            opts = dict(a.split("=") for a in c[1:] if a.count("=") == 1)
            if ctx.tier == "quick" and c[1:] and int(opts.get("steps", "0")) > 2000:
                continue        # long texts: the thorough tier
            try:
                if c[0] in defs:
                    d = defs[c[0]]
                    for g in (d[4] if isinstance(d[4], list) else []):
                        mon.patch(d[1], g, lambda ev, call: "problems")
                    three = c[0] in ("run_linear_experiments.py", "run_finite_experiments.py", "run_nonlinear_experiments.py")
                    hjb = c[0] == "run_nonlin_experiments.py"
                    for b in d[3]:
                        mon.patch(d[1], b, lambda ev, call: ([1], [1], [1.0]) if three else (1.0, 1.0, 1.0) if hjb else (1.0, 1.0))
                else:
                    for t in TEXT:
                        mon.patch(viterbi_tf, "viterbi_" + t, lambda ev, call: (tf.zeros(len(np.asarray(list(ev["args"].values())[3])) + 1, dtype=tf.int32), None))
                    for g in ("getNthOrderPi", "getNthOrderPo", "getNthOrderPrior"):
                        mon.patch(tm.TextModel, g, lambda ev, call: np.full((1, 1), 1.0))
                threads(mon, tf)
                n = int(opts.get("steps", "40")) if "text" in c[0] else 40
                with place("abc " * 20, "ab c" * (n // 4 + 1)) as cwd:
                    code, text = run_script(ctx, script, c[1:], cwd)
                    after = tree(cwd)
            finally:
                mon.restore()
            ctx.true("suite", code == 0, "%s: %s ends with status %r" % (name, " ".join(c), code))
            data = [f for f in after if not f.endswith("_config.txt")]
            ctx.true("suite", len(data) > 0, "%s: %s records nothing" % (name, " ".join(c)))
            for f in data:
                ctx.true("suite", f not in files, "%s: %s and %s both record to %s" % (name, " ".join(files.get(f, [])), " ".join(c), f))
                files[f] = c
            ctx.feature("commands")
    ctx.cases(len(suites), len(suites), body)


GROUPS = dict(suites=g_suites, bellman=g_bellman, loops=g_loops, text=g_text, real=g_real, realb=g_realb)
