"""C11: solvers are pure functions of the values of their arguments."""

import importlib
import sys
import threading
import warnings

from pbt.props.common import *

RULE = ("Hypothesis draws histories of 2 to 8 calls of any solvers, each a variation of the "
        "problems before it (another flag, limit, tolerance, unit or last digits, invalid or "
        "infeasible ones included), whose results and arguments are overwritten in between, and "
        "which are then repeated from concurrent threads; and problems passed in every "
        "representation of their values (layout, writability, overlapping buffers, integer, "
        "single and double precision, NumPy scalars, keywords); histories are non-trivial when "
        "two of their calls answer and differ, representations when the solver answers")
ASSUMPTIONS = ["importing the library again makes a fresh copy of it"]


def shards(tier):
    k = 1 if tier == "quick" else 30
    out = [dict(name=f"history{i}", n=220 * k, jit=False, cost=5, part="history")
           for i in ("", "-2", "-3", "-4")]
    out += [dict(name=f"values{i}", n=900 * k, jit=False, cost=3, part="values")
            for i in ("", "-2")]
    for s in ALL:
        out.append(dict(name=s, solver=s, n=int(60 * k / (3 if s == "pan2016" else 1)), cache=s,
                        cost=3 + SLOW.get(s, 1), part="compiled"))
    return out


# -- generation ------------------------------------------------------------
@st.composite
def a_problem(draw, name):
    if name in MULTI and draw(st.integers(0, 2)) == 0:
        c = draw(gen.problem_m(near=0.3, mmax=3, flo=-1.5, fhi=1.0, strata="g",
                               which_units=(0, 0, 1, 4)))
    else:
        c = draw(direct(name, near=0.1, which_units=(0, 0, 1, 4)))
    return c


@st.composite
def a_history(draw):
    names = draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=3))
    c = draw(a_problem(names[0]))
    c["solver"] = names[0]
    c["kw"] = dict(tight(names[0])) if draw(st.booleans()) else {}
    calls = [c]
    for _ in range(draw(st.integers(1, 7))):
        c = dict(calls[draw(st.integers(0, len(calls) - 1))])
        c["kw"] = dict(c["kw"])
        k = draw(st.sampled_from(["solver", "pro", "low", "M", "tof", "digits", "mu", "tol",
                                  "maxiter", "full", "same", "new", "bad", "r1", "swap"]))
        if k == "solver":
            c["solver"] = draw(st.sampled_from(names if draw(st.booleans()) else ALL))
        elif k == "pro":
            c["pro"] = not c["pro"]
        elif k == "low":
            c["low"] = not c["low"]
        elif k == "M":
            c["M"] = draw(st.integers(0, 3))
        elif k == "tof":
            c["tof"] *= draw(st.sampled_from([1.5, 2.0, 0.7, 10.0, 1e-3]))
        elif k == "digits":
            f = draw(st.sampled_from([1e-15, 1e-12, 1e-9, 1e-6, 1e-4]))
            i = draw(st.integers(0, 2))
            w = draw(st.sampled_from(["r1", "r2", "tof", "mu"]))
            if w in ("r1", "r2"):
                c[w] = list(c[w])
                c[w][i] *= 1 + f
            else:
                c[w] *= 1 + f
        elif k == "mu":
            c["mu"] *= draw(st.sampled_from([1.1, 0.5, 2.0]))
        elif k == "tol":
            t = 10.0 ** draw(st.integers(-12, -2))
            c["kw"].update(atol=t, rtol=t)
        elif k == "maxiter":
            c["kw"]["maxiter"] = draw(st.sampled_from([1, 2, 3, 5, 10, 20, 50, 200]))
        elif k == "full":
            c["kw"]["full_output"] = not c["kw"].get("full_output", False)
        elif k == "bad":
            w = draw(st.sampled_from(["mu", "tof", "r1", "M"]))
            c[w] = {"mu": -1.0, "tof": 0.0, "r1": [0.0, 0.0, 0.0], "M": -1}[w]
        elif k == "r1":
            c["r1"] = [a * 1.25 for a in c["r1"]]
        elif k == "swap":
            c["r1"], c["r2"] = c["r2"], c["r1"]
        elif k == "new":
            n = draw(st.sampled_from(names))
            d = draw(a_problem(n))
            d["solver"], d["kw"] = n, c["kw"]
            c = d
        calls.append(c)
    return {"calls": calls, "threads": draw(st.booleans()),
            "spoil": draw(st.lists(st.booleans(), min_size=8, max_size=8))}


REPR = ["strided", "reversed", "readonly", "column", "overlap", "int64", "int32", "float32",
        "keywords", "np scalars", "np flags", "int flags", "slice of 2d", "unaligned", "offset"]
COMPILED = ["strided", "reversed", "readonly", "overlap", "int64", "float32", "int32", "keywords",
            "np scalars", "np flags", "int flags", "column"]


@st.composite
def a_value(draw, names, reprs):
    name = draw(st.sampled_from(names))
    rep = draw(st.sampled_from(reprs))
    c = draw(a_problem(name))
    c["solver"], c["rep"] = name, rep
    if rep in ("int64", "int32"):
        # whole numbers of some unit
        L = draw(st.sampled_from([20.0, 7000.0, 1e5, 2e7]))
        f = L / max(map(abs, c["r1"] + c["r2"]))
        c["r1"], c["r2"] = ([float(round(a * f)) for a in c[k]] for k in ("r1", "r2"))
        # with a unit of time in which mu is one
        c["tof"] = float(round(c["tof"] * math.sqrt(f**3 * c["mu"])))
        c["mu"] = 1.0
        c["tof"] = max(c["tof"], 1.0)
    elif rep == "float32":
        for k in ("r1", "r2"):
            c[k] = [float(np.float32(a)) for a in c[k]]
        for k in ("mu", "tof"):
            c[k] = float(np.float32(c[k]))
    c["kw"] = dict(tight(name))
    c["scalars"] = draw(st.booleans())
    return c


def strategy(shard):
    if shard["part"] == "history":
        return a_history()
    if shard["part"] == "values":
        return a_value(ALL, REPR)

    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)) == 0:
            c = draw(a_problem(shard["solver"]))
            c["solver"], c["rep"] = shard["solver"], "again"
            c["kw"] = dict(tight(shard["solver"]))
            return c
        return draw(a_value([shard["solver"]], COMPILED))

    return s()


# -- execution -------------------------------------------------------------
def fresh():
    """A copy of the library which nobody has called."""
    for k in [k for k in sys.modules if k == "lamberthub" or k.startswith("lamberthub.")]:
        del sys.modules[k]
    return importlib.import_module("lamberthub")


def invoke(ctx, lib, c, r1, r2):
    return attempt(ctx, getattr(lib, c["solver"]), c["mu"], r1, r2, c["tof"], c["M"],
                   c["pro"], c["low"], **c["kw"])


def key(out):
    """What is compared: everything but the time."""
    if isinstance(out, Raised):
        return (out.type, out.msg)
    if not isinstance(out, tuple) or len(out) not in (2, 4):
        return ("?", repr(out))
    vs = tuple(np.asarray(v).tobytes() for v in out[:2])
    return vs + ((int(out[2]),) if len(out) == 4 else ())


def environment():
    s = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), s[1].tobytes(), s[2], len(warnings.filters))


def history(ctx, case):
    calls = case["calls"]
    # each call on its own
    want = []
    for c in calls:
        lib = fresh()
        want.append(key(invoke(ctx, lib, c, *gen.arrays(c))))
    n = len({w for w in want if len(w) > 1 and isinstance(w[0], bytes)})
    ctx.nontrivial = n >= 2
    ctx.label(f"{n} different answers")
    lib = fresh()
    env = environment()
    kept = []
    for i, c in enumerate(calls):
        r1, r2 = gen.arrays(c)
        a1, a2 = r1.copy(), r2.copy()
        out = invoke(ctx, lib, c, r1, r2)
        if key(out) != want[i]:
            raise Violation(f"call {i} of the history, {c['solver']}, gives {show(out)}; on its "
                            f"own it gives {describe(want[i])}")
        if not (np.array_equal(r1, a1, equal_nan=True) and np.array_equal(r2, a2, equal_nan=True)):
            raise Violation(f"{c['solver']} modifies its arguments: {a1}, {a2} become {r1}, {r2}")
        if not isinstance(out, Raised):
            for v in out[:2]:
                for w in [r1, r2] + [x for o, _ in kept for x in o[:2]]:
                    if np.shares_memory(v, w):
                        raise Violation(f"a result of {c['solver']} shares memory with its "
                                        "arguments or a result before")
            if np.shares_memory(out[0], out[1]):
                raise Violation(f"the results of {c['solver']} share memory")
            if case["spoil"][i % 8]:
                # results and arguments belong to the caller
                for v in (out[0], out[1], r1, r2):
                    try:
                        v[:] = -77.0
                    except ValueError as e:
                        raise Violation(f"a result of {c['solver']} cannot be written: {e}")
            kept.append((out, key(out)))
    for out, k in kept:
        if key(out) != k:
            raise Violation("a result changes after it has been returned")
    if environment() != env:
        raise Violation("the state of numpy or warnings is changed by the calls")
    if case["threads"]:
        threads(ctx, lib, calls, want)


def describe(k):
    if isinstance(k[0], bytes):
        return "v1=%s v2=%s" % tuple(np.frombuffer(b) for b in k[:2])
    return str(k)


def threads(ctx, lib, calls, want):
    ctx.label("with threads")
    bad = []
    start = threading.Barrier(4)
    filters = list(warnings.filters)

    def work(j):
        start.wait()
        for rep in range(2):
            for i in range(len(calls)):
                k = (i + j) % len(calls)
                c = calls[k]
                r1, r2 = gen.arrays(c)
                try:
                    out = getattr(lib, c["solver"])(c["mu"], r1, r2, c["tof"], c["M"], c["pro"],
                                                    c["low"], **c["kw"])
                except Exception as e:  # noqa: BLE001 - compared
                    out = Raised(e)
                if key(out) != want[k]:
                    bad.append((k, out))
                    return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        def run():
            ts = [threading.Thread(target=work, args=(j,)) for j in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        ctx.call(run)
    finally:
        sys.setswitchinterval(old)
        warnings.filters[:] = filters
    if bad:
        k, out = bad[0]
        raise Violation(f"{calls[k]['solver']}, called from several threads, gives {show(out)} "
                        f"instead of {describe(want[k])}")


def values(ctx, case):
    import lamberthub

    f = getattr(lamberthub, case["solver"])
    r1, r2 = gen.arrays(case)
    args = [case["mu"], r1, r2, case["tof"], case["M"], case["pro"], case["low"]]
    names = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path"]
    kw = dict(case["kw"])
    base = attempt(ctx, f, *args, **kw)
    rep = case["rep"]
    ctx.nontrivial = not isinstance(base, Raised)
    ctx.label(rep)
    exact = rep in ("again", "keywords")
    a = list(args)
    hold = None
    if rep == "strided":
        a[1:3] = (np.repeat(r, 2)[::2] for r in (r1, r2))
    elif rep == "reversed":
        a[1:3] = (r[::-1].copy()[::-1] for r in (r1, r2))
    elif rep == "readonly":
        a[1:3] = (r.copy() for r in (r1, r2))
        a[1].flags.writeable = a[2].flags.writeable = False
    elif rep == "column":
        m = np.array([r1, r2]).T.copy()
        a[1:3] = m[:, 0], m[:, 1]
    elif rep == "slice of 2d":
        m = np.array([r1, r2])
        a[1:3] = m[0], m[1]
    elif rep == "overlap":
        # both within the same buffer, interleaved
        m = np.empty(6)
        m[::2], m[1::2] = r1, r2
        a[1:3] = m[::2], m[1::2]
        hold = m
    elif rep == "unaligned":
        def un(r):
            b = np.zeros(25, dtype=np.uint8)
            v = b[1:].view(np.float64)
            v[:] = r
            return v
        a[1:3] = un(r1), un(r2)
    elif rep == "offset":
        m = np.concatenate([[7.0], r1, [9.0], r2])
        a[1:3] = m[1:4], m[5:8]
    elif rep in ("int64", "int32", "float32"):
        a[1:3] = (r.astype(rep) for r in (r1, r2))
        if case["scalars"]:
            for i in (0, 3):
                a[i] = getattr(np, rep)(a[i]) if rep == "float32" else int(a[i])
    elif rep == "np scalars":
        a[0], a[3], a[4] = np.float64(a[0]), np.float64(a[3]), np.int64(a[4])
        kw = {k: np.int64(v) if k == "maxiter" else np.float64(v) for k, v in kw.items()}
    elif rep == "np flags":
        a[5], a[6] = np.bool_(a[5]), np.bool_(a[6])
    elif rep == "int flags":
        a[5], a[6] = int(a[5]), int(a[6])
    copies = [np.array(x) for x in a[1:3]]
    if rep == "keywords":
        kw.update(zip(names[3:], a[3:]))
        out = attempt(ctx, f, *a[:3], **kw)
        out2 = attempt(ctx, f, **dict(reversed(list(zip(names[:3], a[:3]))), **kw))
        if key(out2) != key(out):
            raise Violation(f"{case['solver']} by keyword gives {show(out2)} instead of {show(out)}")
    else:
        out = attempt(ctx, f, *a, **kw)
    say = f"{case['solver']} gives {show(out)} instead of {show(base)} ({rep})"
    for x, y in zip(a[1:3], copies):
        if not np.array_equal(x, y):
            raise Violation(f"{case['solver']} modifies its arguments ({rep})")
    if isinstance(base, Raised) or isinstance(out, Raised):
        if (isinstance(base, Raised) != isinstance(out, Raised)) or base.type != out.type:
            raise Violation(say)
        return
    if exact:
        if key(out) != key(base):
            raise Violation(say)
    elif not pair_error(out, base) <= 1e-9 * LAX:
        raise Violation(say)
    for v in out[:2]:
        if not good_vector(v):
            raise Violation(say)
        if any(np.shares_memory(v, x) for x in a[1:3]):
            raise Violation(f"the result of {case['solver']} shares memory with its arguments")


def check(ctx, shard, case):
    if "calls" in case:
        history(ctx, case)
    else:
        values(ctx, case)
