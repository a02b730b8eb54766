"""C14: all solvers share one calling and result convention."""

import inspect
import numbers

from pbt.props.common import *

RULE = ("Hypothesis draws direct and multi-revolution problems (next to the parabola, the orbit of "
        "minimum energy and the minimum time of flight, ill-conditioned, infeasible and invalid "
        "ones included), tolerances and limits of iterations, to go through every return "
        "statement, and how the arguments are passed; non-trivial when the solver answers: the "
        "plain call is compared with the one with full output, bit by bit")

PARAMS = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol",
          "full_output"]
DEFAULTS = {"M": 0, "is_prograde": True, "is_low_path": True, "full_output": False}


def shards(tier):
    out = solver_shards(ALL, 1500, tier)
    for i in range(2):
        out.append(dict(name=f"interpreted-{i}", solver=None, jit=False, cost=4,
                        n=1500 * (1 if tier == "quick" else 40)))
    return out


def strategy(shard):
    @st.composite
    def s(draw):
        name = shard["solver"] or draw(st.sampled_from(ALL))
        k = draw(st.sampled_from("ddpmmxeib"))
        if k in ("m", "i") and name in MULTI:
            c = draw(gen.problem_m(near=0.02, flo=-8, fhi=2, mmax=8))
            if k == "i":
                c["tof"] *= 0.5
        elif k == "p":
            c = draw(direct(name, which_units=(0, 1)))
            g = (1 + draw(st.sampled_from([-1, 1, 0])) * 10.0 ** draw(st.floats(-16, -2)))
            c["tof"] *= g / c["f"]
        elif k in ("x", "e"):
            c = draw(gen.problem0(near=1e-9 if k == "x" else 1e-3, span=2.0, flo=-4, fhi=4,
                                  which_units=(0, 1, 2, 6)))
        else:
            c = draw(direct(name, which_units=(0, 1, 4)))
        if k == "b":
            w = draw(st.sampled_from(["mu", "tof", "r1", "M"]))
            c[w] = {"mu": -1.0, "tof": 0.0, "r1": [0.0, 0.0, 0.0], "M": -1}[w]
        kw = draw(st.sampled_from(["tight", "default", "loose", "iterations"]))
        c["kw"] = {"tight": tight(name), "default": {}, "loose": {"atol": 1e-3, "rtol": 1e-3},
                   "iterations": {"maxiter": draw(st.sampled_from([1, 2, 3, 4, 6, 8, 12, 20])),
                                  "atol": 1e-8, "rtol": 1e-8}}[kw]
        if draw(st.integers(0, 5)) == 0:
            c["pro"] = True
            c["low"] = True
        c["solver"] = name
        c["style"] = draw(st.sampled_from(["positional", "keyword", "defaults", "flag as int"]))
        return c

    return s()


SEEN = set()


def signature(f, name):
    ps = inspect.signature(f).parameters
    if list(ps) != PARAMS:
        raise Violation(f"the arguments of {name} are {list(ps)}")
    for k, v in DEFAULTS.items():
        if ps[k].default is not v and not (k == "M" and ps[k].default == 0):
            raise Violation(f"{k} of {name} is {ps[k].default!r} by default")
    for k in PARAMS[:4]:
        if ps[k].default is not inspect.Parameter.empty:
            raise Violation(f"{k} of {name} is not mandatory")
    for p in ps.values():
        if p.kind is not inspect.Parameter.POSITIONAL_OR_KEYWORD:
            raise Violation(f"{p.name} of {name} cannot be passed by position and by keyword")
    d = ps["maxiter"].default
    if not (isinstance(d, int) and d >= 1 and ps["atol"].default > 0 and ps["rtol"].default > 0):
        raise Violation(f"the limits of {name} are {d!r}, {ps['atol'].default!r}")


def plain(ctx, name, out, n):
    if not isinstance(out, tuple) or len(out) != n:
        raise Violation(f"{name} returns {out!r} instead of a tuple of {n}")
    for v in out[:2]:
        if not (isinstance(v, np.ndarray) and v.shape == (3,) and v.dtype == np.float64):
            raise Violation(f"{name} returns {v!r} as velocity")
        if not (v.flags.writeable and v.flags.owndata or v.base is not None):
            raise Violation(f"{name} returns a velocity which cannot be written: {v.flags}")
    if np.shares_memory(out[0], out[1]):
        raise Violation(f"the velocities of {name} are the same memory")


def check(ctx, shard, case):
    import lamberthub

    name = case["solver"]
    f = getattr(lamberthub, name)
    if name not in SEEN:
        signature(f, name)
        SEEN.add(name)
    r1, r2 = gen.arrays(case)
    args = [case["mu"], r1, r2, case["tof"], case["M"], case["pro"], case["low"]]
    kw = dict(case["kw"])
    a = attempt(ctx, f, *args, **kw)
    flag = True
    style = case["style"]
    if style == "keyword":
        b = attempt(ctx, f, **dict(zip(PARAMS, args)), **kw, full_output=True)
        c = attempt(ctx, f, **dict(zip(PARAMS, args)), **kw, full_output=False)
    elif style == "defaults":
        # arguments equal to their defaults may be left out
        d = {k: v for k, v in zip(PARAMS[4:], args[4:])
             if not (k in DEFAULTS and v == DEFAULTS[k])}
        b = attempt(ctx, f, *args[:4], **d, **kw, full_output=True)
        c = attempt(ctx, f, *args[:4], **d, **kw)
    elif style == "flag as int":
        b = attempt(ctx, f, *args, **kw, full_output=1)
        c = attempt(ctx, f, *args, **kw, full_output=0)
    else:
        ps = inspect.signature(f).parameters
        lim = [kw.get(k, ps[k].default) for k in ("maxiter", "atol", "rtol")]
        b = attempt(ctx, f, *args, *lim, True)
        c = attempt(ctx, f, *args, *lim, False)
    ctx.label("raised" if isinstance(a, Raised) else f"M={'0' if not case['M'] else '>0'}")
    for what, x, n in (("with full output", b, 4), ("without full output", c, 2)):
        if isinstance(a, Raised) or isinstance(x, Raised):
            if not (isinstance(a, Raised) and isinstance(x, Raised)):
                raise Violation(f"{name} gives {show(a)}, and {show(x)} {what} ({style})")
            if (a.type, a.msg) != (x.type, x.msg):
                raise Violation(f"{name} raises {a!r}, and {x!r} {what} ({style})")
            continue
        plain(ctx, name, a, 2)
        plain(ctx, name, x, n)
        if any(p.tobytes() != q.tobytes() for p, q in zip(a[:2], x[:2])):
            raise Violation(f"{name} gives {show(a)}, and {show(x)} {what} ({style})")
        if any(np.shares_memory(p, q) for p in a[:2] for q in x[:2]):
            raise Violation(f"two calls of {name} return the same memory")
    if isinstance(a, Raised):
        return
    ctx.nontrivial = True
    n, tpi = b[2], b[3]
    if isinstance(n, (bool, np.bool_)) or not isinstance(n, numbers.Integral) or n < 0:
        raise Violation(f"the number of iterations of {name} is {n!r}")
    if not isinstance(tpi, numbers.Real) or not (0 <= tpi < float("inf")):
        raise Violation(f"the time per iteration of {name} is {tpi!r}")
    ctx.label("no iterations" if n == 0 else "iterations")
