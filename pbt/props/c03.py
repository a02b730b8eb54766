"""C03: multi-revolution solutions fly the transfer with exactly M revolutions."""

from pbt.props.common import *

RULE = ("Hypothesis draws a geometry, M in 1..15, a time of flight tof_min(M)(1+f) with "
        "f in [1e-4, 1e2], path, direction, units and tolerances; a case is non-trivial "
        "when the solver returned velocities, which are compared with both reference "
        "solutions with M revolutions, and propagated")
TOL = 1e-5


def shards(tier):
    return solver_shards(MULTI, 6000, tier)


def multi(draw, name, **kw):
    args = dict(near=0.05, mmax=draw(st.sampled_from([2, 5, 15])))
    args.update(kw)
    return draw(gen.problem_m(**args))


def strategy(shard):
    @st.composite
    def s(draw):
        k = draw(st.integers(0, 4))
        if k < 2:
            return draw(fine(shard["solver"], multi=True))
        if k < 4:
            c = multi(draw, shard["solver"])
            c["kw"] = TIGHT
        else:
            c = multi(draw, shard["solver"], flo=-2.0, which_units=(1, 3, 4, 5))
            c["kw"] = {"maxiter": 100, "atol": 1e-8, "rtol": 1e-8}
        return c

    return s()


def nearest(case, v1, v2):
    """(error against the closer of both solutions, which one)."""
    best = (float("inf"), None)
    for low in (True, False):
        s = gen.reference(dict(case, low=low))
        best = min(best, (vel_error(s, v1, v2), low))
    return best


def check(ctx, shard, case):
    name = shard["solver"]
    out = run_solver(ctx, name, case)
    if isinstance(out, Raised):
        # judged by C05
        ctx.label("raised " + out.type)
        return
    ctx.nontrivial = True
    e, low = nearest(case, out[0], out[1])
    e /= sqrt_slack(case)
    ctx.label(f"M={min(case['M'], 6)}")
    mode = "fine" if case.get("fine") else "tight" if case["kw"] == TIGHT else "1e-8"
    ctx.max(f"{mode}: largest relative error over 1 + f**-0.5", e)
    if not e <= (1e-10 if mode == "fine" else TOL) * LAX:
        raise Violation(
            f"{name} with M={case['M']} returns velocities which are neither of both "
            f"solutions (closest: {e:.3g} away; theta={theta_of(case):.6g}, "
            f"f={case['f']:.3g}): {show(out)}; {flies(case, out[0], out[1])}")
