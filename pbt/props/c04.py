"""C04: low and high path select the two distinct multi-revolution solutions."""

from pbt.props import c03
from pbt.props.common import *

RULE = ("Hypothesis draws multi-revolution problems with f = tof/tof_min - 1 in [1e-3, 1e2] "
        "(and zero-revolution ones); each is solved with both values of the path flag; "
        "non-trivial when both calls returned and were matched with the reference")
TOL = 1e-5


def shards(tier):
    out = solver_shards(ALL, 2500, tier)
    for s in out:
        if s["solver"] in ZERO_ONLY:
            s["n"] = max(1, s["n"] // 5)
    return out


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if name in MULTI and draw(st.integers(0, 4)) < 2:
            return draw(fine(name, multi=True))
        if name in ZERO_ONLY or draw(st.integers(0, 7)) == 0:
            c = draw(direct(name))
            c["kw"] = draw(st.sampled_from([tight(name), {}]))
        else:
            c = c03.multi(draw, name, flo=-3.0,
                          which_units=draw(st.sampled_from([(0,), (1, 3, 4, 5)])))
            c["kw"] = TIGHT if c["units"] == "canonical" else {
                "maxiter": 100, "atol": 1e-8, "rtol": 1e-8}
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    outs = {low: run_solver(ctx, name, case, is_low_path=low) for low in (True, False)}
    if case["M"] == 0:
        a, b = outs[True], outs[False]
        ctx.nontrivial = True
        ctx.label("M=0")
        if isinstance(a, Raised) or isinstance(b, Raised):
            if isinstance(a, Raised) != isinstance(b, Raised):
                raise Violation(f"{name} depends on the path for M=0: low {show(a)}, "
                                f"high {show(b)}")
            return
        e = pair_error(a, b)
        if not e <= 1e-9:
            raise Violation(f"{name}: the path changes the M=0 solution by {e:.3g}")
        return
    for low, out in outs.items():
        if isinstance(out, Raised):
            ctx.label("raised " + out.type)
            continue
        ctx.nontrivial = True
        sol = gen.reference(dict(case, low=low))
        e = vel_error(sol, out[0], out[1]) / sqrt_slack(case)
        mode = "fine: " if case.get("fine") else ""
        ctx.max(mode + "largest relative error over 1 + f**-0.5", e)
        ctx.label(mode + ("low" if low else "high"))
        if not e <= (1e-10 if mode else TOL) * LAX:
            other = gen.reference(dict(case, low=not low))
            e2 = vel_error(other, out[0], out[1])
            what = ("that of the other path" if e2 <= TOL * sqrt_slack(case)
                    else f"off by {e:.3g}")
            raise Violation(
                f"{name} M={case['M']} {'low' if low else 'high'} path returns {what} "
                f"(theta={theta_of(case):.6g}, f={case['f']:.3g}): {show(out)}")
