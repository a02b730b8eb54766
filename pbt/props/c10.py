"""C10: time reversal exchanges departure and arrival."""

from pbt.props import c03
from pbt.props.common import *

RULE = ("Hypothesis draws problems; each is solved forwards and, with both positions "
        "exchanged and the other direction, backwards; non-trivial when both were answered "
        "and compared")


def shards(tier):
    return solver_shards(ALL, 2600, tier)


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) < 2:
            c = draw(fine(name))
        elif name in MULTI and draw(st.integers(0, 2)) == 0:
            c = c03.multi(draw, name, flo=-2.0)
            c["kw"] = tight(name)
        else:
            c = draw(direct(name))
            c["kw"] = tight(name)
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    back = dict(case, r1=case["r2"], r2=case["r1"], pro=not case["pro"])
    geo = ref.Geometry(case["r1"], case["r2"], True)
    if geo.polar:
        # the direction is told by r1 x r2, which changes sign too
        back["pro"] = case["pro"]
    a = run_solver(ctx, name, case)
    b = run_solver(ctx, name, back)
    if isinstance(a, Raised) and isinstance(b, Raised):
        ctx.label("both raised")
        return
    if isinstance(a, Raised) or isinstance(b, Raised):
        if refuses_fine(case):
            ctx.label("fine tolerances reached once")
            return
        raise Violation(f"{name} flies the transfer only one way: {show(a)} / {show(b)}")
    ctx.nontrivial = True
    ctx.label("M>0" if case["M"] else "M=0", "polar" if geo.polar else "not polar")
    e = pair_error(b, (-a[1], -a[0])) / sqrt_slack(case)
    bound, mode = 1e-5, ""
    if case.get("fine"):
        bound, mode = fine_bound(name, case), "fine: "
        if bound > 1e-10:
            mode = "fine, special orbits: "
    ctx.max(mode + "largest difference", e)
    if not e <= bound * LAX:
        raise Violation(f"{name}: the reversed transfer differs by {e:.3g}: "
                        f"{show(a)} / {show(b)}")
