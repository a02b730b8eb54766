"""C09: solutions scale with the units of length and time."""

from pbt.props import c03
from pbt.props.common import *

RULE = ("Hypothesis draws a problem in canonical units and a scale of length (1e-3 to 1e12) "
        "and time (1e-2 to 1e10), powers of two or arbitrary; a case is non-trivial when "
        "both problems were answered and compared")


def shards(tier):
    return solver_shards(ALL, 2200, tier)


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) < 2:
            c = draw(fine(name))
        elif name in MULTI and draw(st.integers(0, 2)) == 0:
            c = c03.multi(draw, name, flo=-2.0)
            c["kw"] = tight(name)
        else:
            c = draw(direct(name))
            c["kw"] = tight(name)
        if draw(st.booleans()):
            L, T = 2.0 ** draw(st.integers(-9, 40)), 2.0 ** draw(st.integers(-6, 33))
        else:
            L, T = 10.0 ** draw(st.floats(-3, 12)), 10.0 ** draw(st.floats(-2, 10))
        k = draw(st.sampled_from("ltba"))
        if k == "l":
            T = 1.0
        elif k == "t":
            L = 1.0
        c["L"], c["T"] = L, T
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    L, T = case["L"], case["T"]
    img = dict(case, mu=case["mu"] * L**3 / T**2, r1=[a * L for a in case["r1"]],
               r2=[a * L for a in case["r2"]], tof=case["tof"] * T)
    a = run_solver(ctx, name, case)
    b = run_solver(ctx, name, img)
    if isinstance(a, Raised) and isinstance(b, Raised):
        ctx.label("both raised")
        return
    if isinstance(a, Raised) or isinstance(b, Raised):
        if refuses_fine(case):
            ctx.label("fine tolerances reached once")
            return
        raise Violation(f"{name} answers the problem only in some units (L={L:g}, T={T:g}): "
                        f"{show(a)} / {show(b)}")
    ctx.nontrivial = True
    ctx.label("L" if T == 1 else "T" if L == 1 else "both")
    e = pair_error(b, (a[0] * (L / T), a[1] * (L / T))) / sqrt_slack(case)
    bound, mode = 1e-5, ""
    if case.get("fine"):
        bound, mode = 10 * fine_bound(name, case), "fine: "
        if bound > 1e-9:
            mode = "fine, special orbits: "
    ctx.max(mode + "largest difference", e)
    if not e <= bound * LAX:
        raise Violation(f"{name}: the solution in other units (L={L:g}, T={T:g}) differs by "
                        f"{e:.3g}: {show(a)} / {show(b)}")
