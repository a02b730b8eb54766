"""C02: solvable direct transfers are solved, not refused."""

from pbt.props.common import *

RULE = ("Hypothesis draws well-posed zero-revolution problems within the domain of "
        "each method (DOMAIN0 in pbt/props/common.py) in several unit systems, and with one "
        "extreme feature (transfer angle, time of flight or ratio of radii, to the limits "
        "of WIDE0); every case is non-trivial: the solver has to return finite velocities")


def shards(tier):
    return solver_shards(ALL, 3000, tier, thorough=40)


def strategy(shard):
    @st.composite
    def s(draw):
        u = draw(st.integers(0, 7))
        if u > 5 and shard["solver"] in WIDE0:
            c = draw(wide_direct(shard["solver"]))
        elif u > 1:
            c = draw(direct(shard["solver"]))
            c["kw"] = tight(shard["solver"])
        else:
            c = draw(direct(shard["solver"], which_units=(1, 3, 4, 5)))
            c["kw"] = {"maxiter": 100, "rtol": 1e-7, "atol": 1e-7}
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    ctx.nontrivial = True
    out = run_solver(ctx, name, case)
    th = theta_of(case)
    ctx.label("long way" if th > PI else "short way",
              "ellipse" if case["f"] > 1 else "hyperbola",
              "extreme " + case["wide"] if "wide" in case else "moderate")
    if isinstance(out, Raised) or not (good_vector(out[0]) and good_vector(out[1])):
        raise Violation(f"{name} does not solve a well-posed transfer "
                        f"(theta={th:.6g}, f={case['f']:.6g}): {show(out)}")
