"""C05: problems below the minimum time of flight are refused, the rest solved."""

from pbt.props.common import *

RULE = ("Hypothesis draws a geometry, M in 1..10, path, direction, units and a time of "
        "flight at a relative distance of 1e-9 to 1 below or above the reference minimum "
        "one, or else a feasible problem with one extreme feature "
        "(transfer angle, ratio of radii, M up to 1000 or up to 1e6 minimum times of "
        "flight); every case is non-trivial: below, the solver has to raise ValueError or "
        "RuntimeError; above, it has to return a solution")
# These find the minimum only to the tolerance asked for: exponents of the distances
# which they can tell apart with the default tolerances and with 1e-8.
COARSE = {"arora2013": (-4.0, -6.5), "mcelreath2025": (-4.0, -6.5), "negrete2024": (-7.0, -7.0)}


def shards(tier):
    return solver_shards(MULTI, 5000, tier)


def strategy(shard):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) == 4:
            return draw(wide_multi(shard["solver"]))
        u = draw(st.integers(0, 3))
        c = draw(gen.problem_m(near=0.05, mmax=draw(st.sampled_from([1, 3, 10, 30])),
                               which_units=(0,) if u else (1, 3, 4, 5)))
        tmin = c["tof"] / (1.0 + c["f"])
        if u == 1 or (u and c["M"] > 10):
            d = 10.0 ** draw(st.floats(-9, 0))
            c["kw"] = TIGHT
        elif u:
            # what the tolerances can tell apart
            c["kw"] = draw(st.sampled_from([{}, {"atol": 1e-8, "rtol": 1e-8,
                                                 "maxiter": 100}]))
            coarse = COARSE.get(shard["solver"], (-9.0, -9.0))[len(c["kw"]) > 0]
            d = 10.0 ** draw(st.floats(coarse, 0))
        else:
            d = 10.0 ** draw(st.floats(-2.5, 0))
            c["kw"] = draw(st.sampled_from([{}, {"atol": 1e-8, "rtol": 1e-8,
                                                 "maxiter": 100}]))
        if draw(st.booleans()):
            d = -min(d, 0.99)
        c["f"] = d
        c["tof"] = tmin * (1.0 + d)
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    ctx.nontrivial = True
    out = run_solver(ctx, name, case)
    d = case["f"]
    ctx.label("%s the minimum by 1e%d" % ("above" if d > 0 else "below",
                                           int(math.floor(math.log10(abs(d))))))
    ctx.label("extreme " + case["wide"] if "wide" in case else "moderate")
    where = (f"theta={theta_of(case):.6g}, M={case['M']}, "
             f"{'low' if case['low'] else 'high'} path, tof=(1{d:+.3g}) tof_min, "
             f"kw={case['kw']}")
    if d < 0:
        if not isinstance(out, Raised):
            raise Violation(f"{name} returns velocities for an infeasible problem "
                            f"({where}): {show(out)}")
        if out.type not in CLEAN:
            raise Violation(f"{name} fails with {out!r} for an infeasible problem ({where})")
        return
    if isinstance(out, Raised):
        raise Violation(f"{name} refuses a feasible problem ({where}): {show(out)}")
    if not (good_vector(out[0]) and good_vector(out[1])):
        raise Violation(f"{name} returns non-finite velocities ({where}): {show(out)}")
