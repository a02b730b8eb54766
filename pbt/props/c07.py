"""C07: all solvers agree on the same problem."""

from pbt.props.common import *

RULE = ("Hypothesis draws problems, special orbits included (parabola, circle, minimum "
        "energy, strong hyperbolas, many revolutions); a case is non-trivial when the "
        "solver and its peer both returned and their velocities were compared (the peer is "
        "izzo2015; gooding1990 for izzo2015 itself), or one of them alone refused a "
        "problem within its domain")


def shards(tier):
    return solver_shards(ALL, 2500, tier)


def peer(name):
    return "gooding1990" if name == "izzo2015" else "izzo2015"


@st.composite
def special(draw):
    """Orbits on which time equations have removable singularities."""
    x, y = draw(gen.plane())
    th = draw(gen.angle(near=0.05))
    k = draw(st.sampled_from(["parabola", "circle", "minimum energy", "sin"]))
    rho = 1.0 if k == "circle" else 10.0 ** draw(st.floats(-1, 1)) if draw(
        st.booleans()) else 1.0
    c = make_case(x, y, rho, th, 1.0)
    if k == "circle":
        c["f"] = th / c["tof"]
        c["tof"] = th
    elif k == "minimum energy":
        geo = ref.Geometry(c["r1"], c["r2"], c["pro"])
        f = gen.minimum_energy_factor(geo)
        c["tof"] *= f
        c["f"] = f
    elif k == "sin":  # semi-latus rectum or time of flight a round number
        c["f"] = 1.0 / c["tof"]
        c["tof"] = 1.0
    c["special"] = k
    return c


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) < 2:
            return draw(fine(name))
        if name in MULTI and draw(st.integers(0, 2)) == 0:
            c = draw(gen.problem_m(near=0.05, flo=-3.0, mmax=draw(
                st.sampled_from([2, 6, 30]))))
        elif draw(st.integers(0, 3)) == 0:
            c = draw(special())
        elif draw(st.integers(0, 2)) == 0:
            c = draw(gen.problem0(near=1e-2, flo=-2.0, span=1.3))
            c["wide"] = True
        else:
            c = draw(direct(name))
        c["kw"] = tight(name)
        return c

    return s()


def bound(name, case):
    if case.get("fine"):
        return fine_bound(name, case)
    return (1e-3 if case.get("wide") else 1e-5) * sqrt_slack(case)


def check(ctx, shard, case):
    name = shard["solver"]
    p = peer(name)
    a = run_solver(ctx, name, case)
    b = run_solver(ctx, p, dict(case, kw=FINE if case.get("fine") else tight(p)))
    if isinstance(a, Raised) or isinstance(b, Raised):
        ctx.label("raised: " + ",".join(n for n, o in ((name, a), (p, b))
                                        if isinstance(o, Raised)))
        return
    ctx.nontrivial = True
    kind = case.get("special") or ("wide" if case.get("wide") else
                                   f"M={min(case['M'], 7)}")
    if case.get("fine"):
        kind = "fine"
        if bound(name, case) > 1e-10:
            kind = "fine, special orbits"
    ctx.label(kind)
    e = pair_error(a, b)
    ctx.max(f"largest difference ({'M>0' if case['M'] and kind != 'fine' else kind})", e / sqrt_slack(case))
    if not e <= bound(name, case) * LAX:
        raise Violation(
            f"{name} and {p} differ by {e:.3g} ({kind}, theta={theta_of(case):.6g}, "
            f"f={case['f']:.6g}): {show(a)} / {show(b)}; {name}: "
            f"{flies(case, a[0], a[1])}; {p}: {flies(case, b[0], b[1])}")
