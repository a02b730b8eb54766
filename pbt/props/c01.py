"""C01: every direct transfer a solver returns flies the requested transfer."""

from pbt.props.common import *

RULE = ("Hypothesis draws a transfer angle, radius ratio, transfer plane, time of "
        "flight relative to the parabolic one, direction, unit system and tolerance "
        "mode; a case is non-trivial when the solver returned velocities, which were "
        "then compared with the extended-precision reference solution")
ASSUMPTIONS = [
    "the reference solves Lambert's problem (it is cross-checked against "
    "Kepler propagation by pbt/selftest.py)",
]
N = {"quick": 2600, "thorough": 120000}

# bounds on the relative velocity error: (tight core, tight wide, default), some
# two orders of magnitude over what generated cases attain
TOL = {s: (1e-6, 1e-4, 1e-3) for s in ALL}
TOL.update(
    gooding1990=(1e-11, 1e-10, 1e-10), izzo2015=(1e-10, 1e-7, 1e-9),
    battin1984=(1e-8, 1e-4, 1e-6), avanzini2008=(1e-8, 1e-4, 1e-3),
    mcelreath2025=(1e-8, 1e-4, 1e-3), jiang2016=(3e-5, 1e-3, 1e-3),
    pan2016=(3e-5, 1e-3, 1e-3), vallado2013=(3e-5, 1e-3, 1e-3),
    # whose default tolerances are loose
    gauss1809=(1e-6, 1e-4, 2e-2), der2011=(1e-6, 1e-4, 2e-2),
    arora2013=(3e-6, 1e-4, 1e-1),
)


def shards(tier):
    out = []
    for s in ALL:
        n = N[tier]
        if s == "pan2016":
            n //= 4
        parts = 1 if tier == "quick" else 4
        for k in range(parts):
            out.append(dict(name=f"{s}" + (f"-{k}" if k else ""), solver=s,
                            n=n // parts, cost=SLOW.get(s, 1), cache=s))
    return out


def strategy(shard):
    @st.composite
    def s(draw):
        mode = draw(st.sampled_from(["core", "fine", "fine", "wide", "default", "default", "any"]))
        if mode == "fine":
            c = draw(fine(shard["solver"], multi=False))
        elif mode == "core":
            c = draw(gen.problem0(near=0.05, flo=-1.5))
            c["kw"] = tight(shard["solver"])
        elif mode == "wide":
            c = draw(gen.problem0(near=1e-3, flo=-2.0))
            c["kw"] = tight(shard["solver"])
        elif mode == "default":
            c = draw(gen.problem0(near=0.05, flo=-1.5, which_units=(1, 4, 3, 5)))
            c["kw"] = {}
        else:
            c = draw(gen.problem0(near=0.05, flo=-1.5))
            c = draw(in_big_units(c))
            c["kw"] = {}
        c["mode"] = mode
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    mode = case.get("mode", "core")
    out = run_solver(ctx, name, case)
    if isinstance(out, Raised):
        ctx.label(f"{mode}: raised {out.type}")
        return
    sol = gen.reference(case)
    ctx.nontrivial = True
    e = vel_error(sol, out[0], out[1])
    ctx.label(f"{mode}: returned")
    tol = TOL[name][{"core": 0, "wide": 1}.get(mode, 2)]
    if mode == "fine":
        tol = fine_bound(name, case)
        if tol > 1e-10:
            mode = "fine, special orbits"
    ctx.max(f"{mode}: largest relative error", e)
    if not e <= tol * LAX:
        raise Violation(
            f"{name} is wrong by {e:.3g} (> {tol:g}; {mode}, "
            f"f={case.get('f', 0):.6g}, theta={float(sol.geo.theta):.6g}, "
            f"ecc={float(sol.ecc()):.6g}): {show(out)}; {flies(case, out[0], out[1])}")
