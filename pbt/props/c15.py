"""C15: results are converged to the requested tolerance or the solver raises."""

from pbt.props.common import *

RULE = ("Hypothesis draws a direct or multi-revolution problem, tolerances of 1e-4 to 1e-12 and "
        "a limit of 1 to 100 iterations, half of the times one of a dozen at most; non-trivial "
        "when the solver returns within the limit: the answer is compared with the reference "
        "and with the one for a limit of 200 iterations")

# Accuracy which solvers do not go below however tight the tolerances: that of
# their time equations, measured for the problems drawn here.
FLOOR = {"jiang2016": 3e-7, "thorne2004": 4e-8, "negrete2024": 1e-8, "pan2016": 1e-7,
         "der2011": 1e-8, "gooding1990": 1e-12, "izzo2015": 1e-12}
# Errors are below the tolerance times this (a hundred times less, or more, was measured):
# iterations of high order overshoot the accuracy asked for.
FACTOR = {s: 1000.0 for s in ALL}
FACTOR.update(gooding1990=0.1, izzo2015=0.1, battin1984=30.0, gauss1809=30.0,
              avanzini2008=100.0)
# These fall back to a bracketed search once the limit is reached, or count
# quadrature points instead of iterations: the limit changes their results,
# within the tolerance.
LIMIT_COUNTS = ("negrete2024", "pan2016", "der2011")
LEAST = {"negrete2024": 4}


def shards(tier):
    out = solver_shards(ALL, 4000, tier)
    for i in range(2):
        out.append(dict(name=f"interpreted-{i}", solver=None, jit=False, cost=4,
                        n=800 * (1 if tier == "quick" else 40)))
    return out


def strategy(shard):
    @st.composite
    def s(draw):
        name = shard["solver"] or draw(st.sampled_from(ALL))
        if name in MULTI and draw(st.integers(0, 2)) == 0:
            c = draw(gen.problem_m(near=0.1, mmax=4, flo=-2, fhi=1.5))
        else:
            c = draw(direct(name, near=0.1))
            if name != "gauss1809":
                f = min(max(c["f"], 0.1), 50.0)
                if draw(st.integers(0, 9)) == 0:
                    # next to the parabola
                    f = 1.0 + draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.floats(-8, -2))
                c["tof"] *= f / c["f"]
                c["f"] = f
        c["maxiter"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 100)))
        c["kw"] = {"atol": 10.0 ** -draw(st.integers(4, 12)),
                   "rtol": 10.0 ** -draw(st.integers(4, 12))}
        c["solver"] = name
        return c

    return s()


def check(ctx, shard, case):
    name, k = case["solver"], case["maxiter"]
    a = run_solver(ctx, name, case, full=True, maxiter=k)
    where = (f"theta={theta_of(case):.6g}, f={case['f']:.6g}, M={case['M']}, "
             f"{'low' if case['low'] else 'high'} path, kw={case['kw']}, maxiter={k}")
    if isinstance(a, Raised):
        ctx.label("raised")
        if a.type not in CLEAN:
            raise Violation(f"{name} fails with {a!r} ({where})")
        # it runs out of iterations the same, whatever the output
        return
    ctx.nontrivial = True
    ctx.label("limit up to a dozen" if k <= 12 else "limit above a dozen")
    if not (good_vector(a[0]) and good_vector(a[1])):
        raise Violation(f"{name} returns {show(a)} ({where})")
    if not 0 <= a[2] <= max(k, LEAST.get(name, 0)):
        raise Violation(f"{name} reports {a[2]} iterations ({where})")
    tol = max(case["kw"].values())
    bound = (FACTOR[name] * tol + 100.0 * FLOOR.get(name, 1e-10)) * LAX
    e = vel_error(gen.reference(case), a[0], a[1])
    ctx.max(f"{name}: error over its bound", e / bound)
    if not e <= bound:
        raise Violation(f"{name} returns velocities with an error of {e:.3g} for a tolerance of "
                        f"{tol:.1g} after {a[2]} iterations ({where}): {show(a)}")
    b = run_solver(ctx, name, case, full=True, maxiter=200)
    if isinstance(b, Raised):
        raise Violation(f"{name} answers with {k} iterations, with 200 it raises {b!r} ({where})")
    d = pair_error(a, b)
    if not d <= (bound if name in LIMIT_COUNTS else 1e-12):
        raise Violation(f"{name}, which needs {a[2]} iterations, changes by {d:.3g} when 200 are "
                        f"allowed instead of {k} ({where}): {show(a)}, {show(b)}")
