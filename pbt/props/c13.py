"""C13: singular and extreme problems end in a valid solution or a clean error."""

from pbt.props.common import *

RULE = ("Hypothesis draws collinear and nearly collinear positions (gaps of 0 to 1e-2 rad "
        "to 0, 180 and 360 degrees), radius ratios of 1e-6 to 1e6, times of flight of 1e-6 "
        "to 1e6 parabolic ones, scales of 1e-15 to 1e15 and up to 100 revolutions, for every "
        "solver; every case is non-trivial: a finite answer is compared with the reference, "
        "within what perturbing the data by rounding errors changes it")
ASSUMPTIONS = [
    "the conditioning of a problem is that of the reference under perturbations of its data",
]


def shards(tier):
    return solver_shards(ALL, 1500, tier)


AX = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.0],
      [3.0, -4.0, 0.0], [1.0, 2.0, -2.0], [-5.0, 3.0, 0.25]]


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(["collinear", "near", "near", "ratio", "tof", "tof",
                                     "all", "scale", "mild"]))
        pro, low = draw(st.booleans()), draw(st.booleans())
        M = 0
        if name in MULTI and draw(st.integers(0, 3)) == 0:
            M = draw(st.sampled_from([1, 2, 5, 20, 100]))
        kw = draw(st.sampled_from(["tight", "default", "loose"]))
        kw = {"tight": tight(name), "default": {},
              "loose": {"atol": 1e-4, "rtol": 1e-4, "maxiter": 60}}[kw]
        if kind == "collinear":
            a = draw(st.sampled_from(AX)) if draw(st.booleans()) else [
                draw(st.floats(-2, 2)) for _ in range(3)]
            if max(abs(x) for x in a) < 1e-3:
                a = [1.0, 0.0, 0.0]
            k = draw(st.sampled_from([2.0, 0.5, -1.0, -2.0, 3.0, -0.7, 1.1, 1e3, -1e-3]))
            r1, r2 = list(a), [k * x for x in a]
            if draw(st.integers(0, 3)) == 0:
                i = draw(st.integers(0, 2))
                r2[i] += draw(st.sampled_from([1e-16, -1e-16, 3e-16, 1e-15, -1e-14])) * abs(k)
                if draw(st.integers(0, 3)) == 0:
                    # the smallest angles there are
                    r2 = list(a)
                    r2[i] += draw(st.sampled_from([1e-17, -1e-20, 1e-100, 1e-160, -1e-300]))
            if r1 == r2:
                r2 = [2.0 * x for x in r1]
            tof = 10.0 ** draw(st.floats(-2, 3))
            return {"kind": kind, "mu": 1.0, "r1": r1, "r2": r2, "tof": tof, "M": M,
                    "pro": pro, "low": low, "kw": kw}
        th = draw(st.floats(0.05, 2 * PI - 0.05))
        if kind in ("near", "all"):
            g = 10.0 ** draw(st.floats(-14, -1.3))
            th = draw(st.sampled_from([g, 2 * PI - g, PI + g, PI - g]))
        if abs(th - PI) < 0.05 and kind not in ("near", "all"):
            th = PI + 0.05
        rho = 10.0 ** draw(st.floats(-1, 1))
        if kind in ("ratio", "all"):
            rho = 10.0 ** draw(st.floats(-6, 6))
        elif draw(st.booleans()):
            rho = 1.0
        f = 10.0 ** draw(st.floats(-1.3, 2))
        if kind in ("tof", "all"):
            f = 10.0 ** draw(st.floats(-6, 6))
        x, y = draw(gen.plane())
        c = make_case(x, y, rho, th, f, 0)
        if M:
            f = 10.0 ** draw(st.floats(-6, 3))
            try:
                geo = ref.Geometry(c["r1"], c["r2"], c["pro"])
                c["tof"] = float(ref.tof_min(ref.ONE, geo, M)) * (1.0 + f)
            except Exception:
                M = 0
        c["M"] = M
        c["low"], c["f"] = low, f
        if kind == "scale":
            L = 10.0 ** draw(st.floats(-15, 15))
            T = 10.0 ** draw(st.floats(-15, 15))
            gen.scale_problem(c, L**3 / T**2, L)
            c["units"] = "scale"
        elif draw(st.integers(0, 3)) == 0:
            nm, mu, L = draw(gen.units((1, 4)))
            gen.scale_problem(c, mu, L)
            c["units"] = nm
        c["kind"], c["kw"] = kind, kw
        return c

    return s()


def wiggle(case, i):
    """The case with its data changed by a few rounding errors."""
    e = 4e-16
    rnd = np.random.default_rng(i)
    c = dict(case)
    for k in ("r1", "r2"):
        n = max(abs(a) for a in case[k])
        c[k] = [a + n * e * rnd.uniform(-1, 1) for a in case[k]]
    c["tof"] = case["tof"] * (1 + e * rnd.uniform(-1, 1))
    return c


def spread(case, sol):
    """How much rounding errors of the data change the reference solution."""
    w = 0.0
    for i in range(6):
        try:
            c = wiggle(case, i)
            g = ref.Geometry(c["r1"], c["r2"], case["pro"])
            if ref.dot(g.h, sol.geo.h) < 0:
                # the same sense of motion, whichever it is called
                c["pro"] = not case["pro"]
            s = gen.reference(c)
        except (ref.NoSolution, ref.Degenerate):
            return float("inf")
        w = max(w, float(ref.norm([a - b for a, b in zip(s.v1, sol.v1)]) / ref.norm(sol.v1)),
                float(ref.norm([a - b for a, b in zip(s.v2, sol.v2)]) / ref.norm(sol.v2)))
    return w


def base(name, case):
    """What the requested tolerances allow for, or None if it can not be told."""
    if case["kind"] == "scale" and min(
            float(np.linalg.norm(case["r1"])), float(np.linalg.norm(case["r2"])),
            case["tof"]) < 1.0:
        # some tolerances are absolute, in the units of the problem
        return None
    f = case.get("f", 1.0)
    if case["kw"].get("atol", 1) > 1e-7:
        # absolute tolerances of non-dimensional times
        geo = ref.Geometry(case["r1"], case["r2"], case["pro"])
        s = float(geo.s)
        t = case["tof"] * math.sqrt(case["mu"] / s**3)
        if case["kind"] in ("scale", "near", "all") or case["M"] > 2 or t < 0.1 or f < 0.05:
            return None
        return 0.3
    if case["M"] == 0 and f < 1e-3:
        # the difference of times cancels
        return 0.05 + 1e-12 / f**2
    return 2e-2 if case["kind"] in ("near", "all", "ratio") else 1e-4


def check(ctx, shard, case):
    name = shard["solver"]
    out = run_solver(ctx, name, case)
    ctx.nontrivial = True
    kind = case["kind"]
    if isinstance(out, Raised):
        ctx.label(f"{kind}: raised")
        if not isinstance(out.exc, (ValueError, RuntimeError)):
            raise Violation(f"{name} fails with {out!r} for a problem of kind {kind}")
        return
    ctx.label(f"{kind}: returned")
    if not (good_vector(out[0]) and good_vector(out[1])):
        raise Violation(f"{name} returns non-finite velocities ({kind}): {show(out)}")
    try:
        sol = gen.reference(case)
    except ref.Degenerate:
        # exactly collinear, or beyond the range of the reference
        ctx.label("degenerate")
        if kind == "collinear" and case["kw"].get("atol", 1) < 1e-7:
            collinear(ctx, name, case, out)
        return
    except ref.NoSolution:
        ctx.label("no solution")
        return
    theta0 = float(sol.geo.theta0)
    if min(theta0, PI - theta0) < (1e-3 if kind == "all" else 1e-5):
        # the geometry itself is lost to the rounding errors of the distances
        ctx.label("too close to singular to judge the values")
        return
    b = base(name, case)
    if b is None:
        ctx.label("tolerances do not bound the error")
        return
    e = vel_error(sol, out[0], out[1])
    if e > b:
        w = spread(case, sol)
        ctx.max(f"error over conditioning ({kind})", e / max(w, 1e-300))
        b = max(b, 100 * w)
    else:
        ctx.max(f"error, well conditioned ({kind}, {'tight' if b < 1e-2 else 'loose'})", e)
    if not e <= b * LAX:
        raise Violation(
            f"{name} is wrong by {e:.3g}, rounding errors of the data explain {b:.3g} "
            f"({kind}, theta={float(sol.geo.theta):.12g}, theta0={float(sol.geo.theta0):.3g}, "
            f"f={case.get('f', 0):.3g}, M={case['M']}): {show(out)}; "
            f"{flies(case, out[0], out[1])}")


def collinear(ctx, name, case, out):
    """The answer has to fly the transfer all the same."""
    r1, r2 = gen.arrays(case)
    try:
        r, v = ref.propagate(case["mu"], case["r1"], out[0], case["tof"])
        e = max(ref.rel(case["r2"], r), ref.rel(out[1], v))
    except Exception:
        e = float("inf")
    if not e <= 1e-2 * LAX:
        raise Violation(f"{name} answers collinear positions with velocities which miss by "
                        f"{e:.3g}: {show(out)}")
