"""Shared by the property modules: solvers, tolerances and oracles."""

import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Raised, Violation, attempt

PI = math.pi

ALL = ["gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990",
       "der2011", "thorne2004", "avanzini2008", "arora2013", "vallado2013",
       "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
MULTI = ["gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024",
         "mcelreath2025", "delatorre2018"]
ROBUST = MULTI
ZERO_ONLY = [s for s in ALL if s not in MULTI]

# rough relative cost of one call, to balance the shards
SLOW = {"pan2016": 14.0, "delatorre2018": 3.0, "avanzini2008": 3.0, "negrete2024": 2.0}

TIGHT = {"atol": 1e-10, "rtol": 1e-10, "maxiter": 100}


def tight(name):
    """Tolerances as tight as the time equation of the solver allows."""
    if name in ("vallado2013", "pan2016"):
        # near one revolution their time equation amplifies rounding errors
        return {"atol": 1e-8, "rtol": 1e-8, "maxiter": 100}
    return TIGHT


# what a call may raise
CLEAN = ("ValueError", "RuntimeError")


def solver(name):
    import lamberthub

    return getattr(lamberthub, name)


def run_solver(ctx, name, case, full=False, **over):
    """(v1, v2[, numiter, tpi]) or Raised."""
    r1, r2 = gen.arrays(case)
    kw = dict(case.get("kw") or {})
    kw.update(over)
    M = kw.pop("M", case["M"])
    pro = kw.pop("is_prograde", case["pro"])
    low = kw.pop("is_low_path", case["low"])
    if full:
        kw["full_output"] = True
    return attempt(ctx, solver(name), case["mu"], r1, r2, case["tof"],
                   M, pro, low, **kw)


def good_vector(v):
    return (isinstance(v, np.ndarray) and v.shape == (3,)
            and v.dtype == np.float64 and bool(np.all(np.isfinite(v))))


def vel_error(sol, v1, v2):
    """Largest relative error of both velocities against the reference."""
    if not (good_vector(v1) and good_vector(v2)):
        return float("inf")
    return max(ref.rel(v1, sol.v1), ref.rel(v2, sol.v2))


def pair_error(a, b):
    """Largest relative difference between two (v1, v2)."""
    e = 0.0
    for x, y in zip(a[:2], b[:2]):
        if not (good_vector(x) and good_vector(y)):
            return float("inf")
        s = max(np.max(np.abs(x)), np.max(np.abs(y)))
        if s == 0:
            return float("inf")
        e = max(e, float(np.linalg.norm(x / s - y / s) / np.linalg.norm(y / s)))
    return e


def theta_of(case):
    return float(ref.Geometry(case["r1"], case["r2"], case["pro"]).theta)


def flies(case, v1, v2):
    """Independent confirmation: Kepler propagation of the returned state."""
    try:
        r, v = ref.propagate(case["mu"], case["r1"], v1, case["tof"])
        return f"propagated, it misses r2 by {ref.rel(case['r2'], r):.2g} and v2 by {ref.rel(v2, v):.2g}"
    except Exception as e:
        return f"it does not propagate: {e}"


def show(out):
    if isinstance(out, Raised):
        return repr(out)
    return "v1=%s v2=%s" % (np.array2string(np.asarray(out[0]), precision=9),
                            np.array2string(np.asarray(out[1]), precision=9))


@st.composite
def big_units(draw):
    """(mu, L): any unit system in which lengths and times are large numbers."""
    L = 10.0 ** draw(st.floats(3.0, 9.0))
    T = 10.0 ** draw(st.floats(2.5, 8.0))
    return L**3 / T**2, L


@st.composite
def in_big_units(draw, case):
    mu, L = draw(big_units())
    gen.scale_problem(case, mu, L)
    case["units"] = "any"
    return case


# Bounds are multiplied by this when they are being calibrated
LAX = float(os.environ.get("PBT_LAX", "1"))


def solver_shards(names, n, tier, thorough=30, parts=4, **kw):
    """One shard per solver (several in the thorough tier)."""
    out = []
    for s in names:
        k = n / (4 if s == "pan2016" else 1)
        if tier != "quick":
            k *= thorough
        np_ = 1 if tier == "quick" else parts
        for i in range(np_):
            out.append(dict(name=s + (f"-{i}" if i else ""), solver=s,
                            n=max(1, int(k / np_)), cost=SLOW.get(s, 1),
                            cache=s, **kw))
    return out


# Where each method is known to work with tight tolerances, for transfer
# angles at least 0.05 rad away from 0, 180 and 360 degrees and radius ratios
# between 0.1 and 10: times of flight relative to the parabolic one, short way
# and long way.
DOMAIN0 = {s: ((0.05, 300.0), (0.05, 300.0)) for s in ALL}
DOMAIN0["vallado2013"] = ((0.3, 100.0), (0.6, 100.0))
DOMAIN0["pan2016"] = ((0.3, 100.0), (0.6, 100.0))
DOMAIN0["gauss1809"] = None


def in_domain0(name, theta, f, rho):
    if name == "gauss1809":
        # the series of Gauss' second equation must converge, and quickly
        return theta < 1.0 and 0.5 <= f <= 1.3 and 0.5 <= rho <= 2
    lo, hi = DOMAIN0[name][0 if theta < PI else 1]
    return lo <= f <= hi


@st.composite
def direct(draw, name, near=0.05, span=1.0, which_units=(0,)):
    """A zero-revolution problem within the domain of the solver."""
    if name == "gauss1809":
        th = draw(st.floats(0.05, 0.99))
        rho = 10.0 ** draw(st.floats(-0.3, 0.3))
        f = draw(st.floats(0.5, 1.3))
        x, y = draw(gen.plane())
        c = make_case(x, y, rho, th, f)
        c["low"] = draw(st.booleans())
        nm, mu, L = draw(gen.units(which_units))
        if nm != "canonical":
            gen.scale_problem(c, mu, L)
        c["units"] = nm
        return c
    c = draw(gen.problem0(near=near, span=span, flo=-1.3, fhi=math.log10(299.0),
                          which_units=which_units))
    lo, hi = DOMAIN0[name][0 if theta_of(c) < PI else 1]
    if not lo <= c["f"] <= hi:
        # fold it into the domain
        f = lo * (hi / lo) ** draw(gen.unit())
        c["tof"] *= f / c["f"]
        c["f"] = f
    return c


def make_case(x, y, rho, th, f, M=0):
    """Canonical case from the orthonormal basis of its plane."""
    r1 = [1.0 * a for a in x]
    r2 = gen._vec(x, y, rho, th)
    hz = r1[0] * r2[1] - r1[1] * r2[0]
    pro = (hz >= 0) if th < PI else not (hz >= 0)
    geo = ref.Geometry(r1, r2, pro)
    if M == 0:
        tof = float(ref.tof_parabolic(ref.ONE, geo)) * f
    else:
        tof = float(ref.tof_min(ref.ONE, geo, M)) * (1.0 + f)
    return {"mu": 1.0, "r1": r1, "r2": r2, "tof": tof, "M": M, "pro": bool(pro),
            "low": True, "f": f, "units": "canonical"}


# How far each solver still manages when one thing at a time is extreme: gap to 180
# degrees, gap to 0, gap to 360, fastest transfer below and above 180 degrees.
WIDE0 = {
    "battin1984": (1e-7, 1e-5, 0.05, 1e-5, 1e-5),
    "jiang2016": (1e-6, 1e-5, 1e-5, 1e-3, 1e-3),
    "pan2016": (1e-7, 1e-4, 1e-4, 0.3, 0.6),
    "gooding1990": (1e-7, 1e-5, 1e-5, 1e-5, 1e-5),
    "der2011": (1e-7, 1e-5, 1e-5, 1e-5, 1e-5),
    "thorne2004": (1e-7, 1e-5, 1e-5, 1e-5, 1e-5),
    "avanzini2008": (1e-7, 1e-4, 1e-3, 1e-4, 1e-2),
    "arora2013": (1e-7, 1e-4, 1e-4, 0.05, 1e-3),
    "vallado2013": (1e-7, 1e-4, 1e-4, 0.3, 0.6),
    "izzo2015": (1e-7, 1e-4, 1e-4, 1e-5, 1e-5),
    "negrete2024": (1e-7, 1e-3, 1e-3, 1e-2, 1e-2),
    "mcelreath2025": (1e-7, 1e-3, 1e-3, 1e-3, 1e-3),
    "delatorre2018": (1e-7, 1e-4, 1e-4, 1e-3, 1e-3),
}
# The same for multi-revolution problems: the smallest gap to 0 and to 360 degrees
WIDEM = {"arora2013": 1e-3, "negrete2024": 1e-3, "delatorre2018": 1e-3}


def apart(draw, k):
    """A ratio of radii, away from one next to 0 and 360 degrees."""
    e = draw(st.floats(-1, 1))
    if k in ("zero", "turn"):
        e = math.copysign(0.1 + 0.9 * abs(e), e)
    return 10.0 ** e


@st.composite
def wide_direct(draw, name):
    """A direct transfer with one extreme feature, within the reach of the solver."""
    gap, zero, turn, fast_short, fast_long = WIDE0[name]
    k = draw(st.sampled_from(["pi", "zero", "turn", "fast", "slow", "ratio"]))
    th = draw(st.floats(0.05, 2 * PI - 0.05))
    if abs(th - PI) < 1e-6:
        th = 3.0
    if k == "pi":
        g = 0.05 * (gap / 0.05) ** draw(gen.unit())
        th = PI + (g if draw(st.booleans()) else -g)
    elif k == "zero":
        th = 0.05 * (zero / 0.05) ** draw(gen.unit())
    elif k == "turn":
        th = 2 * PI - 0.05 * (turn / 0.05) ** draw(gen.unit())
    lo, hi = DOMAIN0[name][0 if th < PI else 1]
    if k == "fast":
        fast = fast_short if th < PI else fast_long
        f = lo * (fast / lo) ** draw(gen.unit())
    elif k == "slow":
        f = 10.0 ** draw(st.floats(2, 4))
    else:
        f = lo * (hi / lo) ** draw(gen.unit())
    if k == "ratio":
        rho = 10.0 ** draw(st.floats(-5, 5))
    else:
        rho = apart(draw, k)
    x, y = draw(gen.plane())
    c = make_case(x, y, rho, th, f)
    c["low"] = draw(st.booleans())
    c["wide"] = k
    c["kw"] = {"atol": 1e-8, "rtol": 1e-8, "maxiter": 100}
    return c


@st.composite
def wide_multi(draw, name):
    """A feasible multi-revolution problem with one extreme feature."""
    gap = WIDEM.get(name, 5e-5)
    k = draw(st.sampled_from(["pi", "zero", "turn", "slow", "slow", "ratio", "M"]))
    kw = draw(st.sampled_from([{}, {"atol": 1e-8, "rtol": 1e-8, "maxiter": 100}, TIGHT]))
    low = draw(st.booleans())
    th = draw(st.floats(0.05, 2 * PI - 0.05))
    if abs(th - PI) < 1e-6:
        th = 3.0
    if k == "pi":
        g = 0.05 * 1e-5 ** draw(gen.unit())
        th = PI + (g if draw(st.booleans()) else -g)
    elif k == "zero":
        th = 0.05 * (gap / 0.05) ** draw(gen.unit())
    elif k == "turn":
        th = 2 * PI - 0.05 * (gap / 0.05) ** draw(gen.unit())
    if k == "slow":
        # delatorre2018 runs out of the default number of iterations, and the other two
        # lose the solution to rounding errors
        short = (name == "delatorre2018" and low and not kw
                 or name in ("arora2013", "negrete2024"))
        f = 10.0 ** draw(st.floats(0, 2.5 if short else 6))
    else:
        f = 10.0 ** draw(st.floats(-2, 0))
    rho = 10.0 ** draw(st.floats(-4, 4)) if k == "ratio" else apart(draw, k)
    M = draw(st.integers(1, 10))
    if k == "M":
        M = int(10.0 ** draw(st.floats(1, 2 if name == "negrete2024" else 3)))
    x, y = draw(gen.plane())
    c = make_case(x, y, rho, th, f, M)
    c["low"] = low
    c["kw"] = kw
    c["wide"] = k
    return c


def sqrt_slack(case):
    """Loss of accuracy of multi-revolution solutions next to the minimum."""
    if case["M"] == 0:
        return 1.0
    return 1.0 + 1.0 / math.sqrt(max(case["f"], 1e-16))


# Fine mode: well conditioned problems and tolerances near rounding errors, so
# that answers are compared to ten digits.
FINE = {"atol": 1e-13, "rtol": 1e-13, "maxiter": 200}
SPECIAL = {"jiang2016": 1e-5, "pan2016": 5e-5, "thorne2004": 1e-6, "der2011": 1e-6}


@st.composite
def fine(draw, name, multi=None):
    """A problem far from every singularity but the parabola and minimum energy."""
    if multi is None:
        multi = name in MULTI and draw(st.booleans())
    if multi:
        c = draw(gen.problem_m(near=0.3, hi_gap=0.3, span=0.4, flo=-1.0, fhi=1.0, mmax=5))
    elif name == "gauss1809":
        c = draw(direct(name, near=0.3))
    else:
        c = draw(gen.problem0(near=0.3, hi_gap=0.3, span=0.4, flo=-0.7, fhi=1.3))
    c["kw"], c["fine"] = FINE, True
    return c


def fine_bound(name, case):
    if name in SPECIAL and case["M"] == 0:
        geo = ref.Geometry(case["r1"], case["r2"], case["pro"])
        g = gen.minimum_energy_factor(geo)
        if abs(case["f"] - 1) < 0.03 or abs(case["f"] / g - 1) < 0.03:
            return SPECIAL[name]
    return 1e-10


def refuses_fine(case):
    """Whether an exception may be due to tolerances next to rounding errors."""
    return bool(case.get("fine"))
