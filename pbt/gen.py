"""Hypothesis strategies for boundary value problems.

Every generated value is built from bounded Hypothesis draws (nothing is
filtered), so failures shrink towards canonical units, the fundamental plane,
round angles and equal radii.  A *case* is a plain JSON-serialisable dict: the
replay files hold it verbatim and are replayed without Hypothesis.
"""

import math

import numpy as np
from hypothesis import strategies as st

from pbt import ref

PI = math.pi

# (name, mu, length scale) of unit systems: canonical first, it shrinks there
UNITS = [
    ("canonical", 1.0, 1.0),
    ("earth-km", 398600.4418, 7000.0),
    ("sun-au-yr", 39.47692641, 1.0),
    ("sun-km", 132712440018.0, 1.495978707e8),
    ("earth-m", 3.986004418e14, 7.0e6),
    ("moon-km", 4902.800066, 1900.0),
    ("sun-au-day", 2.9591220828559093e-4, 1.0),
]


def unit():
    return st.floats(0.0, 1.0, allow_nan=False)


def log10u(draw, lo, hi):
    return 10.0 ** draw(st.floats(lo, hi))


@st.composite
def angle(draw, near=1e-3, hi_gap=None, strata="gggpzt"):
    """Transfer angle in (0, 2 pi), stratified.

    g generic, z close to 0, t close to 2 pi, p close to pi.
    """
    hi_gap = near if hi_gap is None else hi_gap
    k = draw(st.sampled_from(strata + "s"))
    if k == "g":
        th = draw(st.floats(0.05, 2 * PI - 0.05))
    elif k == "z":
        th = near * (0.3 / near) ** draw(unit())
    elif k == "t":
        th = 2 * PI - hi_gap * (0.3 / hi_gap) ** draw(unit())
    elif k == "p":
        d = near * (0.3 / near) ** draw(unit())
        th = PI + (d if draw(st.booleans()) else -d)
    else:
        th = draw(
            st.sampled_from(
                [PI / 2, PI / 3, PI / 4, 2 * PI / 3, 3 * PI / 4, 1.0, 2.0,
                 3 * PI / 2, 4 * PI / 3, 5 * PI / 4, 7 * PI / 4, 4.0, 5.0]
            )
        )
    lo, hi = near, 2 * PI - hi_gap
    th = min(max(th, lo), hi)
    if abs(th - PI) < near:
        th = PI - near if th < PI else PI + near
    return th


@st.composite
def ratio(draw, span=1.0):
    """|r2|/|r1|."""
    k = draw(st.sampled_from("abcde"))
    if k == "a":
        return 10.0 ** draw(st.floats(-0.2, 0.2))
    if k == "b":
        return 1.0
    if k == "c":
        return 1.0 + (1 if draw(st.booleans()) else -1) * log10u(draw, -9, -2)
    return 10.0 ** draw(st.floats(-span, span))


@st.composite
def plane(draw):
    """Orthonormal (x, y) basis of the transfer plane, as two lists.

    x points to r1 and y completes it so that theta < pi is a rotation about
    x x y.
    """
    k = draw(st.sampled_from("egepgaagx"))
    if k == "e":  # fundamental plane, exactly
        a = draw(st.sampled_from([0.0, 0.0, PI / 2, PI, 1.0])) if draw(
            st.booleans()) else draw(st.floats(0, 2 * PI))
        s = 1.0 if draw(st.booleans()) else -1.0
        c, n = math.cos(a), math.sin(a)
        return [c, n, 0.0], [-n * s, c * s, 0.0]
    if k == "p":  # polar plane containing the z axis, exactly
        ex, ey = draw(st.sampled_from([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]))
        a = draw(st.floats(0, 2 * PI))
        c, n = math.cos(a), math.sin(a)
        return [c * ex, c * ey, n], [-n * ex, -n * ey, c]
    if k == "a":  # nearly equatorial / nearly polar
        inc = draw(st.sampled_from([0.0, PI / 2, PI]))
        d = log10u(draw, -9, -1)
        inc = inc + (d if draw(st.booleans()) else -d)
    elif k == "x":
        inc = draw(st.sampled_from([PI / 4, PI / 3, 3 * PI / 4, PI / 6]))
    else:
        inc = math.acos(1.0 - 2.0 * draw(unit()))
    if abs(math.cos(inc)) < 1e-9:
        # polar up to rounding errors: neither direction is the prograde one
        inc += 1e-6
    raan = draw(st.floats(0, 2 * PI))
    u = draw(st.floats(0, 2 * PI))
    cr, sr, ci, si, cu, su = (math.cos(raan), math.sin(raan), math.cos(inc),
                              math.sin(inc), math.cos(u), math.sin(u))
    x = [cr * cu - sr * su * ci, sr * cu + cr * su * ci, su * si]
    y = [-cr * su - sr * cu * ci, -sr * su + cr * cu * ci, cu * si]
    return x, y


def _vec(x, y, r, th):
    c, s = math.cos(th), math.sin(th)
    return [r * (c * a + s * b) for a, b in zip(x, y)]


@st.composite
def geometry(draw, near=1e-3, hi_gap=None, span=1.0, strata="gggpzt",
             theta=None):
    """(r1, r2, is_prograde, Geometry) in canonical size |r1| = 1."""
    th = draw(theta) if theta is not None else draw(angle(near, hi_gap, strata))
    rho = draw(ratio(span))
    x, y = draw(plane())
    r1 = [1.0 * a for a in x]
    r2 = _vec(x, y, rho, th)
    # the direction of motion that makes th the transfer angle
    hz = x[0] * y[1] - x[1] * y[0]
    if (th < PI):
        c = [r1[1] * r2[2] - r1[2] * r2[1], r1[2] * r2[0] - r1[0] * r2[2],
             r1[0] * r2[1] - r1[1] * r2[0]]
        is_prograde = c[2] >= 0
    else:
        c = [r1[1] * r2[2] - r1[2] * r2[1], r1[2] * r2[0] - r1[0] * r2[2],
             r1[0] * r2[1] - r1[1] * r2[0]]
        is_prograde = not (c[2] >= 0)
    return r1, r2, bool(is_prograde)


@st.composite
def tof_factor0(draw, lo=-2.0, hi=2.5):
    """tof over the parabolic time of flight, M = 0."""
    k = draw(st.sampled_from("abbcde"))
    if k == "a":
        return 10.0 ** draw(st.floats(-0.3, 0.3))
    if k == "c":
        return 1.0 + (1 if draw(st.booleans()) else -1) * log10u(draw, -8, -1)
    if k == "d":
        return 10.0 ** draw(st.floats(0.0, min(1.2, hi)))
    return 10.0 ** draw(st.floats(lo, hi))


@st.composite
def units(draw, which=None):
    k = draw(st.sampled_from(which if which is not None else range(len(UNITS))))
    return UNITS[k]


def scale_problem(case, mu, L):
    """Canonical case (mu = 1, |r1| ~ 1) to other units, in place."""
    case["mu"] = mu
    case["r1"] = [a * L for a in case["r1"]]
    case["r2"] = [a * L for a in case["r2"]]
    case["tof"] = case["tof"] * math.sqrt(L**3 / mu)
    return case


def minimum_energy_factor(geo):
    lam, q2 = geo.lam, geo.q2
    return float(ref.time_of_x(ref.ZERO, lam, q2, 0) / ref.time_of_x(ref.ONE, lam, q2, 0))


@st.composite
def problem0(draw, near=1e-3, hi_gap=None, span=1.0, flo=-2.0, fhi=2.5,
             strata="gggpzt", which_units=(0,), theta=None):
    """A zero-revolution problem."""
    r1, r2, pro = draw(geometry(near, hi_gap, span, strata, theta))
    geo = ref.Geometry(r1, r2, pro)
    if draw(st.integers(0, 9)) == 0:
        # next to the orbit of minimum energy, where x = 0
        f = minimum_energy_factor(geo)
        if draw(st.booleans()):
            f *= 1.0 + (1 if draw(st.booleans()) else -1) * log10u(draw, -12, -2)
        f = min(max(f, 10.0**flo), 10.0**fhi)
    else:
        f = draw(tof_factor0(flo, fhi))
    tof = float(ref.tof_parabolic(ref.ONE, geo)) * f
    case = {"mu": 1.0, "r1": r1, "r2": r2, "tof": tof, "M": 0, "pro": pro,
            "low": draw(st.booleans()), "f": f}
    name, mu, L = draw(units(which_units))
    if name != "canonical":
        scale_problem(case, mu, L)
    case["units"] = name
    return case


@st.composite
def problem_m(draw, near=1e-3, hi_gap=None, span=1.0, flo=-4.0, fhi=2.0,
              mmax=6, strata="gggpzt", which_units=(0,), theta=None):
    """A multi-revolution problem: tof = tof_min(M) (1 + f)."""
    r1, r2, pro = draw(geometry(near, hi_gap, span, strata, theta))
    geo = ref.Geometry(r1, r2, pro)
    M = draw(st.integers(1, mmax))
    f = 10.0 ** draw(st.floats(flo, fhi))
    tof = float(ref.tof_min(ref.ONE, geo, M)) * (1.0 + f)
    case = {"mu": 1.0, "r1": r1, "r2": r2, "tof": tof, "M": M, "pro": pro,
            "low": draw(st.booleans()), "f": f}
    name, mu, L = draw(units(which_units))
    if name != "canonical":
        scale_problem(case, mu, L)
    case["units"] = name
    return case


def arrays(case):
    return np.array(case["r1"], dtype=float), np.array(case["r2"], dtype=float)


def reference(case):
    """Reference solution for the case, from its own doubles."""
    geo = ref.Geometry(case["r1"], case["r2"], case["pro"])
    return ref.solve(case["mu"], case["r1"], case["r2"], case["tof"],
                     case["M"], case["pro"], case["low"], geo=geo)
