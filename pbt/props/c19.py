"""C19: anomaly conversions and Kepler's equations are exact inverses and true."""

import mpmath as mp

from pbt.props.common import *

RULE = ("Hypothesis draws a conic (eccentricities of 0 to 1e3, 0 and 1 exactly, within 1e-16 "
        "to 1e-1 of 0 and 1, and negative ones) and an anomaly within its domain, apses, "
        "asymptotes and values next to them included; every case is non-trivial: each "
        "conversion is compared with the definition of the anomaly in extended precision, "
        "inverted, negated, and the mean anomaly with the time of two-body motion")
ASSUMPTIONS = ["mpmath and numpy.longdouble elementary functions"]

LD = ref.LD
EPS = 2.220446049250313e-16
ONE, TWO = ref.ONE, ref.TWO


def shards(tier):
    k = 1 if tier == "quick" else 40
    return [dict(name=f"{m}{i}", n=8000 * k, jit=m == "compiled", cost=2)
            for m in ("compiled", "interpreted") for i in ("", "-2", "-3", "-4")]


def strategy(shard):
    @st.composite
    def s(draw):
        k = draw(st.sampled_from("eeehhpzn"))
        if k == "p":
            ecc = 1.0
        elif k == "z":
            ecc = draw(st.sampled_from([0.0, 0.5, 0.1, 2.0, 1.5, math.nextafter(1, 0),
                                        math.nextafter(1, 2), 5e-324, 1e-300, 0.9, 0.99]))
        elif k == "n":
            ecc = -(10.0 ** draw(st.floats(-300, 3))) if draw(st.booleans()) else draw(
                st.sampled_from([-5e-324, -1.0, -0.5, -2.0, -1e-16]))
        elif k == "e":
            g = draw(st.sampled_from("ugs"))
            ecc = (draw(st.floats(0, 0.999)) if g == "u" else
                   1 - 10.0 ** draw(st.floats(-15, -1)) if g == "g" else
                   10.0 ** draw(st.floats(-16, -0.01)))
        else:
            g = draw(st.sampled_from("ugl"))
            ecc = (draw(st.floats(1.001, 10)) if g == "u" else
                   1 + 10.0 ** draw(st.floats(-15, -1)) if g == "g" else
                   10.0 ** draw(st.floats(0.01, 3)))
        # the anomaly as a fraction of its range
        g = draw(st.sampled_from("uuszt"))
        if g == "u":
            u = draw(st.floats(-1, 1))
        elif g == "s":
            u = draw(st.sampled_from([0.0, 0.5, -0.5, 1 / 3, 0.25, 0.9]))
        elif g == "z":
            u = 10.0 ** draw(st.floats(-12, -1))
        else:
            u = 1 - 10.0 ** draw(st.floats(-9, -1))
        if draw(st.booleans()):
            u = -u
        if abs(u) < 1e-250:
            u = 0.0
        h = draw(st.floats(-12, 12))
        if draw(st.integers(0, 3)) == 3:
            h = math.copysign(10.0 ** draw(st.floats(1, 3.9)), h)
        return {"ecc": ecc, "u": u, "H": 0.0 if abs(h) < 1e-250 else h,
                "neighbour": 10.0 ** draw(st.floats(-6, 0))}

    return s()


def to_ld(x):
    """Extended precision number from a multi-precision one."""
    return LD(mp.nstr(x, 25))


def multi(f):
    def g(x, e):
        with mp.workdps(60):
            return to_ld(f(mp.mpf(float(x)), mp.mpf(float(e))))
    return g


# the definitions of the anomalies
E_of_nu = multi(lambda nu, e: mp.atan2(mp.sqrt(1 - e * e) * mp.sin(nu), e + mp.cos(nu)))
nu_of_E = multi(lambda E, e: mp.atan2(mp.sqrt(1 - e * e) * mp.sin(E), mp.cos(E) - e))
H_of_nu = multi(lambda nu, e: mp.asinh(
    mp.sqrt(e * e - 1) * mp.sin(nu) / (1 + e * mp.cos(nu))))
nu_of_H = multi(lambda H, e: mp.atan2(mp.sqrt(e * e - 1) * mp.sinh(H), e - mp.cosh(H)))


def check(ctx, shard, case):
    import lamberthub.utils.angles as A
    import lamberthub.utils.kepler as K

    ecc, u = case["ecc"], case["u"]
    e = LD(ecc)
    ctx.nontrivial = True

    def call(f, *args):
        out = attempt(ctx, f, *args)
        if isinstance(out, Raised):
            raise Violation(f"{f.__name__}{args} raises {out!r}")
        return float(out)

    def near(what, got, want, tol):
        err = float(abs(LD(got) - LD(want)))
        tol += 1e-320
        ctx.max(f"error of {what.split('(')[0]} over its conditioning", err / tol * 8)
        if not err <= tol * 4 * LAX:
            raise Violation(f"{what} = {got!r}, it is {float(want)!r} (error {err:.3g}, "
                            f"allowed {4 * tol:.3g})")

    def odd(f, x, y, *args):
        z = call(f, -x, *args)
        if not abs(z + y) <= 4 * EPS * abs(y) * LAX:
            raise Violation(f"{f.__name__}{(x, *args)} = {y!r} but {(-x, *args)} gives {z!r}")

    def rising(f, x, y, lim, *args):
        """f(x') >= y for x' beyond x, within the domain."""
        x2 = x + (lim - x) * case["neighbour"] * 0.5
        if x2 > x:
            y2 = call(f, x2, *args)
            if not y2 >= y - 8 * EPS * max(abs(y), 1e-300) * LAX:
                raise Violation(f"{f.__name__} decreases: {y!r} at {(x, *args)}, {y2!r} at {x2!r}")

    if ecc < 0:
        ctx.label("negative eccentricity")
        out = attempt(ctx, K.kepler_from_nu, PI * u, ecc)
        if not isinstance(out, Raised) or not isinstance(out.exc, ValueError):
            raise Violation(f"kepler_from_nu accepts a negative eccentricity {ecc!r}: {out!r}")
        return
    if ecc < 1:
        ctx.label("elliptic")
        nu = float(u * PI)
        E = call(A.nu_to_E, nu, ecc)
        want = E_of_nu(LD(nu), e)
        slope = float(np.sqrt(ONE - e) * np.sqrt(ONE + e) / (ONE + e * np.cos(LD(nu))))
        near(f"nu_to_E({nu!r}, {ecc!r})", E, want, EPS * (abs(E) + abs(nu) * slope) * 2)
        odd(A.nu_to_E, nu, E, ecc)
        rising(A.nu_to_E, nu, E, PI, ecc)
        back = call(A.E_to_nu, E, ecc)
        near(f"E_to_nu(nu_to_E({nu!r}), {ecc!r})", back, nu,
             EPS * (abs(nu) + abs(E) / slope) * 4)
        x = nu  # the same number as an eccentric anomaly
        v = call(A.E_to_nu, x, ecc)
        want = nu_of_E(LD(x), e)
        slope = float(np.sqrt(ONE - e) * np.sqrt(ONE + e) / (ONE - e * np.cos(LD(x))))
        near(f"E_to_nu({x!r}, {ecc!r})", v, want, EPS * (abs(v) + abs(x) * slope) * 2)
        odd(A.E_to_nu, x, v, ecc)
        rising(A.E_to_nu, x, v, PI, ecc)
        M = call(K.kepler_elliptic, x, ecc)
        near(f"kepler_elliptic({x!r}, {ecc!r})", M, LD(x) - e * np.sin(LD(x)), EPS * 2 * abs(x) + 1e-320)
        M = call(K.kepler_from_nu, nu, ecc)
        Ex = E_of_nu(LD(nu), e)
        slope = float(np.sqrt(ONE - e) * np.sqrt(ONE + e) / (ONE + e * np.cos(LD(nu))))
        near(f"kepler_from_nu({nu!r}, {ecc!r})", M, Ex - e * np.sin(Ex),
             EPS * 4 * (abs(float(Ex)) + abs(nu) * slope * (1 - ecc * math.cos(float(Ex)))) + 1e-320)
        time(ctx, ecc, nu, M)
    elif ecc == 1:
        ctx.label("parabolic")
        nu = float(u * PI)
        if abs(nu) >= PI:
            nu = math.copysign(3.1, nu)
        B = call(A.nu_to_B, nu)
        want = np.sin(LD(nu) / 2) / np.cos(LD(nu) / 2)
        cond = float(abs(want) + abs(LD(nu)) / 2 / np.cos(LD(nu) / 2) ** 2)
        near(f"nu_to_B({nu!r})", B, want, EPS * cond * 2)
        odd(A.nu_to_B, nu, B)
        rising(A.nu_to_B, nu, B, PI * (1 - 1e-12))
        near(f"B_to_nu(nu_to_B({nu!r}))", call(A.B_to_nu, B), nu, 4 * EPS * abs(nu))
        b = case["H"] * (1e3 if case["neighbour"] < 1e-3 else 1)
        v = call(A.B_to_nu, b)
        near(f"B_to_nu({b!r})", v, 2 * np.arctan(LD(b)), EPS * 2 * abs(v))
        odd(A.B_to_nu, b, v)
        rising(A.B_to_nu, b, v, b + 10)
        near(f"kepler_parabolic({b!r})", call(K.kepler_parabolic, b), LD(b) + LD(b) ** 3 / 3,
             EPS * 4 * (abs(b) + abs(b) ** 3))
        M = call(K.kepler_from_nu, nu, draw_one(case))
        B = want
        near(f"kepler_from_nu({nu!r}, 1)", M, B + B ** 3 / 3,
             EPS * 4 * cond * float(1 + B * B))
        if abs(nu) < 3.1:
            time(ctx, ecc, nu, M)
    else:
        ctx.label("hyperbolic")
        lim = float(PI - np.arctan2(np.sqrt(e - ONE) * np.sqrt(e + ONE), ONE))
        nu = float(u * lim)
        if ONE + e * np.cos(LD(nu)) > LD(1e-9) * (e - 1):
            H = call(A.nu_to_H, nu, ecc)
            want = H_of_nu(LD(nu), e)
            slope = float(np.sqrt(e - ONE) * np.sqrt(e + ONE) / (ONE + e * np.cos(LD(nu))))
            cond = abs(float(want)) + float(np.sinh(abs(want))) + abs(nu) * slope
            if cond * EPS < 1e-3:
                near(f"nu_to_H({nu!r}, {ecc!r})", H, want, EPS * cond * 2)
                odd(A.nu_to_H, nu, H, ecc)
                M = call(K.kepler_from_nu, nu, ecc)
                near(f"kepler_from_nu({nu!r}, {ecc!r})", M, e * np.sinh(want) - want,
                     EPS * 4 * (abs(float(want)) + ecc * abs(float(np.sinh(want)))
                                + cond * (ecc * math.cosh(float(want)) - 1)))
                back = call(A.H_to_nu, H, ecc)
                near(f"H_to_nu(nu_to_H({nu!r}), {ecc!r})", back, nu,
                     EPS * 4 * (abs(nu) + cond / slope))
                if abs(float(want)) < 8:
                    time(ctx, ecc, nu, M)
        h = case["H"]
        v = call(A.H_to_nu, h, ecc)
        want = nu_of_H(LD(h), e)
        slope = float(np.sqrt(e - ONE) * np.sqrt(e + ONE) / (e * np.cosh(LD(h)) - 1)) if h else 0
        near(f"H_to_nu({h!r}, {ecc!r})", v, want, EPS * 2 * (abs(v) + abs(h) * slope))
        odd(A.H_to_nu, h, v, ecc)
        rising(A.H_to_nu, h, v, h + 5, ecc)
        if abs(h) > 700:
            return
        M = call(K.kepler_hyperbolic, h, ecc)
        near(f"kepler_hyperbolic({h!r}, {ecc!r})", M, e * np.sinh(LD(h)) - LD(h),
             EPS * 2 * (abs(h) + ecc * math.sinh(abs(h))))


def draw_one(case):
    return 1 if case["neighbour"] < 1e-3 else 1.0


def time(ctx, ecc, nu, M):
    """Two-body motion for the time of M since periapsis sweeps nu."""
    e = LD(ecc)
    if abs(ecc - 1) < 1e-6 and ecc != 1:
        return
    if ecc == 1:
        q, v, t = ONE / 2, TWO, LD(M) / 2
    else:
        q = abs(ONE - e)
        v = np.sqrt((ONE + e) / q)
        t = LD(M)
    if abs(t) < 1e-12 or abs(nu) > 3.14:
        return
    # t may be negative: the motion is symmetric
    try:
        r, _ = ref.propagate(ONE, [q, ref.ZERO, ref.ZERO], [ref.ZERO, v, ref.ZERO], abs(t))
    except ref.Degenerate:
        ctx.label("not timed: beyond the range of the propagator")
        return
    got = float(np.arctan2(r[1], r[0]))
    got = math.copysign(got, M) if abs(got) < 3.2 else got
    rr = float(ref.norm(r))
    # rounding errors of M (time) at this point of the orbit, and of nu
    w = float(np.sqrt(q * (ONE + e)) / (rr * rr))
    tol = 1e-9 * abs(nu) + 400 * EPS * (abs(nu) + w * (abs(M) + 1) + 1 / max(1e-3, PI - abs(nu)) / abs(ecc - 1 or 1))
    if not abs(got - nu) <= tol * LAX:
        raise Violation(f"two-body motion sweeps {got!r} in the time of the mean anomaly {M!r} of "
                        f"{nu!r} with eccentricity {ecc!r}")
    ctx.label("timed")
