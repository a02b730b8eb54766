"""C23: transverse-eccentricity helpers describe the orbits through both positions."""

import mpmath as mp

from pbt.props.common import *

RULE = ("Hypothesis draws two positions (0.02 rad away from collinear at least, ratios of 0.05 to "
        "20), a direction, a gravitational parameter and a transverse component of eccentricity "
        "(within the elliptic range, next to the parabolic limits, null, and hyperbolic ones); "
        "every case with an orbit which joins both positions is non-trivial: its elements, "
        "anomalies and time of flight are compared with those of the orbit in 40 digits")
ASSUMPTIONS = ["mpmath elementary functions in 40 digits"]


def shards(tier):
    k = 1 if tier == "quick" else 40
    return [dict(name=f"{m}{i}", n=2500 * k, jit=m == "compiled", cost=2)
            for m in ("compiled", "interpreted") for i in ("", "-2", "-3", "-4")]


def strategy(shard):
    @st.composite
    def s(draw):
        x, y = draw(gen.plane())
        th = draw(gen.angle(near=0.02))
        rho = draw(gen.ratio(span=1.3))
        c = make_case(x, y, rho, th, 1.0)
        nm, mu, L = draw(gen.units((0, 0, 1, 4)))
        gen.scale_problem(c, mu, L)
        k = draw(st.sampled_from("eeepphhz"))
        sg = draw(st.sampled_from([-1.0, 1.0]))
        u = {"e": lambda: draw(st.floats(-0.99, 0.99)),
             "p": lambda: sg * (1 + draw(st.sampled_from([-1, 1])) *
                                10.0 ** draw(st.floats(-14, -1.5))),
             "h": lambda: sg * (1 + 10.0 ** draw(st.floats(-2, 1.5))),
             "z": lambda: draw(st.sampled_from([0.0, 1e-12, -1e-9, 0.5, -0.5, 1.0, -1.0]))}[k]()
        return {"mu": c["mu"], "r1": c["r1"], "r2": c["r2"], "pro": c["pro"], "u": u, "kind": k}

    return s()


def vec(a):
    return [mp.mpf(float(x)) for x in a]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return mp.sqrt(dot(a, a))


class Orbit:
    """The orbit with transverse eccentricity eT through both positions."""

    def __init__(self, r1, r2, pro, eT):
        r1, r2 = vec(r1), vec(r2)
        self.r1, self.r2 = r1, r2
        h = cross(r1, r2)
        up = h[2] > 0 or (h[2] == 0)
        if up != bool(pro):
            h = [-a for a in h]
        self.h = h = [a / norm(h) for a in h]
        n1, n2 = norm(r1), norm(r2)
        c = [b - a for a, b in zip(r1, r2)]
        nc = norm(c)
        self.n1, self.n2, self.nc = n1, n2, nc
        ic = [a / nc for a in c]
        ip = cross(h, ic)
        self.eF = (n1 - n2) / nc
        self.eT = mp.mpf(eT)
        self.evec = [self.eF * a + self.eT * b for a, b in zip(ic, ip)]
        self.e = norm(self.evec)
        self.p = n1 + dot(self.evec, r1)
        self.th = mp.atan2(dot(h, cross(r1, r2)), dot(r1, r2)) % (2 * mp.pi)
        self.wc = mp.atan2(dot(h, cross(r1, c)), dot(r1, c)) % (2 * mp.pi)
        # true anomaly of r1
        if self.e > mp.mpf(10) ** -30:
            self.nu1 = mp.atan2(dot(h, cross(self.evec, r1)), dot(self.evec, r1))
        else:
            self.nu1 = mp.mpf(0)

    def joins(self):
        """Whether the arc from one position to the other is a finite one."""
        if self.p <= 1e-9 * self.n1:
            return False
        if self.e < 1:
            return True
        lim = mp.acos(-1 / self.e)
        return -lim < self.nu1 and self.nu1 + self.th < lim

    def tof(self, mu):
        e, p = self.e, self.p
        nus = [self.nu1, self.nu1 + self.th]
        if e == 1:
            ds = [mp.tan(nu / 2) for nu in nus]
            m = [(d + d**3 / 3) / 2 for d in ds]
            return mp.sqrt(p**3 / mu) * (m[1] - m[0])
        a = p / (1 - e**2)
        m = []
        for nu in nus:
            if e < 1:
                turns = mp.floor((nu + mp.pi) / (2 * mp.pi))
                E = 2 * mp.atan(mp.sqrt((1 - e) / (1 + e)) * mp.tan((nu - 2 * mp.pi * turns) / 2))
                m.append(E - e * mp.sin(E) + 2 * mp.pi * turns)
            else:
                H = 2 * mp.atanh(mp.sqrt((e - 1) / (e + 1)) * mp.tan(nu / 2))
                m.append(e * mp.sinh(H) - H)
        return mp.sqrt(abs(a) ** 3 / mu) * (m[1] - m[0])


def near(x, y, tol, scale=None):
    x, y = mp.mpf(float(x)), mp.mpf(y)
    return abs(x - y) <= tol * (abs(y) if scale is None else scale)


def turn(x, y):
    """Difference between angles modulo one turn."""
    d = (mp.mpf(float(x)) - y) % (2 * mp.pi)
    return float(min(d, 2 * mp.pi - d))


def check(ctx, shard, case):
    mp.mp.dps = 40
    from lamberthub.ecc_solvers import utils as U

    r1, r2 = gen.arrays(case)
    pro = case["pro"]
    base = Orbit(r1, r2, pro, 0)
    lim = mp.sqrt(1 - base.eF**2)
    eT = float(lim * mp.mpf(case["u"]))
    o = Orbit(r1, r2, pro, eT)
    geo = attempt(ctx, U.get_geometry, r1, r2, pro)
    if isinstance(geo, Raised):
        raise Violation(f"get_geometry fails with {geo!r}")
    slack = 1e-14 / float(min(abs(mp.sin(o.th)), 1))
    for x, y, w in zip(geo[:3], (o.n1, o.n2, o.nc), ("|r1|", "|r2|", "chord")):
        if not near(x, y, slack):
            raise Violation(f"get_geometry: {w} is {x} instead of {float(y)}")
    for x, y, w in zip(geo[3:], (o.th, o.wc), ("transfer angle", "chord angle")):
        if not turn(x, y) <= 100 * slack:
            raise Violation(f"get_geometry: the {w} is {x} instead of {float(y)}")
    eF, aF, pF = U.get_fundamental_ellipse_properties(*geo[:3])
    if not (near(eF, o.eF, 100 * slack, 1) and near(aF, (o.n1 + o.n2) / 2, 1e-14)
            and near(pF, (o.n1 + o.n2) / 2 * (1 - o.eF**2), 100 * slack, o.n1 + o.n2)):
        raise Violation(f"the fundamental ellipse has {(eF, aF, pF)}, the orbit of least "
                        f"eccentricity {float(o.eF)}, {float((o.n1 + o.n2) / 2)}")
    if not o.joins():
        ctx.label("no orbit")
        return
    ctx.nontrivial = True
    ctx.label(case["kind"] + (": ellipse" if o.e < 1 else ": hyperbola" if o.e > 1 else ": parabola"))
    say = (f"ecc_T={eT!r} (ecc={float(o.e):.15g}, theta={float(o.th):.9g}, r1={case['r1']}, "
           f"r2={case['r2']}, {'prograde' if pro else 'retrograde'})")

    # -- shape
    got = attempt(ctx, U.eap_from_eccT, eT, geo)
    if isinstance(got, Raised):
        raise Violation(f"eap_from_eccT fails with {got!r}: {say}")
    ecc, a, p = got
    amp = float((o.n1 + o.n2) / o.p)
    es = 1e-13 * (1 + abs(eT)) + 100 * slack
    ps = (100 * slack * (1 + abs(eT)) + 1e-13) * amp
    if not near(ecc, o.e, es, 1):
        raise Violation(f"eap_from_eccT: eccentricity {ecc} instead of {float(o.e)}: {say}")
    if not near(p, o.p, ps):
        raise Violation(f"eap_from_eccT: parameter {p} instead of {float(o.p)}: {say}")
    q = 1 - o.e**2
    if abs(q) > 1e-9:
        if not near(a, o.p / q, ps + 4 * es * float(max(o.e, 1) / abs(q))):
            raise Violation(f"eap_from_eccT: semi-major axis {a} instead of {float(o.p / q)}: {say}")

    # -- orientation: position of both points on the orbit of those elements
    got = attempt(ctx, U.coe_at_eccT, eT, r1, r2, pro)
    if isinstance(got, Raised) or len(got) != 7:
        raise Violation(f"coe_at_eccT gives {got!r}: {say}")
    p, ecc, inc, raan, argp, nu1, nu2 = got
    if not all(math.isfinite(x) for x in got):
        raise Violation(f"coe_at_eccT gives {got}: {say}")
    if not (near(p, o.p, ps) and near(ecc, o.e, es, 1)):
        raise Violation(f"coe_at_eccT: p={p}, ecc={ecc} instead of {float(o.p)}, "
                        f"{float(o.e)}: {say}")
    if not (0 <= inc <= PI + 1e-15 and 0 <= raan <= 2 * PI + 1e-15 and 0 <= argp <= 2 * PI):
        raise Violation(f"coe_at_eccT: angles out of range, {got}: {say}")
    if turn(nu2 - nu1, o.th) > 100 * slack + 1e-13:
        raise Violation(f"coe_at_eccT: anomalies {nu1}, {nu2} for a transfer angle of "
                        f"{float(o.th)}: {say}")
    ang = 1e-12 + 100 * slack
    if float(o.e) > 1e-3 and turn(nu1, o.nu1) > ang / float(o.e) * (1 + abs(eT)):
        raise Violation(f"coe_at_eccT: true anomaly {nu1} instead of {float(o.nu1)}: {say}")
    ci, si, cr, sr = mp.cos(inc), mp.sin(inc), mp.cos(raan), mp.sin(raan)
    hz = [sr * si, -cr * si, ci]
    for x, y in zip(hz, o.h):
        if not abs(x - y) <= 1e-9:
            raise Violation(f"coe_at_eccT: inc={inc}, raan={raan} for the plane normal to "
                            f"{[float(v) for v in o.h]}: {say}")
    for nu, r, n, w in ((nu1, o.r1, o.n1, "initial"), (nu2, o.r2, o.n2, "final")):
        u = mp.mpf(float(argp)) + mp.mpf(float(nu))
        cu, su = mp.cos(u), mp.sin(u)
        d = [cr * cu - sr * su * ci, sr * cu + cr * su * ci, su * si]
        e = float(norm([x - y / n for x, y in zip(d, r)]))
        ctx.max("largest error of direction", e * float(min(abs(mp.sin(o.th)), 1)))
        if not e <= 1e-9:
            raise Violation(f"coe_at_eccT: the {w} anomaly points {e:.3g} away from the {w} "
                            f"position: {got}: {say}")
        den = 1 + o.e * mp.cos(mp.mpf(float(nu)))
        e = abs(float(o.p / den / n) - 1) if den > 0 else float("inf")
        # next to apoapsis of eccentric orbits, or to the asymptote
        cond = float(n / o.p * (1 + o.e))
        if not e <= (1e-9 + ps) * (1 + cond):
            raise Violation(f"coe_at_eccT: the orbit passes at {float(o.p / den)} from the focus "
                            f"instead of {float(n)} ({w}): {say}")

    # -- time
    t = attempt(ctx, U.kepler_tof_at_eccT, eT, case["mu"], geo)
    want = o.tof(mp.mpf(case["mu"]))
    if isinstance(t, Raised):
        raise Violation(f"kepler_tof_at_eccT fails with {t!r} instead of {float(want)}: {say}")
    spread = 0
    for k, d in ((0, 1e-15), (1, 1e-15), (2, 1e-15), (0, -1e-15)):
        s1, s2 = r1.copy(), r2.copy()
        if k == 1:
            s1 = s1 * (1 + d)
        elif k == 2:
            # within the plane
            s2 = s2 + d * np.array([float(x) for x in cross(o.h, o.r2)])
        alt = Orbit(s1, s2, pro, eT * (1 + d) if k == 0 else eT)
        if not alt.joins():
            ctx.label("edge of the domain")
            return
        spread = max(spread, abs(alt.tof(mp.mpf(case["mu"])) / want - 1))
    # the eccentricity is a double: one minus it has lost digits
    bound = (1e-11 + 100 * slack + 2000 * float(spread)
             + min(1e-6, 2e-14 / max(float(abs(1 - o.e)), 1e-30)))
    if bound > 1e-2:
        # rounding errors decide whether the time is finite
        ctx.label("at the limit of infinite time")
        return
    e = abs(float(mp.mpf(float(t)) / want - 1)) if math.isfinite(t) else float("inf")
    ctx.max("time of flight: largest error over its bound", e / bound)
    if not e <= bound * LAX:
        raise Violation(f"kepler_tof_at_eccT gives {t} instead of {float(want)} "
                        f"(off by {e:.3g}, bound {bound:.3g}): {say}")
