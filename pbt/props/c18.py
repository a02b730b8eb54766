"""C18: orbital elements and state vectors convert back and forth."""

import mpmath as mp

from pbt.props.common import *

RULE = ("Hypothesis draws elements (eccentricities 0, 1, within 1e-16 to 1e-1 of both and up "
        "to 50; inclinations 0, 90 and 180 degrees exactly, near them and generic; any angles; "
        "several unit systems) or states (generic, axis-aligned, apsidal, circular, parabolic), and "
        "the tolerance of the singular cases; every case is non-trivial: elements are turned "
        "into states and back, and compared with extended-precision definitions")
ASSUMPTIONS = ["numpy.longdouble arithmetic and mpmath elementary functions"]

LD = ref.LD
EPS = 2.220446049250313e-16


def shards(tier):
    k = 1 if tier == "quick" else 40
    return [dict(name=f"{m}{i}", n=5000 * k, jit=m == "compiled", cost=2)
            for m in ("compiled", "interpreted") for i in ("", "-2", "-3", "-4")]


@st.composite
def an_angle(draw, lo=0.0, hi=2 * PI):
    if draw(st.integers(0, 2)) == 0:
        x = draw(st.sampled_from([0.0, PI / 2, PI, 3 * PI / 2, 1.0, 4.0, 2 * PI - 1e-9, 1e-9]))
        return min(max(x, lo), hi)
    return draw(st.floats(lo, hi))


def strategy(shard):
    @st.composite
    def s(draw):
        k = draw(st.sampled_from("eeeeesx"))
        _, mu, L = draw(gen.units((0, 0, 1, 3, 4)))
        tol = draw(st.sampled_from([None, None, None, None, 1e-8, 1e-4, 1e-12, 1e-2]))
        c = {"mu": mu, "tol": tol, "kind": k}
        if k in ("s", "x"):
            r = [draw(st.floats(-2, 2)) for _ in range(3)]
            v = [draw(st.floats(-2, 2)) for _ in range(3)]
            if k == "x":
                ax = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0],
                      [0.0, -1.0, 0.0], [0.0, 0.0, -1.0], [0.6, 0.8, 0.0], [0.0, -0.6, 0.8]]
                r, v = draw(st.sampled_from(ax)), draw(st.sampled_from(ax))
                m = draw(st.sampled_from([1.0, math.sqrt(2), 0.5, 1.2, 2.0]))
                v = [m * a for a in v]
            x, y = np.array(r), np.array(v)
            if np.linalg.norm(x) < 0.05:
                x = np.array([1.0, 0.0, 0.0])
            if np.linalg.norm(np.cross(x, y)) < 0.05:
                y = np.array([-x[1], x[0], 0.3])
                if np.linalg.norm(np.cross(x, y)) < 0.05:
                    y = np.array([1.0, 0.0, 0.0])
            c["r"] = [float(a * L) for a in x]
            c["v"] = [float(a * math.sqrt(mu / L)) for a in y]
            return c
        g = draw(st.sampled_from("0us1npt" + "uh"))
        t = tol or 1e-8
        ecc = {"0": lambda: 0.0, "1": lambda: 1.0,
               "u": lambda: draw(st.floats(0.0, 0.95)),
               "s": lambda: 10.0 ** draw(st.floats(-16, -1)),
               "n": lambda: t * (1 + draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.floats(-6, -0.3))),
               "t": lambda: t * draw(st.floats(0.1, 10)),
               "p": lambda: 1 + draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.floats(-14, -1)),
               "h": lambda: 1 + 10.0 ** draw(st.floats(-2, 1.7))}[g]()
        g = draw(st.sampled_from("0gg9snt"))
        inc = {"0": lambda: 0.0, "9": lambda: PI / 2,
               "g": lambda: draw(st.floats(0.05, PI - 0.05)),
               "s": lambda: 10.0 ** draw(st.floats(-14, -1)),
               "n": lambda: PI / 2 + draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.floats(-14, -1)),
               "t": lambda: t * draw(st.floats(0.2, 5))}[g]()
        if draw(st.integers(0, 2)) == 0:
            inc = PI - inc
        nu = draw(an_angle(-PI, PI)) if draw(st.booleans()) else draw(st.floats(-PI, PI))
        if 1 + ecc * math.cos(nu) < 0.02:
            nu = math.copysign(math.acos(max(-1.0, -0.98 / ecc)), nu)
        c.update(p=L * 10.0 ** draw(st.floats(-1, 1)), ecc=ecc, inc=inc, raan=draw(an_angle()),
                 argp=draw(an_angle()), nu=nu)
        return c

    return s()


def state(mu, p, ecc, inc, raan, argp, nu):
    """Position and velocity, by their definition, in extended precision."""
    with mp.workdps(40):
        mu, p, ecc, inc, raan, argp, nu = map(mp.mpf, (mu, p, ecc, inc, raan, argp, nu))
        u = argp + nu
        co, so, ci, si = mp.cos(raan), mp.sin(raan), mp.cos(inc), mp.sin(inc)

        def to_xyz(a):
            c, s = mp.cos(a), mp.sin(a)
            return [co * c - so * s * ci, so * c + co * s * ci, s * si]

        er, et = to_xyz(u), to_xyz(u + mp.pi / 2)
        h = mp.sqrt(mu * p)
        d = 1 + ecc * mp.cos(nu)
        r = [p / d * a for a in er]
        v = [mu / h * (ecc * mp.sin(nu) * a + d * b) for a, b in zip(er, et)]
        f = lambda q: LD(mp.nstr(q, 25))
        return [f(a) for a in r], [f(a) for a in v]


class Elements:
    """Invariants of a state, in extended precision."""

    def __init__(self, mu, r, v):
        r, v = ref.vec(r), ref.vec(v)
        mu = LD(mu)
        self.rn, self.vn = ref.norm(r), ref.norm(v)
        self.r, self.v = r, v
        self.h = ref.cross(r, v)
        self.hn = ref.norm(self.h)
        self.p = self.hn * self.hn / mu
        w = self.vn ** 2 - mu / self.rn
        rv = ref.dot(r, v)
        self.e = [(w * a - rv * b) / mu for a, b in zip(r, v)]
        self.ecc = ref.norm(self.e)
        self.inc = np.arctan2(np.sqrt(self.h[0] ** 2 + self.h[1] ** 2), self.h[2])
        self.eq = min(self.inc, ref.PI - self.inc)
        # how the rounding errors of the state grow
        self.tilt = float(self.rn * self.vn / self.hn)
        self.size = float(1 + self.vn ** 2 * self.rn / mu)


def dist(a, b):
    """Relative distance between vectors."""
    return float(ref.norm([LD(float(p)) - LD(q) for p, q in zip(a, b)]) / ref.norm([LD(q) for q in b]))


def check(ctx, shard, case):
    import lamberthub.utils.elements as E

    ctx.nontrivial = True
    mu = case["mu"]

    def call(f, *args, **kw):
        out = attempt(ctx, f, *args, **kw)
        if isinstance(out, Raised):
            raise Violation(f"{f.__name__}{args} raises {out!r}")
        return out

    if "r" in case:
        r, v = np.array(case["r"]), np.array(case["v"])
        ctx.label("from a state")
    else:
        el = [case[k] for k in ("p", "ecc", "inc", "raan", "argp", "nu")]
        out = call(E.coe2rv, mu, *el)
        want = state(mu, *el)
        d = 1 + el[1] * math.cos(el[5])
        cond = EPS * (1 + (1 + el[1]) / d) * (1 + abs(el[5]) + abs(el[4]))
        for got, w, what in zip(out, want, ("position", "velocity")):
            if np.shape(got) != (3,):
                raise Violation(f"coe2rv returns {out!r}")
            e = dist(got, w)
            lim = cond if what == "position" else cond * (1 + el[1]) / float(
                ref.norm(w) * np.sqrt(LD(el[0]) / LD(mu)))
            ctx.max(f"error of the {what} of coe2rv over its conditioning", e / lim)
            if not e <= 20 * lim * LAX:
                raise Violation(f"coe2rv{(mu, *el)}: the {what} {got} is off by {e:.3g}")
        rot = call(E.coe_rotation_matrix, el[2], el[3], el[4])
        for i, nu in enumerate((0.0, PI / 2)):
            # columns of the matrix: periapsis and 90 degrees ahead
            w = state(1.0, 1.0, 0.0, el[2], el[3], el[4], nu)[0]
            if not dist(rot[:, i], w) <= 40 * EPS * LAX:
                raise Violation(f"coe_rotation_matrix{tuple(el[2:5])} = {rot}")
        for ax in (0, 1, 2):
            m = np.array(call(E.rotation_matrix, el[4], ax))
            c, s_ = math.cos(el[4]), math.sin(el[4])
            w = np.eye(3)
            j, k = (ax + 1) % 3, (ax + 2) % 3
            w[j, j], w[j, k], w[k, j], w[k, k] = c, -s_, s_, c
            if ax == 1 and not case.get("y_axis"):
                # the sign of this entry is a known finding, see corpus/C18.json
                w[2, 0], m[2, 0] = abs(w[2, 0]), abs(m[2, 0])
            if not np.allclose(m, w, rtol=0, atol=4 * EPS):
                raise Violation(f"rotation_matrix({el[4]!r}, {ax}) = {m}")
        out = attempt(ctx, E.rotation_matrix, el[4], 3)
        if not isinstance(out, Raised) or not isinstance(out.exc, ValueError):
            raise Violation(f"rotation_matrix({el[4]!r}, 3) = {out!r}")
        r = np.array([float(a) for a in want[0]])
        v = np.array([float(a) for a in want[1]])
        ctx.label("circular" if el[1] == 0 else "parabolic" if el[1] == 1 else
                  "elliptic" if el[1] < 1 else "hyperbolic")

    x = Elements(mu, r, v)
    if not x.hn > 1e-3 * x.rn * x.vn:
        ctx.label("nearly rectilinear")
        return
    r0, v0 = r.copy(), v.copy()
    tol = case["tol"]
    out = call(E.rv2coe, mu, r, v) if tol is None else call(E.rv2coe, mu, r, v, tol)
    if not (np.array_equal(r, r0) and np.array_equal(v, v0)):
        raise Violation("rv2coe modifies its arguments")
    t = tol or 1e-8
    p, ecc, inc, raan, argp, nu = map(float, out)
    say = f"rv2coe({mu!r}, {list(map(float, r))}, {list(map(float, v))}{'' if tol is None else f', {tol}'}) = {tuple(map(float, out))}"
    if not all(map(math.isfinite, (p, ecc, inc, raan, argp, nu))):
        raise Violation(f"{say}: not finite")
    if not (0 <= inc <= PI and 0 <= raan <= 2 * PI and 0 <= argp <= 2 * PI
            and -PI <= nu <= 2 * PI and ecc >= 0 and p > 0):
        raise Violation(f"{say}: out of range")
    cond = EPS * x.size * x.tilt

    def near(what, got, want, lim):
        e = float(abs(LD(got) - LD(want)))
        ctx.max(f"error of {what} over its conditioning", e / lim)
        if not e <= 20 * lim * LAX:
            raise Violation(f"{say}: {what} is off by {e:.3g}, {float(want)!r}")

    near("the parameter", p / float(x.p), 1, EPS * x.tilt)
    near("the eccentricity", ecc, x.ecc, cond)
    # of an arc of cosine
    near("the inclination", inc, x.inc,
         min(2e-8, EPS * x.tilt / max(1e-16, math.sin(float(x.inc)))) + EPS * x.tilt)
    circular = float(x.ecc) < t * 0.999 - 10 * cond
    eccentric = float(x.ecc) > t * 1.001 + 10 * cond
    flat = float(x.eq) < t * 0.999 - 1.6e-8 if t > 1e-7 else float(x.eq) < 1e-14
    inclined = float(x.eq) > t * 1.001 + 1.6e-8
    ctx.label(("circular " if circular else "eccentric " if eccentric else "nearly circular ") +
              ("equatorial" if flat else "inclined" if inclined else "nearly equatorial"))
    # conventions of the singular cases
    if circular and argp != 0:
        raise Violation(f"{say}: the argument of periapsis of a circular orbit is not zero")
    if flat and raan != 0:
        raise Violation(f"{say}: the node of an equatorial orbit is not zero")
    if inclined:
        n = [-x.h[1], x.h[0]]
        w = float(np.arctan2(n[1], n[0]))
        e = abs(math.remainder(raan - w, 2 * PI))
        if not e <= 40 * EPS * x.tilt / float(np.sin(x.inc)) * LAX:
            raise Violation(f"{say}: the node is {w!r}")
    if eccentric:
        w = float(np.arctan2(ref.dot(x.h, ref.cross(x.e, x.r)) / x.hn, ref.dot(x.r, x.e)))
        e = abs(math.remainder(nu - w, 2 * PI))
        lim = cond / float(x.ecc) + EPS * 4
        ctx.max("error of the true anomaly over its conditioning", e / lim)
        if not e <= 20 * lim * LAX:
            raise Violation(f"{say}: the true anomaly is {w!r}")
    # and back
    back = call(E.coe2rv, mu, p, ecc, inc, raan, argp, nu)
    D = 1 + float(x.ecc) * math.cos(nu) if eccentric else 1.0
    lim = cond * (1 + (1 + float(x.ecc)) * float(x.rn / x.p)) * 8
    if not inclined:
        # the node is dropped, or the inclination comes from an arc of cosine
        lim += 4 * float(x.eq) + 2e-8
    else:
        lim += 8 * EPS / float(x.eq)
    if not eccentric:
        lim += 4 * float(x.ecc)
    for got, w, what in ((back[0], x.r, "position"), (back[1], x.v, "velocity")):
        e = dist(got, w)
        l = lim if what == "position" else lim * float(
            (1 + x.ecc) / (x.vn * np.sqrt(x.p / LD(mu))))
        ctx.max(f"error of the {what} back over its conditioning", e / l)
        if not e <= 20 * l * LAX:
            raise Violation(f"{say}: converted back, the {what} is off by {e:.3g} (allowed {20*l:.3g})")
