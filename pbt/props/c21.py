"""C21: geometry helpers match their definitions for all vectors."""

from pbt.props.common import *

RULE = ("Hypothesis draws pairs of vectors of magnitudes from 1e-40 to 1e40 each, axis-aligned, "
        "equatorial, polar, generic, collinear, nearly so (gaps of 1e-17 to 1e-1) and of "
        "integers, with both directions of motion; non-trivial when the pair is not two "
        "generic vectors in general position at more than 0.05 rad from being collinear, or "
        "when its magnitudes differ by more than 100")
ASSUMPTIONS = ["numpy.longdouble arithmetic is that of 80-bit floating point numbers"]

LD = ref.LD
EPS = 2.220446049250313e-16
AXES = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.0], [1.0, 0.0, 1.0],
        [0.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 2.0, -2.0], [3.0, -4.0, 0.0], [2.0, 3.0, 6.0]]


def shards(tier):
    k = 1 if tier == "quick" else 40
    return [dict(name=f"{m}{i}", n=15000 * k, jit=m == "compiled", cost=2)
            for m in ("compiled", "interpreted") for i in ("", "-2", "-3")]


def strategy(shard):
    @st.composite
    def s(draw):
        k = draw(st.sampled_from("gagencpnxi"))
        m1 = m2 = 1.0
        if draw(st.booleans()):
            m1, m2 = (10.0 ** draw(st.floats(-40, 40)) for _ in range(2))
        if k == "i":
            a, b = ([draw(st.integers(-50, 50)) for _ in range(3)] for _ in range(2))
            big = draw(st.sampled_from([1, 1000, 7000000, 149597870700]))
            a, b = [x * big for x in a], [x * big for x in b]
            a = a if any(a) else [big, 0, 0]
            b = b if any(b) else [0, big, 0]
            return {"kind": k, "a": a, "b": b, "pro": draw(st.booleans()),
                    "int": draw(st.booleans())}
        if k == "x":
            a = draw(st.sampled_from(AXES))
            b = draw(st.sampled_from(AXES))
            sg = draw(st.sampled_from([1.0, -1.0]))
            a, b = [x * m1 for x in a], [x * m2 * sg for x in b]
        elif k == "c":
            a = draw(st.sampled_from(AXES)) if draw(st.booleans()) else [
                draw(st.floats(-1, 1)) for _ in range(3)]
            if max(map(abs, a)) < 1e-3:
                a = [1.0, 0.0, 0.0]
            f = draw(st.sampled_from([1.0, 2.0, -1.0, -3.0, 0.7, -1.1]))
            a, b = [x * m1 for x in a], [x * m2 * f for x in a]
        elif k == "g":
            a, b = ([draw(st.floats(-1, 1)) for _ in range(3)] for _ in range(2))
            if max(map(abs, a)) < 1e-3:
                a = [1.0, 0.0, 0.0]
            if max(map(abs, b)) < 1e-3:
                b = [0.0, 1.0, 0.0]
            a, b = [x * m1 for x in a], [x * m2 for x in b]
        else:
            x, y = draw(gen.plane())
            th = draw(st.floats(0, 2 * PI))
            if k in ("n", "p"):
                g = 10.0 ** draw(st.floats(-17, -1))
                th = draw(st.sampled_from([0, PI])) + (g if draw(st.booleans()) else -g)
            if k == "e":
                x, y = [x[0], x[1], 0.0], [-x[1], x[0], 0.0]
                if not (x[0] or x[1]):
                    x, y = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
            a = [v * m1 for v in x]
            b = [m2 * (math.cos(th) * u + math.sin(th) * v) for u, v in zip(x, y)]
        return {"kind": k, "a": a, "b": b, "pro": draw(st.booleans()), "int": False}

    return s()


def close(what, got, want, tol, case):
    err = abs(LD(float(got)) - want)
    if not err <= tol * LAX + 1e-300:  # products may underflow
        raise Violation(f"{what} = {float(got)!r}, it is {float(want)!r} (error {float(err):.3g}, "
                        f"allowed {float(tol):.3g})")


def check(ctx, shard, case):
    import lamberthub.linalg as L
    import lamberthub.utils.angles as A

    dt = np.int64 if case["int"] else float
    a, b = np.array(case["a"], dtype=dt), np.array(case["b"], dtype=dt)
    a0, b0 = a.copy(), b.copy()
    pro = case["pro"]
    x, y = ref.vec(a), ref.vec(b)
    na, nb = ref.norm(x), ref.norm(y)

    def call(f, *args):
        out = attempt(ctx, f, *args)
        if isinstance(out, Raised):
            raise Violation(f"{f.__name__}{args[:3]} raises {out!r}")
        return out

    # vector operations
    s = sum(abs(p * q) for p, q in zip(x, y))
    close("dot", call(L.dot, a, b), ref.dot(x, y), 8 * EPS * s, case)
    close("norm", call(L.norm, a), na, 8 * EPS * na, case)
    w = ref.cross(x, y)
    out = call(L.cross, a, b)
    if np.shape(out) != (3,):
        raise Violation(f"cross returns {out!r}")
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        close(f"cross[{i}]", out[i], w[i], 8 * EPS * (abs(x[j] * y[k]) + abs(x[k] * y[j])), case)

    # angles
    u, v = [p / na for p in x], [p / nb for p in y]
    w = ref.cross(u, v)
    sin0 = float(ref.norm(w))
    theta0 = np.arctan2(ref.norm(w), ref.dot(u, v))
    ctx.nontrivial = not (case["kind"] == "g" and sin0 > 0.05 and 0.01 < na / nb < 100)
    ctx.label(f"kind {case['kind']}", "collinear" if sin0 == 0 else
              "nearly collinear" if sin0 < 1e-6 else "general")
    eh = 8 * EPS / max(sin0, EPS)          # uncertainty of the normal
    sense = 0                              # +1: w is the normal, -1: its opposite
    if sin0 > 0:
        hz = float(w[2]) / sin0
        exact_polar = w[2] == 0 and all(p == 0 or q == 0 for p, q in
                                        ((x[0], y[1]), (x[1], y[0])))
        if abs(hz) > 4 * eh or exact_polar:
            up = hz >= 0
            sense = 1 if up == pro else -1
    th = float(call(A.get_transfer_angle, a, b, pro))
    tol = 40 * EPS
    if not (0 <= th < 2 * PI):
        raise Violation(f"the transfer angle {th!r} is not in [0, 2 pi)")
    both = [float(theta0), float(2 * ref.PI - theta0)]
    ok = both if sense == 0 else [both[0] if sense > 0 else both[1]]
    if sin0 < 4e-15:
        # these may be taken as collinear ones
        ok = both + ([0.0] if theta0 < 1 else [PI])
    if not min(abs(th - t) for t in ok) <= tol * LAX:
        raise Violation(f"the transfer angle is {th!r}, not {ok} (prograde {pro})")
    if sin0 == 0 and all(float(p).is_integer() for p in case["a"] + case["b"]) and \
            max(map(abs, case["a"] + case["b"])) < 1e6:
        if th != (0.0 if theta0 < 1 else PI):
            raise Violation(f"the transfer angle of collinear positions is {th!r}")
    # the other direction, and the way back
    for what, q in (("the other direction", (a, b, not pro)), ("the way back", (b, a, pro))):
        t2 = float(call(A.get_transfer_angle, *q))
        if not (0 <= t2 < 2 * PI):
            raise Violation(f"the transfer angle {t2!r} is not in [0, 2 pi)")
        if sin0 > 1e-14 and (what == "the other direction" or sense) and \
                not (what == "the way back" and abs(hz) <= 4 * eh):
            if not abs(t2 + th - 2 * PI) <= 4 * tol * LAX:
                raise Violation(f"the transfer angle of {what} is {t2!r}, with {th!r} they do "
                                "not make a full turn")
    # normal, inclination and node
    if sin0 > 1e-13:
        h = call(A.get_orbit_normal_vector, a, b, pro)
        inc, raan = call(A.get_orbit_inc_and_raan_from_position_vectors, a, b, pro)
        if not (0 <= inc <= PI and 0 <= raan <= 2 * PI):
            raise Violation(f"inclination {inc!r} or node {raan!r} out of range")
        hs = [math.sin(inc) * math.sin(raan), -math.sin(inc) * math.cos(raan), math.cos(inc)]
        for what, g, extra in (("normal", h, 0), ("normal from inclination and node", hs, 8 * EPS)):
            if np.shape(g) != (3,):
                raise Violation(f"{what} is {g!r}")
            g = [LD(float(c)) for c in g]
            sg = sense or (1 if ref.dot(g, w) > 0 else -1)
            e = float(ref.norm([p - sg * q / LD(ref.norm(w)) for p, q in zip(g, w)]))
            ctx.max(f"error of the {what}, times the sine of the angle", e * sin0)
            if not e <= (4 * eh + extra) * LAX:
                raise Violation(f"the {what} is off by {e:.3g}: {[float(c) for c in g]} "
                                f"(prograde {pro}, sine {sin0:.3g})")
        if abs(hz) > 4 * eh and (h[2] > 0) != pro:
            raise Violation(f"the normal {h} does not have the sense of the motion")
        if a[2] == 0 and b[2] == 0 and not (inc in (0.0, PI) or abs(inc - PI) < 4 * EPS):
            raise Violation(f"the inclination of equatorial positions is {inc!r}")
    if not (np.array_equal(a, a0) and np.array_equal(b, b0)):
        raise Violation("the arguments are modified")
