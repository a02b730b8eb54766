"""C12: invalid problems are rejected with ValueError by every solver."""

from pbt.props.common import *

RULE = ("Hypothesis draws a solver, a problem, flags and options, and spoils any number of "
        "arguments (sign, zero, nan, infinities, null, equal or ill-shaped vectors, too many "
        "or negative revolutions), or none; every case is non-trivial: with a defect the "
        "solver has to raise ValueError, without any it has to answer")

BAD_SCALARS = [0.0, -0.0, 0, -1, -1.0, -1e-300, -398600.4418, -1e300,
               float("nan"), float("inf"), float("-inf")]


def shards(tier):
    k = 1 if tier == "quick" else 12
    return [
        dict(name="interpreted", n=6000 * k, jit=False, cost=2),
        dict(name="interpreted-2", n=6000 * k, jit=False, cost=2),
        # the call has to be rejected before anything is compiled
        dict(name="compiled", n=7000 * k, cost=2, invalid=True),
        dict(name="assertions", n=6000 * k, jit=False, cost=1, helper=True),
    ]


@st.composite
def bad_vector(draw, r):
    k = draw(st.sampled_from(["null", "nan", "inf", "shape", "null", "shape"]))
    if k == "null":
        return [draw(st.sampled_from([0.0, -0.0])) for _ in range(3)]
    if k in ("nan", "inf"):
        r = list(r)
        r[draw(st.integers(0, 2))] = float(k) * draw(st.sampled_from([1, -1]))
        return r
    s = draw(st.sampled_from([0, 1, 2, 4, 6, "13", "31", "23", "()", "113"]))
    a, b, c = r
    return {0: [], 1: [a], 2: [a, b], 4: [a, b, c, a], 6: [a, b, c, a, b, c],
            "13": [[a, b, c]], "31": [[a], [b], [c]], "23": [[a, b, c], [b, c, a]],
            "()": a, "113": [[[a, b, c]]]}[s]


def strategy(shard):
    @st.composite
    def s(draw):
        name = draw(st.sampled_from(ALL))
        c = draw(direct(name if name != "gauss1809" else name,
                        which_units=draw(st.sampled_from([(0,), (1, 3, 4, 5)]))))
        c["solver"] = name
        c["kw"] = dict(tight(name)) if draw(st.booleans()) else {}
        if not shard.get("invalid") and draw(st.integers(0, 2)) == 0:
            # any other units, the smaller the likelier to be taken for null or equal
            L, T = 2.0 ** draw(st.integers(-60, 60)), 2.0 ** draw(st.integers(-60, 60))
            if shard.get("helper"):
                L = 2.0 ** draw(st.integers(-1000, 1000))
                if draw(st.booleans()):
                    # next to each other
                    i = draw(st.integers(0, 2))
                    c["r2"] = list(c["r1"])
                    c["r2"][i] = math.nextafter(c["r1"][i], draw(st.sampled_from([-9.0, 9.0])))
            else:
                c["mu"] *= L**3 / T**2
            c["r1"], c["r2"] = [a * L for a in c["r1"]], [a * L for a in c["r2"]]
            c["tof"] *= T
            c["units"] = "any"
            if c["kw"]:
                c["kw"]["maxiter"] = 300
        d = []
        n = draw(st.integers(1, 3)) if shard.get("invalid") else draw(
            st.sampled_from([0, 1, 1, 1, 1, 2, 3]))
        kinds = ["mu", "tof", "M", "r1", "r2", "equal"]
        if name in ZERO_ONLY and not shard.get("helper"):
            kinds.append("M>0")
        for _ in range(n):
            k = draw(st.sampled_from(kinds))
            if k in d:
                continue
            d.append(k)
            if k in ("mu", "tof"):
                c[k] = draw(st.sampled_from(BAD_SCALARS))
            elif k == "M":
                c["M"] = -draw(st.one_of(st.integers(1, 20), st.sampled_from([0.5, 1e-3])))
            elif k == "M>0" and "M" not in d:
                c["M"] = draw(st.integers(1, 10))
            elif k in ("r1", "r2"):
                if "equal" not in d:
                    c[k] = draw(bad_vector(c[k]))
            elif k == "equal":
                if "r1" in d or "r2" in d:
                    d.remove("equal")
                else:
                    c["r2"] = list(c["r1"])
                    c["same"] = draw(st.booleans())
        if "equal" in d and ("r1" in d or "r2" in d):
            d = [x for x in d if x not in ("r1", "r2")]
        if d and draw(st.booleans()):
            # the rest of arguments does not matter
            c["kw"] = {"maxiter": draw(st.integers(1, 100)),
                       "atol": 10.0 ** draw(st.integers(-15, 0)),
                       "rtol": 10.0 ** draw(st.integers(-15, 0)),
                       "full_output": draw(st.booleans())}
        if d and "M" not in d and "M>0" not in d and name in MULTI and draw(st.booleans()):
            c["M"] = draw(st.integers(0, 5))
        c["defects"] = sorted(set(d))
        return c

    return s()


def arrays(case):
    r1 = np.array(case["r1"], dtype=float)
    r2 = r1 if case.get("same") else np.array(case["r2"], dtype=float)
    return r1, r2


def check(ctx, shard, case):
    name = case["solver"]
    d = case["defects"]
    r1, r2 = arrays(case)
    ctx.nontrivial = True
    ctx.label(",".join(d) or "valid")
    if shard.get("helper"):
        return helpers(ctx, case, r1, r2)
    out = attempt(ctx, solver(name), case["mu"], r1, r2, case["tof"], case["M"],
                  case["pro"], case["low"], **case["kw"])
    if d:
        if not isinstance(out, Raised):
            raise Violation(f"{name} accepts a problem with invalid {d}: {show(out)}")
        if not isinstance(out.exc, ValueError):
            raise Violation(f"{name} does not reject invalid {d} with ValueError but with {out!r}")
        return
    if isinstance(out, Raised) or not good_vector(out[0]):
        if case["kw"]:
            raise Violation(f"{name} rejects a valid problem: {show(out)}")


def expect(ctx, what, want, fn, *args):
    out = attempt(ctx, fn, *args)
    if want:
        if isinstance(out, Raised) or out is not True:
            raise Violation(f"{what} rejects valid {args}: {out!r}")
    elif not isinstance(out, Raised) or not isinstance(out.exc, ValueError):
        raise Violation(f"{what} does not raise ValueError for {args}: {out!r}")


def helpers(ctx, case, r1, r2):
    import lamberthub.utils.assertions as A

    def get(n):
        return getattr(A, n, None)

    def ok_scalar(x):
        return x == x and 0 < x < float("inf")

    def ok_vector(r):
        return r.shape == (3,) and bool(np.all(np.isfinite(r))) and bool(np.any(r != 0))

    mu, tof, M = case["mu"], case["tof"], case["M"]
    vecs = ok_vector(r1) and ok_vector(r2) and not np.array_equal(r1, r2)
    table = [
        ("assert_gravitational_parameter_is_positive", ok_scalar(mu), (mu,)),
        ("assert_time_of_flight_is_positive", ok_scalar(tof), (tof,)),
        ("assert_number_of_revolutions_not_negative", M >= 0, (M,)),
        ("assert_position_vector_is_valid", ok_vector(r1), (r1,)),
        ("assert_position_vector_is_valid", ok_vector(r2), (r2,)),
        ("assert_position_vectors_are_valid", vecs, (r1, r2)),
        ("assert_position_vectors_are_valid", vecs, (r2, r1)),
        ("assert_parameters_are_valid",
         ok_scalar(mu) and ok_scalar(tof) and M >= 0 and vecs, (mu, r1, r2, tof, M)),
    ]
    th = case["f"]
    for v in (0.0, -0.0, PI, th, 2 * PI, math.nextafter(PI, 0), math.nextafter(PI, 4),
              5e-324, -PI):
        table.append(("assert_transfer_angle_not_zero", v != 0, (v,)))
        table.append(("assert_transfer_angle_not_pi", v != PI, (v,)))
    for n, want, args in table:
        if get(n) is not None:
            expect(ctx, n, want, get(n), *args)
