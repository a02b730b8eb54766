"""C17: compiled and interpreted execution agree."""

import inspect

from pbt.interp import Interpreted, Outcome, resolve
from pbt.props.common import *

RULE = ("Hypothesis draws problems of every kind for the solvers (direct, multi-revolution, next to "
        "the parabola and to the minimum time of flight, infeasible, collinear, invalid, with "
        "few iterations) and arguments over the whole domain of the public helpers, singular "
        "values included, and evaluates them in two interpreters, with compilation and "
        "without it; non-trivial when at least one of them answers, not trivially zero")

U = "lamberthub.utils."
E = "lamberthub.ecc_solvers.utils:"


def shards(tier):
    out = solver_shards(ALL, 1200, tier)
    k = 1 if tier == "quick" else 40
    out += [dict(name=f"helpers-{i}", solver=None, n=5000 * k, cost=3) for i in range(3)]
    return out


CHILD = []


def child():
    if not CHILD:
        CHILD.append(Interpreted())
    return CHILD[0]


@st.composite
def solver_case(draw, name):
    k = draw(st.sampled_from("ddpmmeicb"))
    if k in ("m", "i") and name in MULTI:
        c = draw(gen.problem_m(near=0.05, flo=-5, fhi=2, mmax=8))
        if k == "i":
            c["tof"] *= 1 - 10.0 ** draw(st.floats(-3, -0.1))
    elif k == "p":
        c = draw(direct(name, which_units=(0, 1)))
        g = (1 + draw(st.sampled_from([-1, 1, 0])) * 10.0 ** draw(st.floats(-16, -2)))
        c["tof"] *= g / c["f"]
    elif k == "e":
        c = draw(gen.problem0(near=0.02, span=1.5, flo=-2, fhi=3, which_units=(0, 1, 2, 6)))
    elif k == "c":
        c = draw(direct(name))
        s = draw(st.sampled_from([2.0, -1.0, -2.0, 0.5]))
        c["r2"] = [s * a for a in c["r1"]]
    else:
        c = draw(direct(name, which_units=(0, 1, 4)))
    if k == "b":
        w = draw(st.sampled_from(["mu", "tof", "r1", "M"]))
        c[w] = {"mu": -1.0, "tof": 0.0, "r1": [0.0, 0.0, 0.0], "M": -1}[w]
    elif name in ZERO_ONLY and draw(st.integers(0, 19)) == 0:
        c["M"] = 1
    kw = draw(st.sampled_from(["tight", "tight", "default", "iterations"]))
    c["kw"] = {"tight": tight(name), "default": {},
               "iterations": {"maxiter": draw(st.integers(1, 20)),
                              "atol": 1e-6, "rtol": 1e-6}}[kw]
    args = [c["mu"], c["r1"], c["r2"], c["tof"], c["M"], c["pro"], c["low"]]
    return {"what": "lamberthub:" + name, "args": args, "kw": c["kw"], "kind": k}


@st.composite
def pair(draw):
    k = draw(st.sampled_from("gggceix"))
    m1, m2 = (10.0 ** draw(st.floats(-6, 9)) if draw(st.booleans()) else 1.0 for _ in range(2))
    if k == "c":
        a = [draw(st.floats(0.1, 1)) * draw(st.sampled_from([1, -1, 0])) for _ in range(3)]
        a = a if any(a) else [1.0, 0.0, 0.0]
        f = draw(st.sampled_from([2.0, -1.0, -3.0, 0.5]))
        return [x * m1 for x in a], [x * m1 * f for x in a]
    if k == "i":
        a, b = ([draw(st.integers(-9, 9)) * 1.0 for _ in range(3)] for _ in range(2))
        return (a if any(a) else [1.0, 0.0, 0.0]), (b if any(b) else [0.0, 1.0, 0.0])
    x, y = draw(gen.plane())
    th = draw(st.floats(0, 2 * PI))
    if k == "x":
        th = draw(st.sampled_from([0, PI])) + 10.0 ** draw(st.floats(-5, -1))
    if k == "e":
        x, y = [x[0], x[1], 0.0], [-x[1], x[0], 0.0]
        if not (x[0] or x[1]):
            x, y = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
    return ([v * m1 for v in x],
            [m2 * (math.cos(th) * u + math.sin(th) * v) for u, v in zip(x, y)])


@st.composite
def ecc_of(draw, kind):
    if kind == "e":
        return draw(st.one_of(st.just(0.0), st.floats(1e-12, 0.999),
                              st.floats(-9, -1).map(lambda g: 1 - 10.0**g)))
    if kind == "h":
        return draw(st.one_of(st.floats(1.001, 20), st.floats(-9, 2).map(lambda g: 1 + 10.0**g)))
    return 1.0


@st.composite
def helper_case(draw):
    k = draw(st.sampled_from(["vec", "angle", "pair", "nu", "E", "B", "H", "kepler", "coe2rv",
                              "rv2coe", "stumpff", "rotation", "assert", "avanzini"]))
    what, args = None, []
    any_angle = st.one_of(st.sampled_from([0.0, PI, -PI, PI / 2, 2 * PI, 1.0, -1.0]),
                          st.floats(-PI, PI), st.floats(-30, 30))
    if k in ("vec", "pair", "angle"):
        a, b = draw(pair())
        if k == "vec":
            what = draw(st.sampled_from(["dot", "cross", "norm"]))
            args = [{"v": a}] if what == "norm" else [{"v": a}, {"v": b}]
            if what != "cross" and draw(st.booleans()):
                args = [{"i": [int(max(-1e9, min(1e9, x))) for x in v["v"]]} for v in args]
            what = "lamberthub.linalg:" + what
        else:
            what = U + "angles:" + draw(st.sampled_from(
                ["get_transfer_angle", "get_orbit_normal_vector",
                 "get_orbit_inc_and_raan_from_position_vectors"]))
            args = [{"v": a}, {"v": b}, draw(st.booleans())]
    elif k in ("nu", "E", "H", "B"):
        if k == "nu":
            f, e = draw(st.sampled_from([("nu_to_E", "e"), ("nu_to_H", "h"), ("nu_to_B", "p")]))
            e_ = draw(ecc_of(e))
            x = draw(any_angle)
            if e == "h":
                # within the asymptotes
                x = draw(st.floats(-0.999, 0.999)) * math.acos(-1 / e_)
        else:
            f, e = {"E": ("E_to_nu", "e"), "H": ("H_to_nu", "h"), "B": ("B_to_nu", "p")}[k]
            e_ = draw(ecc_of(e))
            x = draw(any_angle) if k != "B" else draw(st.floats(-1e3, 1e3))
        what, args = U + "angles:" + f, [x] + ([e_] if e != "p" else [])
    elif k == "kepler":
        f = draw(st.sampled_from(["kepler_elliptic", "kepler_parabolic", "kepler_hyperbolic",
                                  "kepler_from_nu", "kepler_from_nu"]))
        t = draw(st.sampled_from("ehp"))
        e_ = draw(ecc_of(t))
        if draw(st.integers(0, 9)) == 0:
            e_ = -e_ - 0.1
        x = draw(any_angle)
        if f == "kepler_from_nu" and e_ > 1:
            x = draw(st.floats(-0.999, 0.999)) * math.acos(-1 / e_)
        what, args = U + "kepler:" + f, [x] if f == "kepler_parabolic" else [x, e_]
    elif k == "coe2rv":
        t = draw(st.sampled_from("ehp"))
        e_ = draw(ecc_of(t))
        nu = draw(st.floats(-PI, PI))
        if t != "e":
            nu = draw(st.floats(-0.98, 0.98)) * math.acos(-1 / e_)
        f = draw(st.sampled_from(["coe2rv", "coe2rv", "rv_pqw", "coe_rotation_matrix"]))
        mu = draw(st.sampled_from([1.0, 398600.4418, 39.4]))
        p = 10.0 ** draw(st.floats(-2, 5))
        ang = [draw(st.floats(0, PI)), draw(any_angle), draw(any_angle)]
        what = U + "elements:" + f
        args = {"coe2rv": [mu, p, e_] + ang + [nu], "rv_pqw": [mu, p, e_, nu],
                "coe_rotation_matrix": ang}[f]
    elif k == "rv2coe":
        r, v = draw(pair())
        n = math.sqrt(sum(x * x for x in r))
        mu = draw(st.sampled_from([1.0, 398600.4418]))
        s = draw(st.floats(0.1, 1.6)) * math.sqrt(2 * mu / n) / math.sqrt(sum(x * x for x in v))
        args = [mu, {"v": r}, {"v": [x * s for x in v]}]
        if draw(st.integers(0, 3)) == 0:
            args.append(10.0 ** draw(st.floats(-10, -3)))
        what = U + "elements:rv2coe"
    elif k == "stumpff":
        what = U + "stumpff:" + draw(st.sampled_from(["c2", "c3"]))
        args = [draw(st.one_of(st.floats(-50, 400), st.floats(-10, 1).map(lambda g: 10.0**g),
                               st.floats(-10, 1).map(lambda g: -(10.0**g)),
                               st.sampled_from([0.0, 1.0, -1.0, 4 * PI**2])))]
    elif k == "rotation":
        what = U + "elements:rotation_matrix"
        args = [draw(any_angle), draw(st.sampled_from([0, 1, 2, 2, 3, -1]))]
    elif k == "assert":
        x = draw(st.sampled_from([1.0, 0.0, -1.0, float("nan"), float("inf"), 1e-300, PI, 2, 0]))
        v = {"v": [draw(st.sampled_from([0.0, 1.0, float("nan"), float("inf"), -2.0]))
                   for _ in range(draw(st.sampled_from([3, 3, 3, 2])))]}
        w = {"v": [draw(st.sampled_from([0.0, 1.0, -2.0])) for _ in range(3)]}
        f = draw(st.sampled_from(
            ["gravitational_parameter_is_positive", "position_vector_is_valid",
             "position_vectors_are_valid", "time_of_flight_is_positive",
             "number_of_revolutions_not_negative", "transfer_angle_not_zero",
             "transfer_angle_not_pi"]))
        what = U + "assertions:assert_" + f
        args = {"position_vector_is_valid": [v], "position_vectors_are_valid": [v, w]}.get(f, [x])
    else:
        a, b = draw(pair())
        n = math.sqrt(sum(x * x for x in a) / sum(x * x for x in b))
        if not 0.01 < n < 100:
            b = [x * n for x in b]
        what = E + draw(st.sampled_from(["get_geometry", "coe_at_eccT"]))
        pro = draw(st.booleans())
        args = [{"v": a}, {"v": b}, pro]
        if what.endswith("coe_at_eccT"):
            args = [draw(st.floats(-0.3, 0.3))] + args
    return {"what": what, "args": args, "kw": {}, "kind": what.split(":")[1]}


def strategy(shard):
    return helper_case() if shard["solver"] is None else solver_case(shard["solver"])


def build(case, wiggle=None):
    """Arguments of the call; with a generator, perturbed by rounding errors."""
    def w(x):
        if wiggle is None or not isinstance(x, float):
            return x
        return x * (1 + 2 * EPS * wiggle.choice([-1, 0, 1]))

    out = []
    for i, a in enumerate(case["args"]):
        if isinstance(a, dict) and "v" in a:
            n = max([abs(x) for x in a["v"]] or [0])
            z = 0.0 if wiggle is None or not math.isfinite(n) else 2 * EPS * n
            out.append(np.array([x + (z * wiggle.uniform(-1, 1) if z else 0) for x in a["v"]]))
        elif isinstance(a, dict):
            out.append(np.array(a["i"]))
        elif isinstance(a, list):
            n = max(abs(x) for x in a)
            z = 0.0 if wiggle is None else 2 * EPS * n
            out.append(np.array([x + (z * wiggle.uniform(-1, 1) if z else 0) for x in a]))
        else:
            out.append(w(a))
    return out


# differences which rounding errors inside the function account for
BASE = {"jiang2016": 1e-4, "negrete2024": 1e-4, "coe_at_eccT": 1e-8,
        "get_orbit_inc_and_raan_from_position_vectors": 1e-10, "rv2coe": 1e-7, "cross": 1e-10,
        "get_orbit_normal_vector": 1e-10, "kepler_from_nu": 1e-10}
EPS = 2.220446049250313e-16
# outputs which are angles, told apart modulo one turn
ANGLES = ("get_transfer_angle", "get_orbit_inc_and_raan_from_position_vectors", "rv2coe",
          "coe_at_eccT", "get_geometry")


def flat(x):
    """Every number of a result, in order, vectors as such."""
    if isinstance(x, (tuple, list)):
        return [v for y in x for v in flat(y)]
    return [np.asarray(x, dtype=float)]


def distance(kind, a, b):
    """Largest relative difference between two results."""
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return float("inf")
    d = 0.0
    for x, y in zip(fa, fb):
        if x.shape != y.shape:
            return float("inf")
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            if not np.array_equal(x, y, equal_nan=True):
                return float("inf")
            continue
        e = np.max(np.abs(x - y)) if x.size else 0.0
        s = max(np.max(np.abs(x)), np.max(np.abs(y))) if x.size else 0.0
        if kind in ANGLES and x.shape == ():
            e = min(e, abs(e - 2 * PI))
            s = max(s, 1.0)
        if e:
            d = max(d, float(e / s) if s > 1e-300 else 0.0)
    return d


def raised(x):
    return isinstance(x, (Raised, Outcome))


def check(ctx, shard, case):
    solver_ = shard["solver"]
    what = case["what"]
    f = resolve(what)
    kw = dict(case["kw"], full_output=True) if solver_ else case["kw"]
    a = attempt(ctx, f, *build(case), **kw)
    b = ctx.call(child().call, what, build(case), kw)
    ctx.nontrivial = not (raised(a) and raised(b))
    ctx.label(case["kind"] + (": raised" if raised(a) else ""))
    if solver_:
        a, b = (x if raised(x) else x[:2] for x in (a, b))
    d = compare(case, a, b)
    if solver_ and raised(a) != raised(b):
        # one of them may need one iteration more than the limit, or the tolerance be at the
        # level of rounding errors
        p = inspect.signature(f).parameters
        more = {k: kw.get(k, p[k].default) for k in ("maxiter", "atol", "rtol")}
        more = {"maxiter": more["maxiter"] + 50, "atol": more["atol"] * 1e3,
                "rtol": more["rtol"] * 1e3, "full_output": True}
        a2 = attempt(ctx, f, *build(case), **more)
        b2 = ctx.call(child().call, what, build(case), more)
        a2, b2 = (x if raised(x) else x[:2] for x in (a2, b2))
        d = compare(case, a2, b2)
        if d <= 0.3:
            ctx.label("at the limit of its iterations")
            return
    base = BASE.get(what.split(":")[1], 1e-5 if solver_ else 1e-12)
    if solver_ and case["kw"].get("atol", 1) > 1e-7:
        # they may stop at another iterate, or method, within a loose tolerance
        base = 1e-3
        if what.endswith("negrete2024") and case["args"][4] > 0:
            # next to the double root the error is the square root of the tolerance
            base = 0.1
    if d <= base:
        ctx.max("solvers: largest difference" if solver_ else
                f"{case['kind']}: largest difference", d)
        return
    if case["kind"] == "rv2coe" and not raised(a) and not raised(b) and at_threshold(case, a, b):
        ctx.label("at the threshold of singular elements")
        return
    # Do rounding errors of the data explain it?
    rnd = np.random.default_rng(1)
    spread = 0.0
    for _ in range(12):
        c = child().call(what, build(case, rnd), kw)
        if solver_ and not raised(c):
            c = c[:2]
        spread = max(spread, compare(case, b, c))
    if not d <= base + 100 * spread:
        raise Violation(f"{what} gives {text(a)} compiled and {text(b)} interpreted, a relative "
                        f"difference of {d:.3g}, where rounding errors of its arguments amount "
                        f"to {spread:.3g}: {case['args']}, {kw}")
    ctx.label("ill-conditioned")


def at_threshold(case, a, b):
    """If rounding errors decide whether elements are equatorial or circular."""
    tol = case["args"][3] if len(case["args"]) > 3 else 1e-8
    for x in (a, b):
        i = min(x[2], PI - x[2])
        if (abs(i - tol) < 1e-2 * tol + 1e-7 or abs(x[1] - tol) < 1e-2 * tol + 1e-14):
            # they have to be the same elements up to the choice of the node
            d = [abs(a[k] - b[k]) for k in (0, 1, 2)]
            return d[0] <= 1e-10 * abs(a[0]) and max(d[1:]) < 1e-7
    return False


def compare(case, a, b):
    if raised(a) or raised(b):
        return 0.0 if raised(a) and raised(b) and a.type == b.type else float("inf")
    return distance(case["kind"] if "lamberthub:" not in case["what"] else "solver", a, b)


def text(x):
    return repr(x) if raised(x) else " ".join(str(v) for v in flat(x))
