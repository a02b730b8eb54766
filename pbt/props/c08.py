"""C08: solutions rotate and reflect with the problem."""

from pbt.props import c03
from pbt.props.common import *

RULE = ("Hypothesis draws a problem and an orthogonal transformation (rotations about Z, "
        "reflections, axis permutations, general rotations with or without reversal of "
        "the direction); a case is non-trivial when the problem and its image were both "
        "answered and compared")


def shards(tier):
    return solver_shards(ALL, 2200, tier)


def rot(axis, a):
    c, s = math.cos(a), math.sin(a)
    m = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = -s, s
    return m


@st.composite
def transform(draw):
    k = draw(st.sampled_from(["z", "z", "z90", "zmirror", "xmirror", "ymirror",
                              "vmirror", "flip", "point", "any", "any", "any-mirror",
                              "lay"]))
    a = draw(st.floats(-PI, PI))
    if k == "z":
        m = rot(2, a)
    elif k == "z90":
        m = np.round(rot(2, draw(st.integers(1, 3)) * PI / 2))
    elif k == "zmirror":
        m = np.diag([1.0, 1.0, -1.0])
    elif k == "xmirror":
        m = np.diag([-1.0, 1.0, 1.0])
    elif k == "ymirror":
        m = np.diag([1.0, -1.0, 1.0])
    elif k == "vmirror":
        m = rot(2, a) @ np.diag([-1.0, 1.0, 1.0])
    elif k == "flip":
        m = np.diag([1.0, -1.0, -1.0])
    elif k == "point":
        m = -np.eye(3)
    else:
        m = rot(2, a) @ rot(0, draw(st.floats(0, PI))) @ rot(2, draw(st.floats(-PI, PI)))
        if k == "any-mirror":
            m = m @ np.diag([1.0, 1.0, -1.0])
    d = {"kind": k, "m": m.tolist()}
    if k == "lay":
        # tilt of the image, which is laid almost on the fundamental plane
        d["tilt"] = draw(st.sampled_from([0.0, 1e-12, 1e-9, 1e-7, 1e-5, 3e-5, 1e-4, 1e-3]))
        d["node"] = a
        d["below"] = draw(st.booleans())
    return d


def lay(case, t):
    """Rotation which takes the plane of the case almost to the fundamental one."""
    r1 = np.array(case["r1"])
    x = r1 / np.linalg.norm(r1)
    n = np.array([float(a) for a in ref.Geometry(case["r1"], case["r2"], case["pro"]).h])
    n = n / np.linalg.norm(n)
    n = n - x * np.dot(n, x)
    n = n / np.linalg.norm(n)
    m = np.array([x, np.cross(n, x), n])
    if t["below"]:
        m = np.diag([1.0, -1.0, -1.0]) @ m
    return rot(2, t["node"]) @ rot(0, t["tilt"]) @ m


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) < 2:
            c = draw(fine(name))
        elif name in MULTI and draw(st.integers(0, 2)) == 0:
            c = c03.multi(draw, name, flo=-2.0)
            c["kw"] = tight(name)
        else:
            c = draw(direct(name))
            c["kw"] = tight(name)
        c["t"] = draw(transform())
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    m = np.array(case["t"]["m"])
    kind = case["t"]["kind"]
    if kind == "lay":
        m = lay(case, case["t"])
    geo = ref.Geometry(case["r1"], case["r2"], case["pro"])
    h = np.array([float(a) for a in geo.h])
    img = dict(case)
    img["r1"] = (m @ np.array(case["r1"])).tolist()
    img["r2"] = (m @ np.array(case["r2"])).tolist()
    geo2 = ref.Geometry(img["r1"], img["r2"], case["pro"])
    if geo.polar or geo2.polar:
        # neither direction has a Z component: it is told by r1 x r2
        exact = np.array_equal(m, np.round(m))
        if not (exact and geo.polar and geo2.polar):
            ctx.label("skipped: polar up to rounding")
            return
    elif abs(float(geo.h[2])) < 1e-9 or abs(float(geo2.h[2])) < 1e-9:
        ctx.label("skipped: polar up to rounding")
        return
    else:
        h2 = np.linalg.det(m) * (m @ h)
        if (h2[2] > 0) != (h[2] > 0):
            img["pro"] = not case["pro"]
            kind += " (direction swapped)"
    a = run_solver(ctx, name, case)
    b = run_solver(ctx, name, img)
    if isinstance(a, Raised) and isinstance(b, Raised):
        ctx.label("both raised")
        return
    if isinstance(a, Raised) or isinstance(b, Raised):
        if refuses_fine(case):
            ctx.label("fine tolerances reached once")
            return
        raise Violation(f"{name} answers only one of a problem and its image by {kind}: "
                        f"{show(a)} / {show(b)}")
    ctx.nontrivial = True
    ctx.label(kind)
    e = pair_error(b, (m @ a[0], m @ a[1])) / sqrt_slack(case)
    bound, mode = 1e-5, ""
    if case.get("fine"):
        bound, mode = fine_bound(name, case), "fine: "
        if bound > 1e-10:
            mode = "fine, special orbits: "
    ctx.max(mode + "largest difference", e)
    if not e <= bound * LAX:
        raise Violation(f"{name}: the solution of the image by {kind} is not the image of "
                        f"the solution (off by {e:.3g}): {show(a)} / {show(b)}")
