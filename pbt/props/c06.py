"""C06: prograde and retrograde select opposite directions of motion."""

from pbt.props import c03
from pbt.props.common import *

RULE = ("Hypothesis draws problems in equatorial, inclined, nearly polar and exactly polar "
        "planes; each is solved in both directions; a case is non-trivial when at least "
        "one returned, and its angular momenta were checked")


def shards(tier):
    return solver_shards(ALL, 2000, tier)


def strategy(shard):
    name = shard["solver"]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)) == 0:
            return draw(fine(name))
        if name in MULTI and draw(st.integers(0, 3)) == 0:
            c = c03.multi(draw, name, flo=-1.5)
        elif draw(st.integers(0, 2)) == 0 and name != "gauss1809":
            c = draw(gen.problem0(near=1e-2, flo=-1.5))
        else:
            c = draw(direct(name))
        c["kw"] = tight(name)
        return c

    return s()


def check(ctx, shard, case):
    name = shard["solver"]
    geo = ref.Geometry(case["r1"], case["r2"], True)
    r1, r2 = gen.arrays(case)
    n = np.array([float(a) for a in geo.h])  # of the prograde motion
    hs = {}
    for pro in (True, False):
        out = run_solver(ctx, name, case, is_prograde=pro)
        if isinstance(out, Raised):
            ctx.label("raised " + out.type)
            continue
        v1, v2 = out[:2]
        if not (good_vector(v1) and good_vector(v2)):
            raise Violation(f"{name}: {show(out)}")
        ctx.nontrivial = True
        ctx.label("polar" if geo.polar else "equatorial" if abs(n[2]) == 1 else "inclined")
        word = "prograde" if pro else "retrograde"
        # within the plane of both positions (conditioned as 1 / sin(theta))
        slack = 1e-12 / max(float(geo.sin0), 1e-3)
        for v, r, w in ((v1, r1, "departure"), (v2, r2, "arrival")):
            out_of_plane = abs(float(np.dot(v, n))) / float(np.linalg.norm(v))
            ctx.max("largest out-of-plane fraction times sin(theta)",
                    out_of_plane * float(geo.sin0))
            if not out_of_plane <= slack * LAX:
                raise Violation(f"{name} {word}: {w} velocity leaves the transfer plane "
                                f"by {out_of_plane:.3g}: {show(out)}")
        h1, h2 = np.cross(r1, v1), np.cross(r2, v2)
        sgn = float(np.dot(h1, n))
        if not (sgn > 0) == pro or sgn == 0:
            raise Violation(f"{name}: {word} motion has angular momentum {h1} "
                            f"against the {word} normal {n if pro else -n}")
        noise = 1e-12 * float(np.linalg.norm(r1) * np.linalg.norm(v1))
        if abs(n[2]) * float(np.linalg.norm(h1)) > noise and (h1[2] > 0) != pro:
            raise Violation(f"{name}: {word} motion has angular momentum {h1}")
        # same angular momentum at departure and arrival
        s1 = np.linalg.norm(r1) * np.linalg.norm(v1)
        s2 = np.linalg.norm(r2) * np.linalg.norm(v2)
        e = float(np.linalg.norm(h1 - h2) / max(s1, s2))
        mode = "fine: " if case.get("fine") else ""
        ctx.max(mode + "largest angular momentum mismatch", e)
        if not e <= (1e-12 if mode else 1e-6) * LAX:
            raise Violation(f"{name} {word}: angular momenta {h1} and {h2} differ by {e:.3g}")
        hs[pro] = h1
    if len(hs) == 2:
        ctx.label("both directions")
        if not float(np.dot(hs[True], hs[False])) < 0:
            raise Violation(f"{name}: both directions move the same way: {hs}")
