"""C20: Stumpff functions are accurate over their whole range."""

import mpmath as mp

from pbt.props.common import *

RULE = ("Hypothesis draws real arguments of both signs, from subnormal numbers to 1e6, around "
        "zero, the switching points (1 and 1e-8 and one ulp to each side), the zeros of the "
        "functions and the limits of overflow (and complex arguments for the complex "
        "implementation); every case is non-trivial: each implementation is compared with "
        "60-digit arithmetic and with the recurrence identities")
ASSUMPTIONS = ["mpmath cos, sin, cosh, sinh in 60 digits"]

EPS = 2.220446049250313e-16


def shards(tier):
    k = 1 if tier == "quick" else 40
    return [
        dict(name="interpreted", n=8000 * k, jit=False, cost=2),
        dict(name="interpreted-2", n=8000 * k, jit=False, cost=2),
        dict(name="compiled", n=8000 * k, cost=3),
        dict(name="compiled-2", n=8000 * k, cost=3),
    ]


SPECIAL = [0.0, -0.0, 1.0, -1.0, 1e-8, -1e-8, 0.1, -0.1, 0.5, 2.0, 4.0, -4.0, 1e-6, -1e-6,
           1e-3, -1e-3, 1e-4, 1e-10, 1e-12, 5e-324, -5e-324, 2.2e-308, PI**2, 4 * PI**2, 0.25 * PI**2,
           9 * PI**2, 16 * PI**2, 36 * PI**2, 1e6, -1e5, -4e5, 20.0, -20.0, 1e-16]


def strategy(shard):
    @st.composite
    def s(draw):
        k = draw(st.sampled_from("sgglno"))
        if k == "s":
            x = draw(st.sampled_from(SPECIAL))
        elif k == "n":
            # next to a special value
            x = draw(st.sampled_from(SPECIAL))
            d = draw(st.sampled_from([1, 2, 3, "r", "r"]))
            sgn = 1 if draw(st.booleans()) else -1
            if d == "r":
                x = x * (1 + sgn * 10.0 ** draw(st.floats(-15, -1)))
            else:
                for _ in range(d):
                    x = math.nextafter(x, sgn * math.inf)
        elif k == "g":
            x = draw(st.floats(-60.0, 60.0))
        elif k == "o":
            x = draw(st.floats(-2.0, 2.0))
        else:
            x = (1 if draw(st.booleans()) else -1) * 10.0 ** draw(st.floats(-20, 5.5))
        y = 0.0
        if draw(st.integers(0, 3)) == 0:
            y = (1 if draw(st.booleans()) else -1) * 10.0 ** draw(st.floats(-6, 1.5))
        x = max(x, -4.9e5)
        return {"x": x, "y": y, "form": draw(st.sampled_from(["float", "float", "float64", "int"]))}

    return s()


def exact(k, z):
    """(value, scale of its conditioning) of the k-th function at complex z."""
    with mp.workdps(60):
        z = mp.mpmathify(z)
        if abs(z) < mp.mpf(10) ** -4:
            v = mp.mpf(0)
            t = mp.mpf(1) / mp.factorial(k)
            for i in range(1, 30):
                v += t
                t = -t * z / ((k + 2 * i - 1) * (k + 2 * i))
        else:
            s = mp.sqrt(z)
            v = {0: lambda: mp.cos(s), 1: lambda: mp.sin(s) / s,
                 2: lambda: (1 - mp.cos(s)) / z,
                 3: lambda: (s - mp.sin(s)) / (z * s)}[k]()
        s = mp.sqrt(abs(z))
        grow = mp.exp(abs(mp.im(mp.sqrt(z))))
        # closed forms amplify the rounding of sqrt(z)
        w = {0: grow, 1: grow / max(s, 1), 2: grow / max(abs(z), 1),
             3: max(grow / max(s, 1) ** 3, 1 / max(abs(z), 1) / 2)}[k]
        return v, w * (1 + s)


def implementations():
    import lamberthub.utils.stumpff as S

    out = [("stumpff.c2", 2, S.c2, False), ("stumpff.c3", 3, S.c3, False)]
    try:
        import lamberthub.regularization.delatorre as D

        for i in range(4):
            f = getattr(D, f"_stumpff{i}", None)
            if f is not None:
                out.append((f"delatorre._stumpff{i}", i, f, False))
    except ImportError:
        pass
    try:
        import lamberthub.universal_solvers.negrete as N

        for i in (2, 3):
            f = getattr(N, f"_c{i}", None)
            if f is not None:
                out.append((f"negrete._c{i}", i, f, True))
    except ImportError:
        pass
    return out


IMPL = []


def check(ctx, shard, case):
    if not IMPL:
        IMPL.extend(implementations())
    x, y = case["x"], case["y"]
    if case["form"] == "int" and abs(x) < 1e6:
        x = int(round(x))
    elif case["form"] == "float64":
        x = np.float64(x)
    ctx.nontrivial = True
    ctx.label("|x|<=1" if abs(x) <= 1 else "x>1" if x > 0 else "x<-1")
    vals = {}
    for name, k, f, cplx in IMPL:
        if cplx:
            if abs(complex(x, y)) > 4000:
                continue
            z = complex(x, y)
        else:
            z = x
        out = attempt(ctx, f, z)
        private = not name.startswith("stumpff")
        if isinstance(out, Raised):
            if private and isinstance(out.exc, TypeError):
                # not the function it used to be
                ctx.label(f"{name} has another signature")
                continue
            raise Violation(f"{name}({z!r}) raises {out!r}")
        v, w = exact(k, z)
        with mp.workdps(60):
            try:
                e = abs(mp.mpmathify(complex(out)) - v)
            except Exception:
                raise Violation(f"{name}({z!r}) = {out!r}")
            b = EPS * (abs(v) + w)
            ratio = float(e / b)
        if not cplx:
            vals[k if not private else f"d{k}"] = float(out)
        if not np.isfinite(complex(out)):
            raise Violation(f"{name}({z!r}) = {out!r}")
        ctx.max(f"error of {name}, in ulps of its conditioning", ratio)
        if not ratio <= 10 * LAX:
            raise Violation(f"{name}({z!r}) = {out!r}, it is {mp.nstr(v, 20)}, "
                            f"off by {ratio:.3g} times its conditioning")
    # identities
    xf = float(x)
    if abs(xf) > 1e4:
        return
    for p in ("", "d"):
        a2, a3 = (2, 3) if not p else ("d2", "d3")
        if a2 not in vals or a3 not in vals:
            continue
        c0, c1 = 1 - xf * vals[a2], 1 - xf * vals[a3]
        tol = 200 * EPS * (1 + abs(xf) + c0 * c0 + abs(xf) * c1 * c1) * (1 + math.sqrt(abs(xf)))
        if not abs(c0 * c0 + xf * c1 * c1 - 1) <= tol * LAX:
            raise Violation(f"c0^2 + x c1^2 - 1 = {c0*c0 + xf*c1*c1 - 1:.3g} at x = {xf!r}")
        if p and "d0" in vals and "d1" in vals:
            if not (abs(c0 - vals["d0"]) <= tol * LAX and abs(c1 - vals["d1"]) <= tol * LAX):
                raise Violation(f"c_k + x c_(k+2) = 1/k! does not hold at x = {xf!r}: {vals}")
