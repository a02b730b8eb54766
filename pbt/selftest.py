"""Checks the reference against itself: Lambert solutions propagate to r2.

Independent pieces (the Lancaster-Blanchard time equation and the
universal-variable Kepler propagator) have to agree in extended precision.
"""

import math
import random
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hypothesis  # noqa: E402,F401
import mpmath as mp  # noqa: E402

from pbt import gen, ref  # noqa: E402
from pbt.props.common import make_case  # noqa: E402

PI = math.pi


def main():
    rnd = random.Random(1)
    worst = 0.0
    n = 0
    for i in range(600):
        th = rnd.uniform(0.05, 2 * PI - 0.05)
        if abs(th - PI) < 0.05:
            continue
        rho = 10 ** rnd.uniform(-1, 1)
        M = rnd.choice([0, 0, 0, 1, 2, 7])
        f = 10 ** rnd.uniform(-1.3, 2) if M == 0 else 10 ** rnd.uniform(-3, 1)
        if i % 7 == 0 and M == 0:
            f = 1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-12, -1)
        c = make_case([1.0, 0.0, 0.0], [0.0, math.cos(1), math.sin(1)], rho, th, f, M)
        for low in (True, False):
            c["low"] = low
            s = gen.reference(c)
            r, v = ref.propagate(c["mu"], c["r1"], s.v1, c["tof"])
            e = max(float(ref.norm([a - ref.LD(b) for a, b in zip(r, c["r2"])])) / rho,
                    float(ref.norm([a - b for a, b in zip(v, s.v2)]) / ref.norm(s.v2)))
            # conditioning of the propagation: loose near the minimum
            bound = 1e-13 * max(1.0, f, 1 / f) * (1 + 100 * M)
            worst = max(worst, e / bound)
            n += 1
            if not e <= bound:
                sys.exit(f"selftest: reference and propagator differ by {e} for {c}")
            # revolutions and sense: the angle swept is theta + 2 pi M
            per = 2 * PI / math.sqrt(c["mu"] * float(s.alpha) ** 3) if s.alpha > 0 else None
            if M and not M * per < c["tof"] < (M + 1) * per:
                sys.exit(f"selftest: not {M} revolutions: {c}")
    # Stumpff functions of the propagator
    mp.mp.dps = 40
    for i in range(200):
        z = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-8, 3)
        c2, c3 = ref._stumpff(ref.LD(z))
        q = mp.sqrt(mp.mpf(abs(z)))
        t2 = ((1 - mp.cos(q)) if z > 0 else (mp.cosh(q) - 1)) / abs(mp.mpf(z))
        t3 = ((q - mp.sin(q)) if z > 0 else (mp.sinh(q) - q)) / q**3
        if abs(mp.mpf(str(c2)) / t2 - 1) > 1e-14 and abs(t2) > 1e-6 or abs(
                mp.mpf(str(c3)) / t3 - 1) > 1e-14:
            sys.exit(f"selftest: Stumpff functions at {z}")
    print(f"selftest: {n} solutions propagated, largest error over bound {worst:.2g}")


main()
