"""Independent reference for Lambert's problem, in 80-bit extended precision.

Nothing here imports or copies code of the repository: the boundary value
problem is solved with the Lancaster-Blanchard/Izzo parametrisation evaluated in
``numpy.longdouble`` and bracketed root finding (no Newton start guesses that
could jump branches), and orbits are propagated with a universal-variable Kepler
solver, also in ``longdouble``.  The two are cross-checked against each other by
``selftest.py`` and, for every case that a check is about to report, once more
before it is reported.
"""

import numpy as np

LD = np.longdouble
ZERO = LD(0)
ONE = LD(1)
TWO = LD(2)
HALF = LD(1) / LD(2)
PI = LD("3.14159265358979323846264338327950288420")
EPS = np.finfo(LD).eps


class NoSolution(Exception):
    """The reference shows that no orbit with M revolutions exists."""


class Degenerate(Exception):
    """The boundary value problem does not define a unique orbit."""


def vec(a):
    return [LD(float(a[0])), LD(float(a[1])), LD(float(a[2]))]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]


def norm(a):
    m = max(abs(a[0]), abs(a[1]), abs(a[2]))
    if m == 0:
        return ZERO
    b = [a[0] / m, a[1] / m, a[2] / m]
    return m * np.sqrt(dot(b, b))


# ---------------------------------------------------------------------------
# geometry
# ---------------------------------------------------------------------------
class Geometry:
    """The size-free description of one boundary value problem.

    ``h`` is the unit vector of the angular momentum selected by the direction
    of motion, ``theta`` the transfer angle in (0, 2 pi) measured about it.
    """

    def __init__(self, r1, r2, is_prograde):
        r1 = vec(r1)
        r2 = vec(r2)
        self.r1v, self.r2v = r1, r2
        self.r1 = norm(r1)
        self.r2 = norm(r2)
        if self.r1 == 0 or self.r2 == 0:
            raise Degenerate("null position")
        u1 = [a / self.r1 for a in r1]
        u2 = [a / self.r2 for a in r2]
        self.u1, self.u2 = u1, u2
        w = cross(u1, u2)
        self.sin0 = norm(w)
        self.cos0 = dot(u1, u2)
        theta0 = np.arctan2(self.sin0, self.cos0)
        self.theta0 = theta0
        if self.sin0 == 0:
            raise Degenerate("collinear positions")
        w = [a / self.sin0 for a in w]
        self.hz0 = w[2]
        # exactly polar plane: prograde/retrograde are not distinguished by the
        # inclination; the convention is checked separately
        flip = (w[2] < 0) if is_prograde else (w[2] > 0)
        self.polar = w[2] == 0
        if self.polar:
            flip = not is_prograde
        if flip:
            self.h = [-a for a in w]
            self.theta = TWO * PI - theta0
        else:
            self.h = w
            self.theta = theta0
        d = [a - b for a, b in zip(r2, r1)]
        self.c = norm(d)
        self.s = (self.r1 + self.r2 + self.c) / TWO
        lam = np.sqrt(self.r1 * self.r2) * np.cos(theta0 / TWO) / self.s
        self.lam = -lam if flip else lam
        # 1 - lambda^2 == c / s
        self.q2 = self.c / self.s


# ---------------------------------------------------------------------------
# the time equation T(x), M >= 0
# ---------------------------------------------------------------------------
def _hyp2f1(z):
    """2F1(3, 1; 5/2; z) for |z| < ~0.6 by its power series."""
    term = ONE
    tot = ONE
    k = ZERO
    for _ in range(400):
        term = term * (LD(3) + k) * (ONE + k) / (LD(5) / TWO + k) / (ONE + k) * z
        tot = tot + term
        k = k + ONE
        if abs(term) <= EPS * abs(tot) / 8:
            break
    return tot


def _y(x, lam, q2):
    # y^2 = 1 - lam^2 (1 - x^2) = q2 + lam^2 x^2
    return np.sqrt(q2 + lam * lam * x * x)


def time_of_x(x, lam, q2, M):
    """Non dimensional time of flight T(x) (Izzo 2015, eq. 9)."""
    y = _y(x, lam, q2)
    if M == 0 and abs(x - ONE) < LD("0.3"):
        # Battin's form, no cancellation near the parabola
        # eta = y - lam x ; for lam x > 0 use the conjugate form
        if lam * x > 0:
            eta = q2 / (y + lam * x)
        else:
            eta = y - lam * x
        one_m_lam = q2 / (ONE + lam) if lam > 0 else ONE - lam
        # S1 = (1 - lam - x*eta)/2
        s1 = (one_m_lam - x * eta) / TWO
        q = LD(4) / LD(3) * _hyp2f1(s1)
        return (eta**3 * q + LD(4) * lam * eta) / TWO
    if x < ONE:
        a = (ONE - x) * (ONE + x)
        sq = np.sqrt(a)
        # psi = acos(x y + lam (1 - x^2)), sin psi = (y - x lam) sqrt(1 - x^2)
        psi = np.arctan2((y - x * lam) * sq, x * y + lam * a)
        return ((psi + M * PI) / sq - x + lam * y) / a
    a = (x - ONE) * (x + ONE)
    sq = np.sqrt(a)
    if lam * x > 0:
        sh = q2 / (y + lam * x) * sq
    else:
        sh = (y - x * lam) * sq
    psi = np.arcsinh(sh)
    return (x - lam * y - psi / sq) / a


def dtime(x, lam, q2, M, T):
    """dT/dx, valid away from x == 1."""
    y = _y(x, lam, q2)
    a = (ONE - x) * (ONE + x)
    return (LD(3) * T * x - TWO + TWO * lam**3 * x / y) / a


def _bisect(f, lo, hi, flo, n=140):
    """f decreasing from + at lo to - at hi (or increasing if flo < 0)."""
    s = ONE if flo > 0 else -ONE
    fl = None
    for _ in range(n):
        mid = (lo + hi) / TWO
        if mid <= lo or mid >= hi:
            break
        if s * f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / TWO


def _illinois(f, lo, hi, flo, fhi, n=200):
    """Bracketed root (ITP/Illinois with bisection safeguard)."""
    if flo == 0:
        return lo
    if fhi == 0:
        return hi
    side = 0
    for i in range(n):
        w = hi - lo
        if w <= 2 * EPS * max(abs(lo), abs(hi)):
            break
        if i % 4 == 3:
            mid = (lo + hi) / TWO
        else:
            mid = hi - fhi * w / (fhi - flo)
        if not (lo < mid < hi):
            mid = (lo + hi) / TWO
            if not (lo < mid < hi):
                break
        fm = f(mid)
        if fm == 0:
            return mid
        if (fm > 0) == (flo > 0):
            lo, flo = mid, fm
            if side == -1:
                fhi = fhi / TWO
            side = -1
        else:
            hi, fhi = mid, fm
            if side == 1:
                flo = flo / TWO
            side = 1
    return (lo + hi) / TWO


# near x = -1 work with u = 1 + x to keep relative precision
def _time_u(u, lam, q2, M):
    """T as a function of u = 1 + x, u in (0, 1]."""
    x = u - ONE
    a = u * (TWO - u)
    y = np.sqrt(ONE - lam * lam * a)
    sq = np.sqrt(a)
    psi = np.arctan2((y - x * lam) * sq, x * y + lam * a)
    return ((psi + M * PI) / sq - x + lam * y) / a


class Solution:
    def __init__(self, geo, mu, x, u, M, T):
        self.geo, self.x, self.u, self.M, self.T = geo, x, u, M, T
        lam, q2 = geo.lam, geo.q2
        if u is not None:
            a = u * (TWO - u)
            y = np.sqrt(ONE - lam * lam * a)
        else:
            y = _y(x, lam, q2)
        self.y = y
        g = np.sqrt(mu * geo.s / TWO)
        rho = (geo.r1 - geo.r2) / geo.c
        # sigma^2 = 1 - rho^2 = 4 r1 r2 sin^2(theta/2) / c^2
        sig = TWO * np.sqrt(geo.r1 * geo.r2) * np.sin(geo.theta0 / TWO) / geo.c
        vt = q2 / (y - lam * x) if lam * x < 0 else y + lam * x
        vr1 = g * ((lam * y - x) - rho * (lam * y + x)) / geo.r1
        vr2 = -g * ((lam * y - x) + rho * (lam * y + x)) / geo.r2
        vt1 = g * sig * vt / geo.r1
        vt2 = g * sig * vt / geo.r2
        h, u1, u2 = geo.h, geo.u1, geo.u2
        t1 = cross(h, u1)
        t2 = cross(h, u2)
        self.v1 = [vr1 * a + vt1 * b for a, b in zip(u1, t1)]
        self.v2 = [vr2 * a + vt2 * b for a, b in zip(u2, t2)]
        self.mu = mu
        # 1/a = 2 (1 - x^2)/s
        if u is not None:
            self.alpha = TWO * u * (TWO - u) / geo.s
        else:
            self.alpha = TWO * (ONE - x) * (ONE + x) / geo.s

    def dTdx(self):
        return dtime(self.x, self.geo.lam, self.geo.q2, self.M, self.T)

    def ecc(self):
        """Eccentricity, from h and energy."""
        hv = cross(self.geo.r1v, self.v1)
        p = dot(hv, hv) / self.mu
        e2 = ONE - p * self.alpha
        return np.sqrt(e2) if e2 > 0 else ZERO

    def rp(self):
        hv = cross(self.geo.r1v, self.v1)
        p = dot(hv, hv) / self.mu
        return p / (ONE + self.ecc())


_TMIN_CACHE = {}


def t_min(lam, q2, M):
    """(x*, T*) of the minimum of T(x) for M >= 1 revolutions."""
    key = (str(lam), str(q2), M)
    if key in _TMIN_CACHE:
        return _TMIN_CACHE[key]
    # dT/dx has exactly one zero in (-1, 1): bracket on the sign of
    # 3 T x - 2 + 2 lam^3 x / y
    def g(x):
        T = time_of_x(x, lam, q2, M)
        return LD(3) * T * x - TWO + TWO * lam**3 * x / _y(x, lam, q2)

    lo, hi = ZERO, LD("0.999999999")
    # g(0) = -2 < 0 always, so the minimum lies at x > 0
    glo, ghi = g(lo), g(hi)
    x = _illinois(g, lo, hi, glo, ghi)
    T = time_of_x(x, lam, q2, M)
    if len(_TMIN_CACHE) > 20000:
        _TMIN_CACHE.clear()
    _TMIN_CACHE[key] = (x, T)
    return x, T


def tau(mu, geo):
    """Factor turning seconds into T units."""
    return np.sqrt(TWO * mu / geo.s) / geo.s


def tof_min(mu, geo, M):
    x, T = t_min(geo.lam, geo.q2, M)
    return T / tau(mu, geo)


def tof_parabolic(mu, geo):
    return time_of_x(ONE, geo.lam, geo.q2, 0) / tau(mu, geo)


def solve(mu, r1, r2, tof, M=0, is_prograde=True, is_low_path=True, geo=None):
    """Reference solution; raises NoSolution when tof < tof_min(M)."""
    mu = LD(float(mu))
    tof = LD(float(tof)) if not isinstance(tof, LD) else tof
    geo = geo or Geometry(r1, r2, is_prograde)
    lam, q2 = geo.lam, geo.q2
    T = tof * tau(mu, geo)
    if M == 0:
        f = lambda x: time_of_x(x, lam, q2, 0) - T
        f0 = f(ZERO)
        if f0 > 0:
            # x > 0; expand
            hi = ONE
            fhi = f(hi)
            lo, flo = ZERO, f0
            while fhi > 0:
                lo, flo = hi, fhi
                hi = hi * 4
                fhi = f(hi)
                if hi > LD("1e30"):
                    raise Degenerate("hyperbolic speed out of range")
            x = _illinois(f, lo, hi, flo, fhi)
            return Solution(geo, mu, x, None, 0, T)
        return _solve_left(mu, geo, T, 0, ONE)
    xm, Tm = t_min(lam, q2, M)
    if T < Tm:
        raise NoSolution(f"T={T} < Tmin={Tm}")
    if is_low_path:
        # x in (xm, 1): larger x
        f = lambda w: _time_w(w, lam, q2, M) - T
        hi = ONE - xm
        fhi = Tm - T
        lo = hi / 4
        flo = f(lo)
        while flo < 0:
            hi, fhi = lo, flo
            lo = lo / 4
            flo = f(lo)
        w = _illinois(f, lo, hi, flo, fhi)
        return Solution(geo, mu, ONE - w, None, M, T)
    return _solve_left(mu, geo, T, M, ONE + xm)


def _time_w(w, lam, q2, M):
    """T as a function of w = 1 - x (M >= 1)."""
    x = ONE - w
    a = w * (TWO - w)
    y = _y(x, lam, q2)
    sq = np.sqrt(a)
    psi = np.arctan2((y - x * lam) * sq, x * y + lam * a)
    return ((psi + M * PI) / sq - x + lam * y) / a


def _solve_left(mu, geo, T, M, umax):
    lam, q2 = geo.lam, geo.q2
    f = lambda u: _time_u(u, lam, q2, M) - T
    hi = umax
    fhi = f(hi)
    lo = hi / 4
    flo = f(lo)
    while flo < 0:
        hi, fhi = lo, flo
        lo = lo / 4
        flo = f(lo)
        if lo < LD("1e-40"):
            raise Degenerate("tof out of range")
    u = _illinois(f, lo, hi, flo, fhi)
    return Solution(geo, mu, u - ONE, u, M, T)


# ---------------------------------------------------------------------------
# Kepler propagation with universal variables
# ---------------------------------------------------------------------------
def _stumpff(z):
    """c2, c3 in longdouble."""
    if abs(z) < ONE:
        c2 = ZERO
        c3 = ZERO
        t2 = HALF
        t3 = ONE / LD(6)
        for k in range(1, 40):
            c2 += t2
            c3 += t3
            t2 = -t2 * z / (LD(2 * k + 1) * LD(2 * k + 2))
            t3 = -t3 * z / (LD(2 * k + 2) * LD(2 * k + 3))
            if abs(t2) < EPS * abs(c2) / 8:
                break
        return c2, c3
    if z > 0:
        q = np.sqrt(z)
        s = np.sin(q / TWO)
        return TWO * s * s / z, (q - np.sin(q)) / (q * z)
    q = np.sqrt(-z)
    s = np.sinh(q / TWO)
    return TWO * s * s / (-z), (np.sinh(q) - q) / (q * -z)


def propagate(mu, r0, v0, tof):
    """Two-body propagation; r0, v0 any float vectors; returns longdouble lists."""
    mu = LD(mu)
    r0 = [LD(a) for a in r0]
    v0 = [LD(a) for a in v0]
    dt = LD(tof)
    r = norm(r0)
    vr = dot(r0, v0) / r
    v2 = dot(v0, v0)
    alpha = TWO / r - v2 / mu
    sm = np.sqrt(mu)

    def t_of(chi):
        z = alpha * chi * chi
        c2, c3 = _stumpff(z)
        return (
            r * vr / sm * chi * chi * c2
            + (ONE - alpha * r) * chi**3 * c3
            + r * chi
        ) - sm * dt

    # monotone in chi: bracket
    lo = ZERO
    flo = -sm * dt
    hi = sm * dt / r
    if alpha > 0:
        hi = max(sm * dt * alpha, hi * LD("0.001"))
    fhi = t_of(hi)
    k = 0
    while not (fhi > 0):
        if fhi < 0:
            lo, flo = hi, fhi
        hi = hi * TWO
        fhi = t_of(hi)
        k += 1
        if k > 400:
            raise Degenerate("propagation bracket")
    # shrink if hi overflowed
    k = 0
    while not np.isfinite(fhi):
        mid = (lo + hi) / TWO
        fm = t_of(mid)
        if fm < 0:
            lo, flo = mid, fm
        else:
            hi, fhi = mid, fm
        k += 1
        if k > 400:
            raise Degenerate("propagation bracket")
    chi = _illinois(t_of, lo, hi, flo, fhi)
    z = alpha * chi * chi
    c2, c3 = _stumpff(z)
    f = ONE - chi * chi / r * c2
    g = dt - chi**3 / sm * c3
    rv = [f * a + g * b for a, b in zip(r0, v0)]
    rn = norm(rv)
    gd = ONE - chi * chi / rn * c2
    fd = sm / (rn * r) * chi * (z * c3 - ONE)
    vv = [fd * a + gd * b for a, b in zip(r0, v0)]
    return rv, vv


def rel(a, b):
    """|a - b| / |b| for vectors; nan-safe (nan -> inf)."""
    if a is None:
        return float("inf")
    d = [LD(float(x)) - y for x, y in zip(a, b)]
    e = norm(d) / norm(b)
    e = float(e)
    return e if e == e else float("inf")
