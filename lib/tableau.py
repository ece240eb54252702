"""Independent Runge-Kutta tableaus, derived in 60-digit rational arithmetic from first principles."""
from fractions import Fraction as Q
from functools import lru_cache

_DEN = 10 ** 60


def _rnd(q):
    return Q(round(q * _DEN), _DEN)


def _pmul(a, b):
    r = [Q(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def _pev(a, t):
    r = Q(0)
    for c in reversed(a):
        r = r * t + c
    return r


def _pder(a):
    return [c * i for i, c in enumerate(a)][1:] or [Q(0)]


def _pint(a, lo, hi):
    return sum((c * (hi ** (i + 1) - lo ** (i + 1)) / (i + 1) for i, c in enumerate(a)), Q(0))


def _roots01(a):
    """all (simple, real) roots of a in (0,1] by sign scan, bisection and Newton"""
    if len(a) == 2:
        return [-a[0] / a[1]]
    N = 2000
    out = []
    vals = [_pev(a, Q(i, N)) for i in range(N + 1)]
    for i in range(N):
        if vals[i] == 0:
            if i > 0:
                out.append(Q(i, N))
            continue
        if vals[i] * vals[i + 1] < 0:
            lo, hi = Q(i, N), Q(i + 1, N)
            for _ in range(30):
                mid = (lo + hi) / 2
                if _pev(a, lo) * _pev(a, mid) <= 0:
                    hi = mid
                else:
                    lo = mid
            x = _rnd((lo + hi) / 2)
            d = _pder(a)
            for _ in range(6):
                x = _rnd(x - _pev(a, x) / _pev(d, x))
            out.append(x)
    if vals[N] == 0:
        out.append(Q(1))
    return out


@lru_cache(None)
def nodes(scheme, n):
    # Rodrigues: Legendre: d^n/dt^n [t^n (t-1)^n];  Radau IIA: d^(n-1)/dt^(n-1) [t^(n-1) (t-1)^n]
    k = n if scheme == "GAUSS_LEGENDRE" else n - 1
    p = [Q(1)]
    for _ in range(k):
        p = _pmul(p, [Q(0), Q(1)])
    for _ in range(n):
        p = _pmul(p, [Q(-1), Q(1)])
    for _ in range(k):
        p = _pder(p)
    if scheme != "GAUSS_LEGENDRE":
        # divide out the known root 1
        q = [Q(0)] * (len(p) - 1)
        r = Q(0)
        for i in range(len(p) - 1, 0, -1):
            r = p[i] + r
            q[i - 1] = r
        rs = (_roots01(q) if len(q) > 1 else []) + [Q(1)]
    else:
        rs = _roots01(p)
    assert len(rs) == n, (scheme, n, rs)
    return rs


@lru_cache(None)
def tableau(scheme, n):
    """A, b, c as Fractions"""
    c = nodes(scheme, n)
    A = [[None] * n for _ in range(n)]
    b = [None] * n
    for j in range(n):
        l = [Q(1)]
        for k in range(n):
            if k != j:
                l = [_rnd(x) for x in _pmul(l, [-c[k] / (c[j] - c[k]), 1 / (c[j] - c[k])])]
        for i in range(n):
            A[i][j] = _rnd(_pint(l, Q(0), c[i]))
        b[j] = _rnd(_pint(l, Q(0), Q(1)))
    return A, b, c


if __name__ == "__main__":
    for s in ("RADAU_IIA", "GAUSS_LEGENDRE"):
        for n in range(1, 10):
            A, b, c = tableau(s, n)
            print(s, n, [float(x) for x in c], float(sum(b)))
