"""Independent evaluation of animated values.

A curve is a sorted list of points (time, value, (in_dx, in_dy), (out_dx, out_dy)).
Bezier segments are solved by bisection on the time polynomial (handles are
first confined to the segment, so time is monotone), never by root formulas."""


def _bez(a, b, c, d, u):
    v = 1.0 - u
    return v * v * v * a + 3.0 * v * v * u * b + 3.0 * v * u * u * c + u * u * u * d


def bezier(p0, p1, p2, p3, x):
    """confine handles: one that points past the far end is shortened onto it
    along its direction, one that points out of the near end is moved onto it"""
    (x0, y0), (x1, y1), (x2, y2), (x3, y3) = p0, p1, p2, p3
    if x1 > x3:
        y1 = y0 + (y1 - y0) * (x3 - x0) / (x1 - x0)
        x1 = x3
    elif x1 < x0:
        x1 = x0
    if x2 < x0:
        y2 = y3 + (y2 - y3) * (x0 - x3) / (x2 - x3)
        x2 = x0
    elif x2 > x3:
        x2 = x3
    lo, hi = 0.0, 1.0
    for i in range(60):
        mid = (lo + hi) / 2
        if _bez(x0, x1, x2, x3, mid) < x:
            lo = mid
        else:
            hi = mid
    return _bez(y0, y1, y2, y3, (lo + hi) / 2)


def tangent(prev, p, nxt):
    """slope scale of the automatic tangent at p: flat at extremes and where the
    neighbours are level, otherwise the neighbours' slope weighted by how central
    the value is"""
    (px, py), (x, y), (nx, ny) = prev, p, nxt
    sign = lambda v: 1 if v >= 0 else -1
    a = sign((y - py) / (x - px))
    b = sign((ny - y) / (nx - x))
    slope = (ny - py) / (nx - px)
    if a != b or sign(slope) != b or ny == py:
        return 0.0
    return min(abs(ny - y), abs(y - py)) / abs(ny - py) * 2.0 * slope


def cubic(pts, i, x):
    p1, p2 = pts[i], pts[i + 1]
    half = (p2[0] - p1[0]) * 0.5
    p0 = pts[i - 1] if i else (p1[0] - half, p1[1])
    p3 = pts[i + 2] if i + 2 < len(pts) else (p2[0] + half, p2[1])
    dx = 0.4 * (p2[0] - p1[0])
    h1 = (p1[0] + dx, p1[1] + tangent(p0, p1, p2) * dx)
    h2 = (p2[0] - dx, p2[1] - tangent(p1, p2, p3) * dx)
    return bezier(p1, h1, h2, p2, x)


def value(kind, pts, t):
    """pts: (time, value) or (time, value, in, out)"""
    if t <= pts[0][0]:
        return float(pts[0][1])
    if t >= pts[-1][0]:
        return float(pts[-1][1])
    i = max(k for k in range(len(pts)) if pts[k][0] <= t)
    a, b = pts[i], pts[i + 1]
    if t == a[0] or kind == 'constant':
        return float(a[1])
    if kind == 'linear':
        return a[1] + (b[1] - a[1]) * (t - a[0]) / (b[0] - a[0])
    if kind == 'cubic':
        return cubic([p[:2] for p in pts], i, t)
    out = a[3] if len(a) > 2 else (0, 0)
    inn = b[2] if len(b) > 2 else (0, 0)
    return bezier(a[:2], (a[0] + out[0], a[1] + out[1]), (b[0] + inn[0], b[1] + inn[1]), b[:2], t)


def accumulated(speed, a, b, n=5):
    """trapezoids of width (b-a)/n, the first reaching back one width before a"""
    h = (b - a) / float(n)
    total = 0.0
    for k in range(n):
        total += (speed(a + k * h) + speed(a + (k - 1) * h)) * h / 2
    return total
