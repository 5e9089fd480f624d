# -*- coding: utf-8 -*-
"""Plain geometry of small polygons (independent of py_eddy_tracker), exact on lattice coordinates"""
from fractions import Fraction


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area2(p):
    """Signed double area"""
    n = len(p)
    return sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n))


def area(p):
    return abs(area2(p)) / 2


def seg_intersect(a, b, c, d):
    """True if closed segments ab and cd share a point"""

    def sgn(v):
        return (v > 0) - (v < 0)

    d1, d2 = sgn(cross(c, d, a)), sgn(cross(c, d, b))
    d3, d4 = sgn(cross(a, b, c)), sgn(cross(a, b, d))
    if d1 * d2 < 0 and d3 * d4 < 0:
        return True
    for s, p, q, r in ((d1, c, d, a), (d2, c, d, b), (d3, a, b, c), (d4, a, b, d)):
        if s == 0 and on_segment(p, q, r):
            return True
    return False


def on_segment(p, q, r):
    """r on closed segment pq"""
    return (
        cross(p, q, r) == 0
        and min(p[0], q[0]) <= r[0] <= max(p[0], q[0])
        and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    )


def is_simple(p):
    """Simple polygon without flat vertex nor contact between edges"""
    n = len(p)
    if len(set(p)) != n:
        return False
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        if cross(a, b, c) == 0:
            return False
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            if seg_intersect(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]):
                return False
    return True


def is_convex(p):
    n = len(p)
    s = {cross(p[i - 1], p[i], p[(i + 1) % n]) > 0 for i in range(n)}
    return len(s) == 1


def locate(p, x):
    """1 inside, 0 on the border, -1 outside (ray crossing)"""
    n = len(p)
    inside = False
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if on_segment(a, b, x):
            return 0
        if (a[1] > x[1]) != (b[1] > x[1]):
            # abscissa of the crossing compared without division
            t = (x[1] - a[1]) * (b[0] - a[0]) - (x[0] - a[0]) * (b[1] - a[1])
            if (t > 0) == (b[1] > a[1]) and t != 0:
                inside = not inside
    return 1 if inside else -1


def clip(sub, tri):
    """Clip convex polygon with a counter clockwise triangle (Sutherland-Hodgman)"""
    out = list(sub)
    for k in range(3):
        a, b = tri[k], tri[(k + 1) % 3]
        src, out = out, []
        for i in range(len(src)):
            p, q = src[i - 1], src[i]
            cp, cq = cross(a, b, p), cross(a, b, q)
            if (cp < 0) != (cq < 0):
                t = Fraction(cp) / (Fraction(cp) - Fraction(cq))
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
            if cq >= 0:
                out.append(q)
        if not out:
            break
    return out


def fan(p):
    for i in range(1, len(p) - 1):
        t = (p[0], p[i], p[i + 1])
        s = cross(*t)
        if s:
            yield (1 if s > 0 else -1), (t if s > 0 else t[::-1])


def inter_area(p, q):
    """Area of the intersection of two simple polygons"""
    if max(x for x, _ in p) <= min(x for x, _ in q) or max(x for x, _ in q) <= min(x for x, _ in p):
        return Fraction(0)
    if max(y for _, y in p) <= min(y for _, y in q) or max(y for _, y in q) <= min(y for _, y in p):
        return Fraction(0)
    s = Fraction(0)
    for si, ti in fan(p):
        for sj, tj in fan(q):
            c = clip(ti, tj)
            if len(c) > 2:
                s += si * sj * Fraction(area2(c)) / 2
    return abs(s)


def iou(p, q):
    i = inter_area(p, q)
    return i / (Fraction(abs(area2(p)), 2) + Fraction(abs(area2(q)), 2) - i)


def lattice_polygons(nx, ny, nmin, nmax):
    """Every simple polygon with vertices in a lattice, one by class of rotation/direction of vertices"""
    from itertools import product

    pts = sorted(product(range(nx), range(ny)))

    def rec(path, n):
        if len(path) == n:
            # direction: second vertex before the last
            if path[1] < path[-1] and is_simple(path):
                yield tuple(path)
            return
        for p in pts:
            if p > path[0] and p not in path:
                if len(path) >= 2 and cross(path[-2], path[-1], p) == 0:
                    continue
                if len(path) >= 3 and any(
                    seg_intersect(path[i], path[i + 1], path[-1], p) for i in range(len(path) - 2)
                ):
                    continue
                yield from rec(path + [p], n)

    for n in range(nmin, nmax + 1):
        for p in pts:
            yield from rec([p], n)
