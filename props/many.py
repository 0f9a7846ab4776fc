"""C26-C28, C30: shapes with many corners"""
import math
from sx.ctx import case
from .polygon import CONVEX, build, clip, order, shoelace, verts
from .hull import METHODS, compute, is_hull, kept


def ring(n, R=1000, r=None):
    """n points in convex position (or alternating between two radii), integer coordinates"""
    return [(round((R if r is None or k % 2 == 0 else r) * math.cos(2 * math.pi * k / n + 0.1)), round((R if r is None or k % 2 == 0 else r) * math.sin(2 * math.pi * k / n + 0.1))) for k in range(n)]


def stride(ps, k=5):
    """the same points in another order"""
    n = len(ps)
    while math.gcd(n, k) != 1:
        k += 1
    return [ps[i * k % n] for i in range(n)]


def gap(events, lo, hi):
    """the widest part of [lo, hi] without an event, a little narrower"""
    e = [lo] + sorted(x for x in events if lo < x < hi) + [hi]
    i = max(range(len(e) - 1), key=lambda i: e[i + 1] - e[i])
    w = (e[i + 1] - e[i]) * 0.1
    return e[i] + w, e[i + 1] - w


@case('C26', params=[(k, n, w) for k in ('ring', 'star') for n in (12, 20, 32, 50) for w in ('in', 'out')])
def many_corners(t, kind, n, where):
    """a point on the ray from the middle through a corner"""
    vs = ring(n) if kind == 'ring' else ring(n, 1000, 500)
    vs = order(vs, t.choice('order', [0, 2 * (n // 2), 7]))
    k = t.choice('corner', [0, n // 3, n - 2, n - 1])
    level = [v[1] / vs[k][1] for v in vs if vs[k][1]]
    l = t.real('l', *(gap(level, 0.3, 0.999) if where == 'in' else gap(level, 1.001, 1.6)))
    P = t.L.Polygon2D(build(t, vs))
    p = t.V(l * vs[k][0], l * vs[k][1])
    inside = where == 'in'
    t.check('inside up to the corner', t.And(t.Iff(P.contains(p), inside), t.Iff(P.contains(p, False), inside)))


@case('C27', params=[16, 25, 40])
def many_area(t, n):
    vs = ring(n)
    f, dx, dy = t.real('f', 0.01, 10), t.real('dx', -100, 100), t.real('dy', -100, 100)
    ps = [(x * f + dx, y * f + dy) for x, y in vs]
    P = t.L.Polygon2D([t.V(*p) for p in ps[:n // 2]])
    for p in ps[n // 2:]:
        P.add_vertex(t.V(*p))
    t.check('vertices', verts(t, P, ps))
    t.check('area', t.And(t.eq(P.area() * 2, shoelace(vs) * f * f), t.eq(P.double_signed_area(), shoelace(vs) * f * f)))
    b = P.get_bounding_box()
    X, Y = [x for x, _ in vs], [y for _, y in vs]
    t.check('box', t.And(t.eq(b.left(), min(X) * f + dx), t.eq(b.right(), max(X) * f + dx), t.eq(b.top(), min(Y) * f + dy), t.eq(b.bottom(), max(Y) * f + dy)))


@case('C27', params=[12, 20, 32], weight=2)
def many_dist(t, n):
    """a point beyond a corner: the corner is nearest"""
    vs = ring(n)
    k = t.choice('corner', [0, n // 3, n - 2, n - 1])
    l = t.real('l', 1.5, 1.6)
    x, y = vs[k]
    P = t.L.Polygon2D(build(t, vs))
    d = P.dist(t.V(l * x, l * y), t.choice('plane', [True, False]))
    t.check('to the corner', t.And(d >= 0, t.eq(d * d / 1e6, (l - 1) * (l - 1) * (x * x + y * y) / 1e6)))


CONVEX['ring16'] = ring(16, 50)
CONVEX['ring24'] = ring(24, 90)


@case('C28', params=[(s, c) for s in ('ring16', 'ring24') for c in ('left', 'right', 'top')], weight=2)
def many_clip(t, shape, cut):
    x, y = t.xy('p', -100, 100)
    z = t.real('z', -95, 95)
    for v in CONVEX[shape]:
        t.assume(t.abs(z - v[1 if cut == 'top' else 0]) >= 0.001)
    L, R, T = -200, 200, -200
    if cut == 'left':
        L = z
    elif cut == 'right':
        R = z
    else:
        T = z
    clip(t, shape, t.choice('order', [0, 3]), L, R, T, 200, x, y)


@case('C30', params=[(n, m) for n in (9, 14, 20, 32) for m in METHODS], weight=2)
def many_points(t, n, m):
    """all corners of a large ring, points inside it, and one more on the ray through a corner"""
    vs = ring(n)
    ps = stride(vs)
    for i, q in enumerate([(3, 5), (-420, 17), (211, -377)]):
        ps.insert(3 * i + 1, q)
    k = t.choice('corner', [0, n // 2, n - 1])
    (a, b), (c, d) = vs[k], (-1.25 * vs[k][1] / 1000, 1.25 * vs[k][0] / 1000)
    # the point is l*(a, b) + (c, d): where it is on a line with two others
    ev = [1]
    for i, p in enumerate(ps):
        for q in ps[:i]:
            den = (q[0] - p[0]) * b - (q[1] - p[1]) * a
            if den:
                ev.append(((q[1] - p[1]) * (c - p[0]) - (q[0] - p[0]) * (d - p[1])) / den)
    l = t.real('l', *t.choice('where', [gap(ev, 0.5, 0.95), gap(ev, 1.01, 1.4)]))
    ps.insert(t.choice('at', [0, 4, len(ps)]), (l * a + c, l * b + d))
    h = t.L.ConvexHull([t.V(*p) for p in ps])
    compute(t, h, m)
    is_hull(t, h, ps, m)
