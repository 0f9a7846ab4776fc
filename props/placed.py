"""C20, C24, C26-C28, C30: shapes of any size, anywhere in the plane"""
from fractions import Fraction
from sx.ctx import case
from .polygon import BIG, SHAPES, order, shoelace, side, verts
from .rect import is_rect, is_set
from .hull import METHODS, compute, is_hull

ALL = dict(SHAPES, **BIG)


def frame(t, lo=0.02, hi=1000, far=3000):
    f = t.real('size', lo, hi)
    ox, oy = t.xy('o', -far, far)
    return f, lambda p: (ox + f * p[0], oy + f * p[1])


def inside(vs, x, y):
    """-1 outside, 0 on the outline, 1 inside (exact, of numbers)"""
    n = len(vs)
    r = False
    for i in range(n):
        p, q = vs[i], vs[(i + 1) % n]
        s = side(p, q, x, y)
        if s == 0 and min(p[0], q[0]) <= x <= max(p[0], q[0]) and min(p[1], q[1]) <= y <= max(p[1], q[1]):
            return 0
        if (p[1] <= y) != (q[1] <= y) and (s > 0) == (q[1] > p[1]):
            r = not r
    return 1 if r else -1


def probes(vs):
    """points at, next to and level with the corners"""
    out = list(vs)
    for (a, b), (c, d) in zip(vs, vs[1:] + vs[:1]):
        out.append((Fraction(a + c, 2), Fraction(b + d, 2)))
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (1, 1), (0, -1), (-1, 1)):
            out.append((a + Fraction(dx, 4), b + Fraction(dy, 4)))
    return out


@case('C26', params=list(ALL))
def contains_placed(t, shape):
    vs = order(ALL[shape][0], t.choice('order', [0, 1, 4]))
    f, at = frame(t)
    qs = probes(vs)
    q = qs[t.choice('probe', list(range(len(qs))))]
    P = t.L.Polygon2D([t.V(*at(v)) for v in vs])
    p = t.V(*at(q))
    where = inside(vs, *q)
    t.check('inside or on the outline', t.Iff(P.contains(p), where >= 0))
    t.check('strictly inside', t.Iff(P.contains(p, False), where > 0))


def pdist2(p, q, x, y):
    dx, dy = q[0] - p[0], q[1] - p[1]
    k, L = dx * (x - p[0]) + dy * (y - p[1]), dx * dx + dy * dy
    if k <= 0:
        return (x - p[0]) ** 2 + (y - p[1]) ** 2
    if k >= L:
        return (x - q[0]) ** 2 + (y - q[1]) ** 2
    return Fraction(side(p, q, x, y) ** 2) / L


@case('C27', params=list(ALL))
def dist_placed(t, shape):
    vs = order(ALL[shape][0], t.choice('order', [0, 1, 4]))
    f, at = frame(t)
    qs = [(x * 2 + 1, y - 3) for x, y in vs] + [(Fraction(a + c, 2) + Fraction(1, 3), Fraction(b + d, 2)) for (a, b), (c, d) in zip(vs, vs[1:] + vs[:1])]
    q = qs[t.choice('probe', list(range(len(qs))))]
    plane = t.choice('plane', [True, False])
    P = t.L.Polygon2D([t.V(*at(v)) for v in vs])
    d = P.dist(t.V(*at(q)), plane)
    want = 0 if plane and inside(vs, *q) >= 0 else min(pdist2(a, b, *q) for a, b in zip(vs, vs[1:] + vs[:1]))
    t.check('distance', t.And(d >= 0, t.eq(d * d, want * f * f)))
    s = shoelace(vs)
    t.check('area', t.And(t.eq(P.area() * 2, abs(s) * f * f), t.eq(P.double_signed_area(), s * f * f)))
    t.check('orientation', t.And(t.Iff(P.is_counter_clockwise(), s > 0), t.Iff(P.is_clockwise(), s < 0)))


def cutoff(vs, axis, z, keep):
    """the part of a convex polygon on one side of x = z or y = z (exact, of numbers)"""
    out = []
    for p, q in zip(vs, vs[1:] + vs[:1]):
        a, b = keep * (p[axis] - z), keep * (q[axis] - z)
        if a >= 0:
            out.append(p)
        if (a > 0 and b < 0) or (a < 0 and b > 0):
            l = Fraction(a) / (a - b)
            out.append((p[0] + l * (q[0] - p[0]), p[1] + l * (q[1] - p[1])))
    return out


CONVEX = {k: ALL[k][0] for k in ('triangle', 'square', 'diamond', 'octagon')}
WINDOWS = {'left': ('1/3', None, None), 'right': (None, '2/5', None), 'top': (None, None, '1/2'), 'left-top': ('1/4', None, '1/5'),
           'right-top': (None, '3/4', '3/7'), 'strip': ('2/5', '4/7', None), 'three': ('1/5', '5/7', '1/7'), 'none': (None, None, None)}


@case('C28', params=[(s, w) for s in CONVEX for w in WINDOWS])
def clip_placed(t, shape, window):
    vs = order(CONVEX[shape], t.choice('order', [0, 1, 4, 5]))
    f, at = frame(t)
    xs, ys = [x for x, _ in vs], [y for _, y in vs]
    cut = [None if z is None else Fraction(z) for z in WINDOWS[window]]
    L = min(xs) - 1 if cut[0] is None else min(xs) + cut[0] * (max(xs) - min(xs))
    R = max(xs) + 1 if cut[1] is None else min(xs) + cut[1] * (max(xs) - min(xs))
    T = min(ys) - 1 if cut[2] is None else min(ys) + cut[2] * (max(ys) - min(ys))
    B = max(ys) + 1
    want = cutoff(cutoff(cutoff(vs, 0, L, 1), 0, R, -1), 1, T, 1)
    P = t.L.Polygon2D([t.V(*at(v)) for v in vs])
    rect = t.L.Rect2D(t.V(*at((L, T))), t.V(*at((R, B))))
    C = P.get_rectangle_clipped_polygon(rect)
    got = C.vertices()
    near = lambda v, w: t.And(t.abs(v.x() - at(w)[0]) <= 1e-6, t.abs(v.y() - at(w)[1]) <= 1e-6)
    t.check('the corners of the common part', t.And(*[t.Or(*[near(v, w) for v in got]) for w in want]))
    t.check('no other corner', t.And(*[t.Or(*[near(v, w) for w in want]) for v in got]))
    t.check('its area', t.abs(C.area() * 2 - abs(shoelace(want)) * f * f) <= 1e-4)
    t.check('unchanged', verts(t, P, [at(v) for v in vs]))


CLOUDS = {'square': [(0, 0), (4, 1), (3, 5), (-1, 4), (1, 2), (2, 3)], 'line': [(0, 0), (2, 0), (6, 0), (4, 0), (6, 5), (3, 0), (0, 5)],
          'slope': [(1, 1), (3, 3), (0, 6), (2, 2), (5, 5), (0, 3)], 'column': [(2, 4), (2, 0), (2, 2), (5, 1), (4, 6), (2, 1), (3, 2)],
          'wide': [(0, 0), (30, 1), (60, 0), (29, -1), (31, -1), (15, 0), (44, 0)], 'ring': [(3, 1), (1, 3), (-1, 3), (-3, 1), (-3, -1), (-1, -3), (1, -3), (3, -1), (0, 0)]}


@case('C30', params=[(c, m) for c in CLOUDS for m in METHODS])
def hull_placed(t, cloud, m):
    f, at = frame(t, 0.05)
    ps = order(CLOUDS[cloud], t.choice('order', [0, 1, 4, 5]))
    qs = [at(p) for p in ps]
    h = t.L.ConvexHull([t.V(*q) for q in qs])
    compute(t, h, m)
    is_hull(t, h, qs, m)


RCUTS = {'left-right': ((0, 2), (10, 5)), 'top-bottom': ((7, 0), (2, 6)), 'left-top': ((0, 4), (3, 0)), 'right-bottom': ((10, 2), (6, 6)),
         'level': ((0, 3), (10, 3)), 'upright': ((4, 0), (4, 6)), 'corners': ((0, 0), (10, 6)), 'corner-side': ((0, 6), (10, 1))}


@case('C24', params=[(c, w) for c in RCUTS for w in ('line', 'both', 'one', 'none', 'in', 'start', 'end', 'chord', 'outside')])
def rect_placed(t, cut, where):
    """lines and segments"""
    f, at = frame(t, 0.02)
    x, y = at((0, 0))
    r = t.L.Rect2D(x, y, 10 * f, 6 * f)
    P, Q = RCUTS[cut]
    if t.choice('reverse', [False, True]):
        P, Q = Q, P
    s, e = {'line': (0, 1), 'both': (Fraction(-1, 4), Fraction(3, 2)), 'one': (Fraction(1, 2), 2), 'none': (Fraction(5, 4), 4), 'in': (Fraction(1, 4), Fraction(3, 4)),
            'start': (1, Fraction(1, 2)), 'end': (Fraction(1, 2), 1), 'chord': (0, 1), 'outside': (2, 1)}[where]
    S = [at((P[0] + z * (Q[0] - P[0]), P[1] + z * (Q[1] - P[1]))) for z in (s, e)]
    if where == 'line':
        got = r.intersection(t.L.Line2D(t.V(*S[0]), t.V(*S[1])))
    else:
        got = r.intersection(t.L.Segment2D(t.V(*S[0]), t.V(*S[1])))
    want = {'line': (P, Q), 'both': (P, Q), 'one': (Q,), 'none': (), 'in': (), 'start': (Q,), 'end': (Q,), 'chord': (P, Q), 'outside': (Q,)}[where]
    t.check('the outline points', is_set(t, got, *[at(w) for w in want]))
    t.check('unchanged', is_rect(t, r, x, y, 10 * f, 6 * f, t.exact))


@case('C24', params=[(c, w) for c in ('left-right', 'left-top', 'upright', 'corner-side', 'right-bottom') for w in ('both', 'one', 'none', 'from', 'away')])
def rect_ray_placed(t, cut, where):
    f, at = frame(t, 0.1)
    x, y = at((0, 0))
    r = t.L.Rect2D(x, y, 10 * f, 6 * f)
    P, Q = RCUTS[cut]
    if t.choice('reverse', [False, True]):
        P, Q = Q, P
    s = {'both': Fraction(-1, 4), 'one': Fraction(1, 2), 'none': Fraction(5, 4), 'from': 0, 'away': 1}[where]
    O, G = [at((P[0] + z * (Q[0] - P[0]), P[1] + z * (Q[1] - P[1]))) for z in (s, s + 1)]
    got = r.intersection(t.L.Ray2D(t.V(*O), t.V(*G)))
    want = {'both': (P, Q), 'one': (Q,), 'none': (), 'from': (P, Q), 'away': (Q,)}[where]
    t.check('the outline points ahead', is_set(t, got, *[at(w) for w in want]))
