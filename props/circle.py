"""C19-C21: Circle2D"""
from sx.ctx import case
from .angle import nd
from .segment import away


def circ(t, n='', lo=None, hi=None):
    cx, cy = t.xy(n + 'c', lo, hi)
    r = t.real(n + 'r', 0.1, hi if hi is not None else 1000)
    return t.L.Circle2D(t.V(cx, cy), r), cx, cy, r


def is_circ(t, c, cx, cy, r):
    return t.And(t.exact(c.center().x(), cx), t.exact(c.center().y(), cy), t.exact(c.radius(), r))


def is_set(t, sol, *ps):
    """the list holds exactly the given points, in any order"""
    if len(sol) != len(ps):
        return False
    if len(ps) == 1:
        return t.eqv(sol[0], *ps[0])
    if len(ps) == 0:
        return True
    (p, q) = ps
    return t.Or(t.And(t.eqv(sol[0], *p), t.eqv(sol[1], *q)), t.And(t.eqv(sol[0], *q), t.eqv(sol[1], *p)))


# ------------------------------------------------------------------ C19 value, membership, lines

@case('C19', params=['init', 'assign'])
def construct(t, how):
    cx, cy = t.xy('c')
    r = t.choice('kind', [t.real, t.int])('r')
    v = t.V(cx, cy)
    if how == 'init':
        c = t.L.Circle2D(v, r)
    else:
        c = t.L.Circle2D(t.V(1, 2), 3)
        c.assign(v, r)
    if t.split(r >= 0):
        t.check('centre and radius', is_circ(t, c, cx, cy, r))
    else:
        t.check('negative radius becomes 0', is_circ(t, c, cx, cy, 0))
    t.check('input unchanged', t.And(t.exact(v.x(), cx), t.exact(v.y(), cy)))
    v.assign(5, 6)
    c.center().assign(7, 8)
    t.check('independent', t.And(t.exact(c.center().x(), cx), t.exact(c.center().y(), cy)))
    t.check('area', t.eq(c.area() / t.L.sm.PI if False else c.area(), c.radius() * c.radius() * 3.141592653589793))


@case('C19')
def default(t):
    c = t.L.Circle2D()
    t.check('empty circle at the origin', is_circ(t, c, 0, 0, 0))
    c.center_().assign(*t.xy('p'))
    t.check('defaults are not shared', is_circ(t, t.L.Circle2D(), 0, 0, 0))


@case('C19')
def contains(t):
    c, cx, cy, r = circ(t)
    px, py = t.xy('p')
    p = t.V(px, py)
    d2 = (px - cx) * (px - cx) + (py - cy) * (py - cy)
    t.check('contains iff strictly inside', t.Iff(c.contains(p), d2 < r * r))
    t.check('unchanged', t.And(is_circ(t, c, cx, cy, r), t.exact(p.x(), px), t.exact(p.y(), py)))


def entry(t, c, kind, o):
    return t.choice('entry', [lambda: c.intersection(o), lambda: getattr(c, 'intersection_with_' + kind)(o)])()


def normal(t, how):
    """a unit normal of a line (times a scale)"""
    k = t.choice('scale', [1, -2])
    if how == 'horizontal':
        return 0, k, 0, 1
    if how == 'vertical':
        return k, 0, 1, 0
    # any other direction by its rational parametrisation
    m = t.real('m', 0.01, 1000)
    if t.choice('sign', [False, True]):
        m = -m
    q = 1 + m * m
    nx, ny = 2 * m / q, (1 - m * m) / q
    t.assume(t.abs(nx) >= 0.05)
    return k * nx, k * ny, nx, ny


@case('C19', params=[(a, b) for a in ('horizontal', 'vertical', 'slanted') for b in ('cut', 'touch', 'miss')])
def with_line(t, how, kind):
    """a line at signed distance h from the centre"""
    c, cx, cy, r = circ(t, hi=100)
    a, b, nx, ny = normal(t, how)
    if kind == 'touch':
        h = r * t.choice('side', [1, -1])
    elif kind == 'miss':
        h = t.choice('side', [1, -1]) * (r + t.real('g', 0.01, 1000))
    else:
        g = t.real('g', -0.99, 0.99)
        h = g * r
    k = a * nx + b * ny
    l = t.L.Line2D(a, b, -(a * cx + b * cy) - h * k)
    sol = entry(t, c, 'line', l)
    if kind == 'miss':
        t.check('no common point', len(sol) == 0)
    elif kind == 'touch':
        t.check('one common point', is_set(t, sol, (cx + r * nx * (1 if t.split(h > 0) else -1), cy + r * ny * (1 if t.split(h > 0) else -1))))
    else:
        w = t.sqrt(r * r - h * h)
        t.check('the two common points', is_set(t, sol, (cx + h * nx - w * ny, cy + h * ny + w * nx), (cx + h * nx + w * ny, cy + h * ny - w * nx)))
    t.check('unchanged', t.And(is_circ(t, c, cx, cy, r), t.exact(l.a(), a), t.exact(l.b(), b)))


@case('C19')
def with_degenerate_line(t):
    c, cx, cy, r = circ(t)
    t.check('no line, no point', len(c.intersection(t.L.Line2D(0, 0, t.real('k')))) == 0)


# ------------------------------------------------------------------ C20 rays, segments, circles

# directions (x, y)/5 with rational unit vectors, and chords (distance from the centre, half length)/5
DIRS = {'horizontal': (5, 0), 'vertical': (0, 5), 'up': (3, 4), 'down': (4, -3)}
CHORDS = [(4, 3), (0, 5), (-3, 4)]


def chord(t, how, kinds=CHORDS):
    """a circle of radius 25q and a chord P Q of the given direction"""
    cx, cy = t.xy('c')
    q = t.real('q', 0.02, 100)
    ux, uy = DIRS[how]
    h, w = t.choice('chord', kinds)
    c = t.L.Circle2D(t.V(cx, cy), 25 * q)
    P = (cx + q * (-h * uy - w * ux), cy + q * (h * ux - w * uy))
    Q = (cx + q * (-h * uy + w * ux), cy + q * (h * ux + w * uy))
    return c, (cx, cy, 25 * q), P, Q


SPAN = {'both': (-0.05, -100, 1.05, 100), 'one': (0.95, 0.05, 1.05, 100), 'none': (1.05, 100, 100.05, 200), 'in': (0.05, 0.45, 0.5, 0.95),
        'start': (1, 1, 0.05, 0.95), 'chord': (0, 0, 1, 1), 'outside': (1, 1, 1.05, 100), 'from': (0, 0, 0, 0), 'away': (1, 1, 0, 0)}


def among(t, n, lo, hi):
    return lo if lo == hi else t.real(n, min(lo, hi), max(lo, hi))


@case('C20', params=[(h, w) for h in DIRS for w in SPAN if w not in ('from', 'away')])
def with_segment(t, how, where):
    """a segment on the chord P Q"""
    c, C, P, Q = chord(t, how)
    lo, hi, lo2, hi2 = SPAN[where]
    s, e = among(t, 's', lo, hi), among(t, 'e', lo2, hi2)
    S = [(P[0] + z * (Q[0] - P[0]), P[1] + z * (Q[1] - P[1])) for z in (s, e)]
    if t.choice('flip', [False, True]):
        S.reverse()
    seg = t.L.Segment2D(t.V(*S[0]), t.V(*S[1]))
    sol = entry(t, c, 'segment', seg)
    want = {'both': (P, Q), 'one': (Q,), 'none': (), 'in': (), 'start': (Q,), 'chord': (P, Q), 'outside': (Q,)}[where]
    t.check('the common points', is_set(t, sol, *want))
    t.check('unchanged', t.And(is_circ(t, c, *C), t.exact(seg.origin().x(), S[0][0]), t.exact(seg.terminal().y(), S[1][1])))


@case('C20', params=[(h, w) for h in DIRS for w in ('both', 'one', 'none', 'from', 'away')])
def with_ray(t, how, where):
    """a ray along the chord P Q"""
    c, C, P, Q = chord(t, how, CHORDS[:2])
    if t.choice('reverse', [False, True]):
        P, Q = Q, P
    lo, hi, _, _ = SPAN[where]
    s = among(t, 's', lo, hi)
    ox, oy = P[0] + s * (Q[0] - P[0]), P[1] + s * (Q[1] - P[1])
    ray = t.L.Ray2D(t.V(ox, oy), t.V(ox + Q[0] - P[0], oy + Q[1] - P[1]))
    sol = entry(t, c, 'ray', ray)
    want = {'both': (P, Q), 'one': (Q,), 'none': (), 'from': (P, Q), 'away': (Q,)}[where]
    t.check('the common points', is_set(t, sol, *want))
    t.check('unchanged', t.And(is_circ(t, c, *C), t.exact(ray.origin().x(), ox)))


@case('C20', params=[(h, k) for h in DIRS for k in ('segment', 'ray')])
def tangent(t, how, kind):
    """a segment or ray along a tangent: the touching point when it reaches it, nothing otherwise"""
    cx, cy = t.xy('c')
    q = t.real('q', 0.02, 100)
    ux, uy = DIRS[how]
    h = t.choice('side', [5, -5])
    c = t.L.Circle2D(t.V(cx, cy), 25 * q)
    T = (cx - h * q * uy, cy + h * q * ux)
    s = t.choice('s', [lambda: -t.real('s', 0.05, 100), lambda: 0, lambda: t.real('s', 0.05, 100)])()
    e = t.choice('way', [1, -1])
    A, B = [(T[0] + z * e * q * ux, T[1] + z * e * q * uy) for z in (s, s + (t.choice('e', [100.05, 200]) if kind == 'segment' else 1))]
    if kind == 'segment':
        sol = entry(t, c, 'segment', t.L.Segment2D(t.V(*A), t.V(*B)))
    else:
        sol = entry(t, c, 'ray', t.L.Ray2D(t.V(*A), t.V(*B)))
    t.check('touches', t.And(t.Implies(t.le(s, 0), is_set(t, sol, T)), t.Implies(s > 0.01, len(sol) == 0)))


@case('C20', params=['apart', 'nested', 'nested2'])
def circles_apart(t, how):
    c, cx, cy, r = circ(t)
    o, ox, oy, q = circ(t, 'o')
    d2 = (cx - ox) * (cx - ox) + (cy - oy) * (cy - oy)
    if how == 'apart':
        t.assume(d2 > (r + q) * (r + q))
    elif how == 'nested':
        t.assume(t.And(r > q, d2 < (r - q) * (r - q)))
    else:
        t.assume(t.And(q > r, d2 < (r - q) * (r - q)))
    sol = entry(t, c, 'circle', o)
    t.check('no common point', len(sol) == 0)


@case('C20')
def circles_concentric(t):
    """same centre: no common point, or all of them"""
    c, cx, cy, r = circ(t)
    q = t.real('q', 0.1, 1000)
    t.check('none reported', len(c.intersection(t.L.Circle2D(t.V(cx, cy), q))) == 0)


@case('C20', params=['horizontal', 'vertical', 'slanted'], weight=3)
def circles_cross(t, how):
    """two circles through P and Q: centres at -f and g along the normal of PQ"""
    mx, my = t.xy('m_')
    w = t.real('w', 0.5, 500)
    f, g = t.real('f', 0.1, 500), t.real('g', 0.1, 500)
    sg = t.choice('same', [1, -1])
    g = g * sg
    if sg < 0:
        t.assume(t.abs(f + g) >= 0.1)
    _, _, nx, ny = normal(t, how)
    r, q = t.sqrt(f * f + w * w), t.sqrt(g * g + w * w)
    c = t.L.Circle2D(t.V(mx - f * nx, my - f * ny), r)
    o = t.L.Circle2D(t.V(mx + g * nx, my + g * ny), q)
    sol = entry(t, c, 'circle', o)
    t.check('the two common points', is_set(t, sol, (mx - w * ny, my + w * nx), (mx + w * ny, my - w * nx)))


@case('C20', params=list(DIRS))
def circles_touch(t, how):
    """circles that touch from outside or inside, along several directions"""
    cx, cy = t.xy('c')
    r, q = t.real('r', 0.1, 1000), t.real('q', 0.1, 1000)
    ux, uy = DIRS[how]
    if t.choice('inside', [False, True]):
        t.assume(t.abs(r - q) >= 0.1)
        k = r - q
    else:
        k = r + q
    c, o = t.L.Circle2D(t.V(cx, cy), 5 * r), t.L.Circle2D(t.V(cx + k * ux, cy + k * uy), 5 * q)
    sol = entry(t, c, 'circle', o)
    t.check('the one common point', is_set(t, sol, (cx + r * ux, cy + r * uy)))
    t.check('unchanged', t.And(is_circ(t, c, cx, cy, 5 * r), is_circ(t, o, cx + k * ux, cy + k * uy, 5 * q)))


# ------------------------------------------------------------------ C21 circumcircle

@case('C21')
def circum(t):
    P = [t.xy('a'), t.xy('b'), t.xy('c')]
    (ax, ay), (bx, by), (cx, cy) = P
    k = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    t.assume(t.Or(k >= 0.001, k <= -0.001))
    for i, j in ((0, 1), (1, 2), (2, 0)):
        away(t, P[i][0] - P[j][0], P[i][1] - P[j][1], 0.001)
    vs = [t.V(*p) for p in P]
    c = t.L.Circle2D.circum_circle(*vs)
    m, r = c.center(), c.radius()
    t.check('passes through the three points', t.And(t.le(0, r), *[t.eq(r * r, (m.x() - x) * (m.x() - x) + (m.y() - y) * (m.y() - y)) for x, y in P]))
    t.check('unchanged', t.And(*[t.And(t.exact(v.x(), x), t.exact(v.y(), y)) for v, (x, y) in zip(vs, P)]))


@case('C21')
def circum_flat(t):
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    away(t, ux, uy, 2e-4)
    k = t.real('k')
    t.assume(t.And(t.abs(k) >= 0.01, t.abs(k - 1) >= 0.01))
    vs = (t.V(ax, ay), t.V(ax + ux, ay + uy), t.V(ax + k * ux, ay + k * uy))
    c = t.L.Circle2D.circum_circle(*vs)
    t.check('collinear: the empty circle', is_circ(t, c, 0, 0, 0))
    t.check('collinear: contains nothing', t.Not(t.L.Circle2D.circum_circle_contains(t.V(*t.xy('p')), *vs)))


@case('C21')
def circum_contains(t):
    """points on a circle with centre m: inside iff nearer to m than the radius"""
    mx, my = t.xy('m')
    r = t.real('r', 0.1, 1000)
    a, b = t.real('a', -50, 50), t.real('b', -50, 50)
    t.assume(t.abs(a - b) >= 0.05)
    # the points at 180 degrees and at the rational parameters a and b
    vs, P = [], []
    for z in (None, a, b):
        x, y = (-1, 0) if z is None else ((1 - z * z) / (1 + z * z), 2 * z / (1 + z * z))
        P.append((mx + r * x, my + r * y))
    perm = t.choice('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0)])
    vs = [t.V(*P[i]) for i in perm]
    px, py = t.xy('p')
    d2 = px * px + py * py
    res = t.L.Circle2D.circum_circle_contains(t.V(mx + px, my + py), *vs)
    t.check('inside', t.Implies(d2 < r * r - 1e-6, res))
    t.check('outside', t.Implies(d2 >= r * r, t.Not(res)))
    t.check('unchanged', t.And(*[t.And(t.exact(v.x(), P[i][0]), t.exact(v.y(), P[i][1])) for v, i in zip(vs, perm)]))
