"""C16-C18: Triangle2D"""
from sx.ctx import case
from .angle import nd
from .segment import away, par


def cross(ux, uy, vx, vy):
    return ux * vy - uy * vx


def tri(t, lo=None):
    """a triangle with free corners (double area at least lo in absolute value)"""
    P = [t.xy('a'), t.xy('b'), t.xy('c')]
    (ax, ay), (bx, by), (cx, cy) = P
    k = cross(bx - ax, by - ay, cx - ax, cy - ay)
    if lo is not None:
        t.assume(t.Or(k >= lo, k <= -lo))
    return t.L.Triangle2D(*[t.V(*p) for p in P]), P, k


def same(t, T, P):
    return t.And(*[t.And(t.exact(v.x(), x), t.exact(v.y(), y)) for v, (x, y) in zip((T.a(), T.b(), T.c()), P)])


def pts(t, vs, P):
    return t.And(*[t.And(t.exact(v.x(), x), t.exact(v.y(), y)) for v, (x, y) in zip(vs, P)])


# ------------------------------------------------------------------ C16

@case('C16', params=['init', 'assign'])
def construct(t, how):
    P = [t.xy('a'), t.xy('b'), t.xy('c')]
    vs = [t.V(*p) for p in P]
    s = t.L.Segment2D(vs[0], vs[1])
    args = t.choice('form', [vs, [s, vs[2]]])
    if how == 'init':
        T = t.L.Triangle2D(*args)
    else:
        T = t.L.Triangle2D(t.V(1, 2), t.V(3, 4), t.V(6, 5))
        T.assign(*args)
    t.check('corners', same(t, T, P))
    t.check('inputs unchanged', t.And(pts(t, vs, P), pts(t, [s.origin(), s.terminal()], P)))
    for v in vs:
        v.assign(9, 9)
    s.assign(8, 8, 7, 7)
    for v in (T.a(), T.b(), T.c()):
        v.assign(5, 5)
    t.check('independent of its inputs and readers', same(t, T, P))
    distinct = t.And(*[t.Or(t.Not(t.exact(p[0], q[0])), t.Not(t.exact(p[1], q[1])))
                       for p, q in ((P[0], P[1]), (P[1], P[2]), (P[2], P[0]))])
    t.check('valid iff the corners differ', t.Iff(T.is_valid(), distinct))


@case('C16')
def invalid_corner(t):
    """a corner that is itself invalid (say, the result of a failed intersection)"""
    P = [t.xy('a'), t.xy('b'), t.xy('c')]
    vs = [t.V(*p) for p in P]
    k = t.choice('which', [0, 1, 2])
    vs[k].invalidate()
    t.check('invalid vector', t.Not(vs[k].is_valid()))
    T = t.L.Triangle2D(*vs)
    t.check('invalid triangle', t.Not(T.is_valid()))
    T = t.L.Triangle2D(t.V(1, 2), t.V(3, 4), t.V(6, 5))
    T.assign(*vs)
    t.check('invalid triangle after assign', t.Not(T.is_valid()))


@case('C16')
def areas(t):
    T, P, k = tri(t)
    L = t.L.Triangle2D
    vs = [t.V(*p) for p in P]
    t.check('area', t.And(t.le(0, T.area()), t.eq(4 * T.area() * T.area(), k * k)))
    t.check('signed area', t.And(t.eq(T.signed_area() * 2, k), t.eq(L.signed_area_st(*vs) * 2, k)))
    t.check('double signed area', t.And(t.eq(T.double_signed_area(), k), t.eq(L.double_signed_area_st(*vs), k)))
    t.check('unchanged', t.And(same(t, T, P), pts(t, vs, P)))


@case('C16')
def orientation(t):
    T, P, k = tri(t)
    vs = [t.V(*p) for p in P]
    t.check('ccw', t.And(t.Iff(T.ccw(), k > 0), t.Iff(t.L.Triangle2D.tri_ccw(*vs), k > 0)))
    t.check('unchanged', t.And(same(t, T, P), pts(t, vs, P)))


@case('C16', params=['method', 'static'])
def contains(t, how):
    """by barycentric coordinates"""
    T, P, k = tri(t, 0.001)
    u, v = t.real('u'), t.real('v')
    w = 1 - u - v
    p = t.V(u * P[0][0] + v * P[1][0] + w * P[2][0], u * P[0][1] + v * P[1][1] + w * P[2][1])
    vs = [t.V(*q) for q in P]
    r = T.contains(p) if how == 'method' else t.L.Triangle2D.tri_contains(vs[0], vs[1], vs[2], p)
    t.check('inside or on the outline', t.Implies(t.And(u >= 0, v >= 0, w >= 0), r))
    t.check('outside', t.Implies(t.Or(u < 0, v < 0, w < 0), t.Not(r)))
    t.check('unchanged', t.And(same(t, T, P), pts(t, vs, P)))


# ------------------------------------------------------------------ C17 centres

def both(t, name, T, P):
    vs = [t.V(*p) for p in P]
    how = t.choice('how', ['method', 'static'])
    r = getattr(T, name)() if how == 'method' else getattr(t.L.Triangle2D, 'tri_' + name)(*vs)
    t.check('unchanged', t.And(same(t, T, P), pts(t, vs, P)))
    return r


@case('C17')
def centroid(t):
    T, P, k = tri(t)
    g = both(t, 'centroid', T, P)
    t.check('mean of the corners', t.And(t.eq(3 * g.x(), P[0][0] + P[1][0] + P[2][0]), t.eq(3 * g.y(), P[0][1] + P[1][1] + P[2][1])))


def d2(v, p):
    return (v.x() - p[0]) * (v.x() - p[0]) + (v.y() - p[1]) * (v.y() - p[1])


@case('C17')
def circumcenter(t):
    T, P, k = tri(t, 0.001)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        away(t, P[i][0] - P[j][0], P[i][1] - P[j][1], 0.001)
    c = both(t, 'circumcenter', T, P)
    t.check('equally far from the corners', t.And(c.is_valid(), t.eq(d2(c, P[0]), d2(c, P[1])), t.eq(d2(c, P[1]), d2(c, P[2]))))


@case('C17')
def circumcenter_flat(t):
    """collinear corners have none"""
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    away(t, ux, uy, 2e-4)
    k = t.real('k')
    t.assume(t.And(t.abs(k) >= 0.01, t.abs(k - 1) >= 0.01))
    c = t.L.Triangle2D.tri_circumcenter(t.V(ax, ay), t.V(ax + ux, ay + uy), t.V(ax + k * ux, ay + k * uy))
    t.check('invalid', t.Not(c.is_valid()))


@case('C17')
def orthocenter(t):
    T, P, k = tri(t, 0.001)
    h = both(t, 'orthocenter', T, P)
    A, B, C = P

    def alt(X, Y, Z):
        return t.eq((h.x() - X[0]) * (Z[0] - Y[0]) + (h.y() - X[1]) * (Z[1] - Y[1]), 0)
    t.check('on the three altitudes', t.And(h.is_valid(), alt(A, B, C), alt(B, C, A), alt(C, A, B)))


TRIS = {'345': ((0, 0), (4, 0), (0, 3)), '345cw': ((0, 3), (4, 0), (0, 0)),
        'iso': ((-3, -1), (3, -1), (0, 3)), '13-14-15': ((0, 0), (14, 0), (5, 12))}


@case('C17', params=list(TRIS))
def incenter(t, shape):
    """fixed shapes, anywhere in the plane"""
    ox, oy = t.xy('o')
    P = [(x + ox, y + oy) for x, y in TRIS[shape]]
    T = t.L.Triangle2D(*[t.V(*p) for p in P])
    c = both(t, 'incenter', T, P)
    ls = []
    sg = 1 if cross(P[1][0] - P[0][0], P[1][1] - P[0][1], P[2][0] - P[0][0], P[2][1] - P[0][1]) > 0 else -1
    for i in range(3):
        (px, py), (qx, qy) = P[i], P[(i + 1) % 3]
        dx, dy = TRIS[shape][(i + 1) % 3][0] - TRIS[shape][i][0], TRIS[shape][(i + 1) % 3][1] - TRIS[shape][i][1]
        n = t.sqrt(dx * dx + dy * dy)
        ls.append(sg * (dx * (c.y() - py) - dy * (c.x() - px)) / n)
    t.check('equally far from the sides, inside', t.And(c.is_valid(), ls[0] > 0, t.abs(ls[0] - ls[1]) <= 1e-6, t.abs(ls[1] - ls[2]) <= 1e-6))


@case('C17', params=[(at, de) for at in 'ab' for de in ((0, 90), (90, 180), (180, -90), (-90, 0))])
def incenter_on_bisector(t, at, de):
    """right-angled triangles of any size: the incenter lies on the inner bisector at the first and at the second corner"""
    o = t.xy('o')
    d, e = de
    p, q = t.real('p', 0.01, 1000), t.real('q', 0.01, 1000)
    A, B, C = o, (o[0] + p * t.cos(d), o[1] + p * t.sin(d)), (o[0] + q * t.cos(e), o[1] + q * t.sin(e))
    P = (A, B, C) if at == 'a' else (B, A, C)
    c = t.L.Triangle2D(*[t.V(*x) for x in P]).incenter()
    bx, by = t.cos(d) + t.cos(e), t.sin(d) + t.sin(e)
    t.check('on the bisector', t.And(c.is_valid(), t.eq(cross(c.x() - o[0], c.y() - o[1], bx, by), 0)))


# ------------------------------------------------------------------ C18 intersections

PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
SHAPES = {'right': ((0, 0), (4, 0), (0, 3)), 'obtuse': ((-5, 1), (2, -1), (7, 2)), 'steep': ((11, -3), (10, 20), (14, 9))}


def chord(t, kind, shape, perms=PERMS[:3]):
    """a triangle, and two points P, Q of its outline on different sides (inner points or a corner)"""
    V = SHAPES[shape]
    A, B, C = [V[i] for i in t.choice('order', perms)]
    U, W = (B[0] - A[0], B[1] - A[1]), (C[0] - A[0], C[1] - A[1])
    T = t.L.Triangle2D(*[t.V(*p) for p in V])
    if kind == 'sides':
        l, m = t.real('l', 0.02, 0.98), t.real('m', 0.02, 0.98)
        P = (A[0] + l * U[0], A[1] + l * U[1])
        Q = (A[0] + m * W[0], A[1] + m * W[1])
    elif kind == 'corner':
        l = t.real('l', 0.02, 0.98)
        P = A
        Q = (B[0] + l * (C[0] - B[0]), B[1] + l * (C[1] - B[1]))
    else:
        P, Q = A, B
    return T, V, P, Q, (A, B, C)


def is_pair(t, r, P, Q):
    return t.And(r[0] == 2, t.Or(t.And(t.eqv(r[1], *P), t.eqv(r[2], *Q)), t.And(t.eqv(r[1], *Q), t.eqv(r[2], *P))))


def line_through(t, P, Q):
    how = t.choice('line', ['points', 'coef'])
    if how == 'points':
        return t.L.Line2D(t.V(*P), t.V(*Q))
    a, b = 3 * (P[1] - Q[1]), 3 * (Q[0] - P[0])
    return t.L.Line2D(a, b, -(a * P[0] + b * P[1]))


@case('C18', params=[(k, z) for k in ('sides', 'corner', 'side') for z in SHAPES])
def line_cut(t, kind, shape):
    T, V, P, Q, _ = chord(t, kind, shape, PERMS)
    r = T.intersection(line_through(t, P, Q))
    t.check('the two outline points', is_pair(t, r, P, Q))
    t.check('unchanged', same(t, T, V))


@case('C18', params=list(SHAPES))
def line_touch(t, shape):
    """a line that meets the triangle in one corner only"""
    T, V, _, _, (A, B, C) = chord(t, 'side', shape)
    f = t.real('f', 0.02, 0.98)
    g = 1 - f
    # a direction d = f*(B-A) - g*(C-A) leaves both B and C on one side of A + R d
    dx = f * (B[0] - A[0]) - g * (C[0] - A[0])
    dy = f * (B[1] - A[1]) - g * (C[1] - A[1])
    r = T.intersection(line_through(t, A, (A[0] + dx, A[1] + dy)))
    t.check('the corner alone', t.And(r[0] == 1, t.eqv(r[1], *A)))


@case('C18', params=list(SHAPES))
def line_miss(t, shape):
    T, _, _, _, P = chord(t, 'side', shape)
    k = t.real('k', -1, 1)
    a, b = t.choice('normal', [(1, k), (k, 1), (-1, k), (k, -1)])
    c = t.real('lc')
    fs = [a * x + b * y + c for x, y in P]
    t.assume(t.And(*[f >= 0.001 for f in fs]))
    r = T.intersection(t.L.Line2D(a, b, c))
    t.check('none', r[0] == 0)


@case('C18', params=[(k, z) for k in ('both', 'one', 'none', 'in') for z in SHAPES])
def segment_cut(t, where, shape):
    T, V, P, Q, _ = chord(t, 'sides', shape, PERMS if where == 'one' else PERMS[:3])
    # s and e: parameters of the end points on the chord
    s = {'both': lambda: t.real('s', -200, -0.05), 'one': lambda: t.real('s', 0.05, 0.95),
         'none': lambda: t.real('s', 1.05, 200), 'in': lambda: t.real('s', 0.05, 0.45)}[where]()
    e = {'both': 1.5, 'one': 2, 'none': 4, 'in': 0.75}[where]
    S = [(P[0] + z * (Q[0] - P[0]), P[1] + z * (Q[1] - P[1])) for z in (s, e)]
    if t.choice('flip', [False, True]):
        S.reverse()
    seg = t.L.Segment2D(t.V(*S[0]), t.V(*S[1]))
    r = T.intersection(seg)
    if where == 'both':
        t.check('both outline points', is_pair(t, r, P, Q))
    elif where == 'one':
        t.check('the one outline point', t.And(r[0] == 1, t.eqv(r[1], *Q)))
    else:
        t.check('none', r[0] == 0)
    t.check('unchanged', t.And(same(t, T, V), pts(t, [seg.origin(), seg.terminal()], S)))


@case('C18', params=[('one', 'steep', 0), ('one', 'steep', 3), ('one', 'right', 0), ('one', 'right', 3), ('both', 'right', 0), ('none', 'steep', 0)], weight=2)
def ray_cut(t, where, shape, k):
    T, V, P, Q, _ = chord(t, 'sides', shape, PERMS[k:k + 3])
    s = {'both': lambda: t.real('s', -200, -0.05), 'one': lambda: t.real('s', 0.05, 0.95),
         'none': lambda: t.real('s', 1.05, 200)}[where]()
    O = (P[0] + s * (Q[0] - P[0]), P[1] + s * (Q[1] - P[1]))
    ray = t.L.Ray2D(t.V(*O), t.V(O[0] + (Q[0] - P[0]), O[1] + (Q[1] - P[1])))
    r = T.intersection(ray)
    if where == 'both':
        t.check('both outline points', is_pair(t, r, P, Q))
    elif where == 'one':
        t.check('the one outline point', t.And(r[0] == 1, t.eqv(r[1], *Q)))
    else:
        t.check('none', r[0] == 0)
    t.check('unchanged', t.And(same(t, T, V), pts(t, [ray.origin()], [O])))


@case('C18', params=[(w, z, k) for w in ('both', 'one', 'none') for z in SHAPES for k in (0, 3)], thorough_only=True)
def ray_cut_all(t, where, shape, k):
    ray_cut(t, where, shape, k)


def placed(t, shape, lo=0.02, hi=1000):
    """a shape in any size, anywhere, from any of its corners in either direction"""
    f = t.real('size', lo, hi)
    ox, oy = t.xy('o', -2000, 2000)
    V = [(ox + f * x, oy + f * y) for x, y in SHAPES[shape]]
    V = [V[i] for i in t.choice('order', PERMS)]
    return t.L.Triangle2D(*[t.V(*p) for p in V]), V, f


def mix(A, B, k):
    return A[0] + k * (B[0] - A[0]), A[1] + k * (B[1] - A[1])


@case('C18', params=[(k, z) for k in ('sides', 'corner', 'side', 'touch', 'miss') for z in SHAPES])
def line_placed(t, kind, shape):
    T, V, f = placed(t, shape)
    A, B, C = V
    if kind == 'sides':
        P, Q = mix(A, B, t.choice('l', [0.5, 0.9])), mix(A, C, t.choice('m', [0.25, 0.7]))
    elif kind == 'corner':
        P, Q = A, mix(B, C, t.choice('l', [0.1, 0.75]))
    elif kind == 'side':
        P, Q = A, B
    else:
        # parallel to BC: through A, or past it
        k = 0 if kind == 'touch' else t.choice('past', [-0.25, 2])
        P = mix(A, B, k)
        Q = (P[0] + B[0] - C[0], P[1] + B[1] - C[1])
    r = T.intersection(t.L.Line2D(t.V(*P), t.V(*Q)))
    if kind == 'touch':
        t.check('the corner alone', t.And(r[0] == 1, t.eqv(r[1], *A)))
    elif kind == 'miss':
        t.check('none', r[0] == 0)
    else:
        t.check('the two outline points', is_pair(t, r, P, Q))
    t.check('unchanged', same(t, T, V))


@case('C18', params=[(k, z) for k in ('both', 'one', 'none', 'in', 'start', 'chord', 'outside') for z in SHAPES])
def segment_placed(t, where, shape):
    T, V, f = placed(t, shape, 0.1)
    A, B, C = V
    P, Q = mix(A, B, t.choice('l', [0.5, 0.9])), mix(A, C, t.choice('m', [0.25, 0.7]))
    s, e = {'both': (-0.25, 1.5), 'one': (0.5, 2), 'none': (1.25, 4), 'in': (0.25, 0.75),
            'start': (1, 0.5), 'chord': (0, 1), 'outside': (1, 2)}[where]
    S = [mix(P, Q, z) for z in (s, e)]
    if t.choice('flip', [False, True]):
        S.reverse()
    seg = t.L.Segment2D(t.V(*S[0]), t.V(*S[1]))
    r = T.intersection(seg)
    if where in ('both', 'chord'):
        t.check('both outline points', is_pair(t, r, P, Q))
    elif where in ('one', 'start', 'outside'):
        t.check('the one outline point', t.And(r[0] == 1, t.eqv(r[1], *Q)))
    else:
        t.check('none', r[0] == 0)
    t.check('unchanged', t.And(same(t, T, V), pts(t, [seg.origin(), seg.terminal()], S)))


@case('C18', params=[(k, z) for k in ('both', 'one', 'none', 'from', 'away') for z in SHAPES])
def ray_placed(t, where, shape):
    T, V, f = placed(t, shape, 0.1)
    A, B, C = V
    P, Q = mix(A, B, t.choice('l', [0.5, 0.9])), mix(A, C, t.choice('m', [0.25, 0.7]))
    O = mix(P, Q, {'both': -0.25, 'one': 0.5, 'none': 1.25, 'from': 0, 'away': 1}[where])
    ray = t.L.Ray2D(t.V(*O), t.V(O[0] + (Q[0] - P[0]), O[1] + (Q[1] - P[1])))
    r = T.intersection(ray)
    if where in ('both', 'from'):
        t.check('both outline points', is_pair(t, r, P, Q))
    elif where in ('one', 'away'):
        t.check('the one outline point', t.And(r[0] == 1, t.eqv(r[1], *Q)))
    else:
        t.check('none', r[0] == 0)
    t.check('unchanged', t.And(same(t, T, V), pts(t, [ray.origin()], [O])))


PLACED = dict(TRIS, obtuse=((0, 0), (4, 0), (-5, 12)), obtusecw=((0, 4), (0, 0), (12, -5)), flat=((0, 0), (-56, 0), (-20, -15)),
              turned=((42, 56), (0, 0), (-33, 56)), back=((0, 0), (-3, 4), (-3, -4)), down=((-33, -56), (42, -56), (0, 0)))


@case('C17', params=list(PLACED))
def incenter_placed(t, shape):
    """fixed shapes of any size"""
    V = PLACED[shape]
    f = t.real('size', 0.05, 1000)
    ox, oy = t.xy('o', -2000, 2000)
    P = [(f * x + ox, f * y + oy) for x, y in V]
    T = t.L.Triangle2D(*[t.V(*p) for p in P])
    c = both(t, 'incenter', T, P)
    # the incenter is the mean of the corners weighted with the opposite sides, all whole numbers or one root here
    n = [t.sqrt((V[i][0] - V[j][0]) ** 2 + (V[i][1] - V[j][1]) ** 2) for i, j in ((1, 2), (2, 0), (0, 1))]
    w = n[0] + n[1] + n[2]
    t.check('the weighted mean', t.And(c.is_valid(), *[t.eq(c.x() * w if d == 0 else c.y() * w, n[0] * P[0][d] + n[1] * P[1][d] + n[2] * P[2][d]) for d in (0, 1)]))
