"""C26-C28: Polygon2D"""
from sx.ctx import case

# shape: (vertices, convex pieces that cover it)
SHAPES = {
    'triangle': ([(0, 0), (6, 0), (1, 5)], None),
    'square': ([(0, 0), (0, 4), (4, 4), (4, 0)], [[(0, 0), (4, 0), (4, 4), (0, 4)]]),
    'diamond': ([(0, -2), (3, 0), (0, 4), (-3, 0)], [[(0, -2), (3, 0), (0, 4), (-3, 0)]]),
    'split': ([(0, 0), (2, 0), (4, 0), (4, 4), (2, 4), (0, 4), (0, 2)], [[(0, 0), (4, 0), (4, 4), (0, 4)]]),
    'dart': ([(0, 0), (6, 3), (0, 6), (2, 3)], [[(0, 0), (6, 3), (2, 3)], [(2, 3), (6, 3), (0, 6)]]),
    'notch': ([(0, 0), (6, 0), (6, 4), (3, 2), (0, 4)], [[(0, 0), (3, 0), (3, 2), (0, 4)], [(3, 0), (6, 0), (6, 4), (3, 2)]]),
    'ell': ([(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6)], [[(0, 0), (6, 0), (6, 2), (0, 2)], [(0, 2), (2, 2), (2, 6), (0, 6)]]),
    'u': ([(0, 0), (6, 0), (6, 5), (4, 5), (4, 2), (2, 2), (2, 5), (0, 5)],
          [[(0, 0), (6, 0), (6, 2), (0, 2)], [(0, 2), (2, 2), (2, 5), (0, 5)], [(4, 2), (6, 2), (6, 5), (4, 5)]]),
}
# larger ones, for a single listing
BIG = {
    'comb': ([(0, 0), (10, 0), (10, 6), (8, 6), (8, 2), (6, 2), (6, 6), (4, 6), (4, 2), (2, 2), (2, 6), (0, 6)],
             [[(0, 0), (10, 0), (10, 2), (0, 2)], [(0, 2), (2, 2), (2, 6), (0, 6)], [(4, 2), (6, 2), (6, 6), (4, 6)], [(8, 2), (10, 2), (10, 6), (8, 6)]]),
    'octagon': ([(2, 0), (4, 0), (6, 2), (6, 4), (4, 6), (2, 6), (0, 4), (0, 2)], [[(2, 0), (4, 0), (6, 2), (6, 4), (4, 6), (2, 6), (0, 4), (0, 2)]]),
    'zigzag': ([(0, 0), (2, 3), (4, 0), (6, 3), (8, 0), (8, 5), (6, 8), (4, 5), (2, 8), (0, 5)],
               [[(0, 0), (2, 3), (2, 8), (0, 5)], [(4, 0), (4, 5), (2, 8), (2, 3)], [(4, 0), (6, 3), (6, 8), (4, 5)], [(8, 0), (8, 5), (6, 8), (6, 3)]]),
}
SHAPES['triangle'] = (SHAPES['triangle'][0], [SHAPES['triangle'][0]])


def order(vs, k):
    """k-th listing of the same outline: rotations, then reversed rotations"""
    n = len(vs)
    r = vs if k % 2 == 0 else vs[::-1]
    s = (k // 2) % n
    return r[s:] + r[:s]


def side(p, q, x, y):
    return (q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])


def in_piece(t, c, x, y):
    return t.And(*[side(c[i], c[(i + 1) % len(c)], x, y) >= 0 for i in range(len(c))])


def on_edge(t, p, q, x, y):
    lo, hi = min(p[0], q[0]), max(p[0], q[0])
    lw, hg = min(p[1], q[1]), max(p[1], q[1])
    return t.And(t.exact(side(p, q, x, y), 0), lo <= x, x <= hi, lw <= y, y <= hg)


def on_outline(t, vs, x, y):
    return t.Or(*[on_edge(t, vs[i], vs[(i + 1) % len(vs)], x, y) for i in range(len(vs))])


def build(t, vs, ox=0, oy=0):
    return [t.V(ox + x, oy + y) for x, y in vs]


def verts(t, P, vs, ox=0, oy=0):
    got = P.vertices()
    return t.And(len(got) == len(vs), *[t.And(t.exact(v.x(), ox + x), t.exact(v.y(), oy + y)) for v, (x, y) in zip(got, vs)])


@case('C26', params=[(s, k, a) for s in SHAPES for k in (0, 1) for a in (True, False, None)])
def contains(t, shape, k, allow):
    vs, pieces = SHAPES[shape]
    vs = order(vs, k)
    x, y = t.xy('p', -1000, 1000)
    P = t.L.Polygon2D(build(t, vs))
    p = t.V(x, y)
    closed = t.Or(*[in_piece(t, c, x, y) for c in pieces])
    if allow is None:
        r = P.contains(p)
    else:
        r = P.contains(p, allow)
    if allow is False:
        want = t.And(closed, t.Not(on_outline(t, vs, x, y)))
        t.check('exactly the inner points', t.Iff(r, want))
    else:
        t.check('exactly the points inside or on the outline', t.Iff(r, closed))
    t.check('unchanged', t.And(verts(t, P, vs), t.exact(p.x(), x), t.exact(p.y(), y)))


@case('C26', params=[(s, k) for s in BIG for k in (0, 5)], weight=2)
def contains_big(t, shape, k):
    contains_body(t, shape, order(BIG[shape][0], k), BIG[shape][1])


@case('C26', params=[(s, f) for s in ('triangle', 'dart', 'u') for f in (0.001, 1000, 1e6)])
def contains_scaled(t, shape, f):
    """the same shapes, small and large; a point off the outline"""
    vs, pieces = SHAPES[shape]
    x, y = t.xy('p', -1000, 1000)
    P = t.L.Polygon2D([t.V(u * f, v * f) for u, v in vs])
    m = 0.001
    if t.choice('where', ['in', 'out']) == 'in':
        t.assume(t.Or(*[t.And(*[side(c[i], c[(i + 1) % len(c)], x, y) >= m for i in range(len(c))]) for c in pieces]))
        t.check('inside', t.And(P.contains(t.V(x * f, y * f)), P.contains(t.V(x * f, y * f), False)))
    else:
        for c in pieces:
            t.assume(t.Or(*[side(c[i], c[(i + 1) % len(c)], x, y) <= -m for i in range(len(c))]))
        t.check('outside', t.Not(t.Or(P.contains(t.V(x * f, y * f)), P.contains(t.V(x * f, y * f), False))))


@case('C26', params=[('triangle', 0), ('ell', 0), ('dart', 1), ('square', 1)])
def contains_moved(t, shape, k):
    """the same shapes anywhere in the plane"""
    vs, pieces = SHAPES[shape]
    vs = order(vs, k)
    ox, oy = t.xy('o', -1000, 1000)
    x, y = t.xy('p', -1000, 1000)
    P = t.L.Polygon2D(*build(t, vs, ox, oy))
    closed = t.Or(*[in_piece(t, c, x, y) for c in pieces])
    edge = on_outline(t, vs, x, y)
    # a point on a slanted outline cannot be represented exactly in general
    allow = t.choice('allow', [True, False])
    r = P.contains(t.V(ox + x, oy + y), allow)
    if allow:
        t.check('inside', t.Implies(t.And(closed, t.Not(edge)), r))
        t.check('outside', t.Implies(t.Not(closed), t.Not(r)))
    else:
        t.check('exactly the inner points', t.Iff(r, t.And(closed, t.Not(edge))))


@case('C26', params=[(s, k) for s in SHAPES for k in range(2, 2 * len(SHAPES[s][0]))], thorough_only=True)
def contains_orders(t, shape, k):
    contains_body(t, shape, order(SHAPES[shape][0], k))


@case('C26', params=['triangle', 'ell', 'diamond'])
def contains_closed_list(t, shape):
    """the first vertex repeated at the end"""
    vs = SHAPES[shape][0]
    contains_body(t, shape, vs + vs[:1])


@case('C26', params=[('u', 5), ('dart', 4), ('ell', 7), ('notch', 6), ('split', 3), ('diamond', 4)])
def contains_order(t, shape, k):
    contains_body(t, shape, order(SHAPES[shape][0], k))


def contains_body(t, shape, vs, pieces=None):
    x, y = t.xy('p', -1000, 1000)
    P = t.L.Polygon2D(build(t, vs))
    closed = t.Or(*[in_piece(t, c, x, y) for c in pieces or SHAPES[shape][1]])
    allow = t.choice('allow', [True, False])
    r = P.contains(t.V(x, y), allow)
    if allow:
        t.check('exactly the points inside or on the outline', t.Iff(r, closed))
    else:
        t.check('exactly the inner points', t.Iff(r, t.And(closed, t.Not(on_outline(t, vs, x, y)))))


@case('C26', params=[(k, z) for k in (0, 1) for z in ('in', 'out')])
def contains_triangle(t, k, where):
    """triangles with one horizontal side, at symbolic width, height and slant"""
    ox, oy = t.xy('o', -1000, 1000)
    w, h, s = t.real('w', 0.1, 1000), t.real('h', 0.1, 1000), t.real('s', -1000, 1000)
    u, v = t.real('u', -2, 3), t.real('v', -2, 3)
    x, y = u * w + v * s, v * h
    m = 0.001
    if where == 'in':
        t.assume(t.And(u >= m, v >= m, u + v <= 1 - m))
    else:
        t.assume(t.Or(u <= -m, v <= -m, u + v >= 1 + m))
    vs = order([(0, 0), (w, 0), (s, h)], k)
    P = t.L.Polygon2D(build(t, vs, ox, oy))
    r = P.contains(t.V(ox + x, oy + y))
    t.check('inside' if where == 'in' else 'outside', r if where == 'in' else t.Not(r))


@case('C26')
def contains_degenerate(t):
    """no, one, two vertices"""
    a, b, p = t.xy('a', -1000, 1000), t.xy('b', -1000, 1000), t.xy('p', -1000, 1000)
    Q = t.L.Polygon2D
    t.check('no vertices: nothing', t.And(t.Not(Q([]).contains(t.V(*p))), t.Not(Q([]).contains(t.V(*p), False))))
    one = Q([t.V(*a)])
    t.check('one vertex: that point', t.And(t.Iff(one.contains(t.V(*p)), t.And(t.exact(a[0], p[0]), t.exact(a[1], p[1]))), t.Not(one.contains(t.V(*p), False))))
    dx, dy = t.choice('dir', [(4, 0), (0, 3), (-2, 0), (0, -5)])
    two = Q([t.V(*a), t.V(a[0] + dx, a[1] + dy)])
    want = on_edge(t, (0, 0), (dx, dy), p[0] - a[0], p[1] - a[1])
    t.check('two vertices: the segment', t.And(t.Iff(two.contains(t.V(*p)), want), t.Not(two.contains(t.V(*p), False))))


# ------------------------------------------------------------------ C27 measures and container behaviour

def poly(t, n, lo=-1e7, hi=1e7):
    vs = [t.xy('v%d' % i, lo, hi) for i in range(n)]
    return t.L.Polygon2D([t.V(*v) for v in vs]), vs


def shoelace(vs):
    n = len(vs)
    return sum(vs[i][0] * vs[(i + 1) % n][1] - vs[(i + 1) % n][0] * vs[i][1] for i in range(n)) if n >= 3 else 0


@case('C27', params=[0, 1, 2, 3, 4, 5, 6, 8, 13])
def area(t, n):
    P, vs = poly(t, n)
    k = shoelace(vs)
    t.check('double signed area', t.eq(P.double_signed_area(), k))
    t.check('area', t.And(t.le(0, P.area()), t.eq(4 * P.area() * P.area(), k * k)))
    t.check('orientation', t.And(t.Iff(P.is_counter_clockwise(), k > 0), t.Iff(P.is_clockwise(), k < 0)))
    t.check('unchanged', verts(t, P, vs))


@case('C27')
def area_triangle(t):
    P, vs = poly(t, 3)
    T = t.L.Triangle2D(*[t.V(*v) for v in vs])
    t.check('agrees with the triangle', t.And(t.eq(P.area(), T.area()), t.eq(P.double_signed_area(), T.double_signed_area())))


@case('C27', params=[1, 2, 3, 4])
def bounding_box(t, n):
    P, vs = poly(t, n)
    r = P.get_bounding_box()
    L, R, T, B = r.left(), r.right(), r.top(), r.bottom()
    t.check('covers every vertex', t.And(*[t.And(t.le(L, x), t.le(x, R), t.le(T, y), t.le(y, B)) for x, y in vs]))
    t.check('tight', t.And(t.Or(*[t.eq(x, L) for x, _ in vs]), t.Or(*[t.eq(x, R) for x, _ in vs]),
                           t.Or(*[t.eq(y, T) for _, y in vs]), t.Or(*[t.eq(y, B) for _, y in vs])))
    c = P.bounding_box_center()
    t.check('centre', t.And(t.eq(2 * c.x(), L + R), t.eq(2 * c.y(), T + B)))
    t.check('unchanged', verts(t, P, vs))


@case('C27')
def empty(t):
    P = t.L.Polygon2D([])
    t.check('no vertices: no area', t.And(t.exact(P.area(), 0), t.Not(P.is_clockwise()), t.Not(P.is_counter_clockwise()), t.Not(P.get_bounding_box().is_valid())))


DIST = ['right', 'square', 'dart2', 'ell']
# integer side lengths: distances are then computed from exact constants
SHAPES['right'] = ([(0, 0), (4, 0), (0, 3)], [[(0, 0), (4, 0), (0, 3)]])
SHAPES['dart2'] = ([(0, 0), (35, 12), (0, 24), (9, 12)], [[(0, 0), (35, 12), (9, 12)], [(9, 12), (35, 12), (0, 24)]])


def deep(t, c, x, y):
    return t.And(*[side(c[i], c[(i + 1) % len(c)], x, y) >= 1e-3 for i in range(len(c))])


@case('C27', params=[(s, a) for s in DIST for a in ('plane', 'default', 'outline')], weight=3)
def distance(t, shape, how):
    vs, pieces = SHAPES[shape]
    x, y = t.xy('p', -1000, 1000)
    P = t.L.Polygon2D(build(t, vs))
    p = t.V(x, y)
    d = P.dist(p, True) if how == 'plane' else P.dist(p) if how == 'default' else P.dist(p, False)
    n = len(vs)
    k = t.choice('edge', list(range(n)))
    l = t.real('l', 0, 1)
    A, B = vs[k], vs[(k + 1) % n]
    ux, uy = A[0] + l * (B[0] - A[0]) - x, A[1] + l * (B[1] - A[1]) - y
    t.check('no outline point is nearer', t.And(t.le(0, d), t.le(d * d, ux * ux + uy * uy)))
    if how != 'outline':
        t.check('inside: 0', t.Implies(t.Or(*[deep(t, c, x, y) for c in pieces]), t.exact(d, 0)))
    t.check('unchanged', t.And(verts(t, P, vs), t.exact(p.x(), x), t.exact(p.y(), y)))


@case('C27', params=[(s, a) for s in DIST for a in (True, False)], weight=2)
def distance_attained(t, shape, plane):
    """it is the distance of one of the sides"""
    vs, pieces = SHAPES[shape]
    x, y = t.xy('p', -1e5, 1e5)
    P = t.L.Polygon2D(build(t, vs))
    if plane:
        # outside, by a margin
        for c in pieces:
            t.assume(t.Or(*[side(c[i], c[(i + 1) % len(c)], x, y) <= -1e-3 for i in range(len(c))]))
    d = P.dist(t.V(x, y), plane)
    n = len(vs)
    es = [t.L.Segment2D(t.V(*vs[i]), t.V(*vs[(i + 1) % n])).dist(t.V(x, y)) for i in range(n)]
    t.check('attained', t.And(t.Or(*[t.eq(d, e) for e in es]), *[t.le(d, e) for e in es]))


@case('C27', params=[1, 2])
def distance_small(t, n):
    a, b, p = t.xy('a', -1000, 1000), t.xy('b', -1000, 1000), t.xy('p', -1000, 1000)
    if n == 1:
        P = t.L.Polygon2D([t.V(*a)])
        d = P.dist(t.V(*p), t.choice('plane', [True, False]))
        t.check('distance to the vertex', t.And(t.le(0, d), t.eq(d * d, (a[0] - p[0]) * (a[0] - p[0]) + (a[1] - p[1]) * (a[1] - p[1]))))
    else:
        dx, dy = t.choice('dir', [(4, 0), (0, 3), (3, 4)])
        P = t.L.Polygon2D([t.V(*a), t.V(a[0] + dx, a[1] + dy)])
        d = P.dist(t.V(*p), False)
        t.check('distance to the segment', t.eq(d, t.L.Segment2D(t.V(*a), t.V(a[0] + dx, a[1] + dy)).dist(t.V(*p))))


@case('C27', params=['list', 'points', 'assign', 'add'])
def container(t, how):
    """the polygon keeps its own list"""
    n = t.choice('n', [4, 1, 2, 3, 5, 6, 9, 16, 30])
    vs = [t.xy('v%d' % i, -1000, 1000) for i in range(min(n, 4))] + [(i, i * i) for i in range(4, n)]
    pts = [t.V(*v) for v in vs]
    if how == 'list':
        P = t.L.Polygon2D(pts)
    elif how == 'points':
        P = t.L.Polygon2D(*pts)
    elif how == 'assign':
        P = t.L.Polygon2D([t.V(1, 2)])
        t.check('assign returns the polygon', P.assign(pts) is P)
    else:
        P = t.L.Polygon2D(pts[:-1])
        P.area()
        if 1 < n <= 4:
            P.bounding_box_center()
        P.add_vertex(pts[-1])
    t.check('vertices in order', verts(t, P, vs))
    pts.append(t.V(1, 1))
    pts.pop(0)
    got = P.vertices()
    got.append(t.V(5, 5))
    got.reverse()
    t.check('own list', verts(t, P, vs))
    if how == 'points':
        for q in pts:
            q.assign(99, 99)
        t.check('own points', verts(t, P, vs))
    P.add_vertex(t.V(3, 4))
    t.check("adding leaves the caller's list", len(pts) == n)
    P.clear()
    t.check('clear leaves one vertex at the origin', verts(t, P, [(0, 0)]))
    t.check('default polygon', verts(t, t.L.Polygon2D(), [(0, 0)]))


@case('C27')
def history(t):
    """answers after a change are those of a polygon built afresh"""
    vs = [(0, 0), (6, 0), (1, 5)]
    x, y = t.xy('v', -1000, 1000)
    px, py = t.choice('p', [(2, 2), (5, 4), (-3, 7)])
    P = t.L.Polygon2D(build(t, vs))
    p = t.V(px, py)
    P.area(), P.contains(p), P.dist(p), P.get_bounding_box(), P.double_signed_area(), P.is_clockwise()
    what = t.choice('change', ['add', 'assign', 'move'])
    if what == 'add':
        P.add_vertex(t.V(x, y))
        ws = vs + [(x, y)]
    elif what == 'assign':
        ws = [(1, 1), (x, y), (7, 3)]
        P.assign([t.V(*w) for w in ws])
    else:
        ws = [(x, y)] + vs[1:]
        P.vertices_()[0].assign(x, y)
    k = shoelace(ws)
    t.check('area', t.And(t.eq(P.double_signed_area(), k), t.Iff(P.is_clockwise(), k < 0)))
    Q = t.L.Polygon2D([t.V(*w) for w in ws])
    q, r = P.get_bounding_box(), Q.get_bounding_box()
    t.check('box', t.And(t.eq(q.left(), r.left()), t.eq(q.right(), r.right()), t.eq(q.top(), r.top()), t.eq(q.bottom(), r.bottom())))
    t.check('contains', t.Iff(P.contains(p), Q.contains(p)))
    t.check('vertices', verts(t, P, ws))


@case('C27', params=['add', 'assign', 'move'])
def history_distance(t, what):
    vs = [(0, 0), (6, 0), (6, 8)]
    x = t.real('x', -20, -1)
    p = t.V(*t.choice('p', [(2, 2), (-3, 5), (7, 7)]))
    P = t.L.Polygon2D(build(t, vs))
    P.dist(p), P.dist(p, False)
    if what == 'add':
        P.add_vertex(t.V(x, 8))
        ws = vs + [(x, 8)]
    elif what == 'assign':
        ws = [(x, 0), (6, 0), (6, 8), (x, 8)]
        P.assign([t.V(*w) for w in ws])
    else:
        ws = [(x, 0)] + vs[1:]
        P.vertices_()[0].set_x(x)
    Q = t.L.Polygon2D([t.V(*w) for w in ws])
    t.check('to the outline', t.eq(P.dist(p, False), Q.dist(p, False)))
    t.check('to the plane', t.eq(P.dist(p), Q.dist(p)))


# ------------------------------------------------------------------ C28 clipping

CONVEX = {
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'triangle': [(0, 0), (6, 0), (1, 5)],
    'diamond': [(0, -2), (3, 0), (0, 4), (-3, 0)],
    'kite': [(0, 0), (2, -2), (6, 0), (2, 2)],
    'octagon': BIG['octagon'][0],
}


def clip(t, shape, k, L, R, T, B, x, y, f=1, ox=0, oy=0):
    """p = (x, y) is in the clipped polygon iff it is in the polygon and in the rectangle"""
    out = [(f * vx, f * vy) for vx, vy in CONVEX[shape]]
    vs = order(out, k)
    P = t.L.Polygon2D(build(t, vs, ox, oy))
    rect = t.L.Rect2D(t.V(ox + L, oy + T), R - L, B - T)
    C = P.get_rectangle_clipped_polygon(rect)
    got = [(v.x() - ox, v.y() - oy) for v in C.vertices()]
    sides = list(zip(out, out[1:] + out[:1]))
    inp = in_piece(t, out, x, y)
    inr = t.And(L <= x, x <= R, T <= y, y <= B)
    e = 1e-9
    for u, v in got:
        t.check('corners lie in polygon and rectangle', t.And(*[side(a, b, u, v) >= -e for a, b in sides],
                                                             L - e <= u, u <= R + e, T - e <= v, v <= B + e))
    n = len(got)
    s = 1 if k % 2 == 0 else -1
    if n == 0:
        t.check('nothing in common', t.Not(t.And(inp, inr, *[side(a, b, x, y) > 0 for a, b in sides], L < x, x < R, T < y, y < B)))
    else:
        t.check('covers all common points', t.Implies(t.And(inp, inr), t.And(*[s * side(got[i], got[(i + 1) % n], x, y) >= -e for i in range(n)])))
    t.check('unchanged', t.And(verts(t, P, vs, ox, oy), t.eq(rect.left(), ox + L), t.eq(rect.right(), ox + R), t.eq(rect.top(), oy + T), t.eq(rect.bottom(), oy + B)))


@case('C28', params=[(s, k, c) for s, k in (('triangle', 0), ('kite', 1), ('square', 1)) for c in ('left', 'right', 'top')])
def clip_placed(t, shape, k, cut):
    """one side cuts a polygon of another size somewhere in the plane"""
    f = t.choice('f', [0.0625, 1, 128])
    ox, oy = t.xy('o', -1000, 1000)
    x, y = t.xy('p', -1000, 1000)
    z = t.real('z', -9, 9) * f
    L, R, T, B = -20 * f, 20 * f, -20 * f, 20 * f
    if cut == 'left':
        L = z
    elif cut == 'right':
        R = z
    else:
        T = z
    clip(t, shape, k, L, R, T, B, x, y, f, ox, oy)


@case('C28', params=[(s, k, c) for s in CONVEX for k in (0, 1) for c in ('left', 'right', 'top')])
def clip_side(t, shape, k, cut):
    """one side of the rectangle cuts the polygon, the others are outside it"""
    x, y = t.xy('p', -1000, 1000)
    z = t.real('z', -9, 9)
    L, R, T, B = -20, 20, -20, 20
    if cut == 'left':
        L = z
    elif cut == 'right':
        R = z
    else:
        T = z
    clip(t, shape, k, L, R, T, B, x, y)


def clip_free(t, shape, k, L, R, T):
    x, y = t.xy('p', -1000, 1000)
    for v in CONVEX[shape]:
        t.assume(t.And(t.abs(L - v[0]) >= 0.001, t.abs(R - v[0]) >= 0.001, t.abs(T - v[1]) >= 0.001))
    for a, b in zip(CONVEX[shape], CONVEX[shape][1:] + CONVEX[shape][:1]):
        t.assume(t.And(t.abs(side(a, b, L, T)) >= 0.01, t.abs(side(a, b, R, T)) >= 0.01))
    clip(t, shape, k, L, R, T, 20, x, y)


@case('C28', params=[('square', 0), ('square', 1)], weight=2)
def clip_three(t, shape, k):
    L, w, T = t.real('L', -4, 4), t.real('w', 0.1, 500), t.real('T', -3, 3)
    clip_free(t, shape, k, L, L + w, T)


@case('C28', params=[(s, k, c) for s, k in (('diamond', 0), ('diamond', 1), ('kite', 0), ('triangle', 1)) for c in ('LT', 'RT', 'LR')], weight=2)
def clip_two(t, shape, k, cut):
    L, R, T = -20, 20, -20
    if 'L' in cut:
        L = t.real('L', -4, 6)
    if 'R' in cut:
        R = (L if 'L' in cut else -4) + t.real('w', 0.1, 500)
    if 'T' in cut:
        T = t.real('T', -3, 5)
    clip_free(t, shape, k, L, R, T)


@case('C28', params=[('diamond', 0), ('diamond', 1), ('triangle', 0), ('kite', 1)], weight=2, thorough_only=True)
def clip_three_more(t, shape, k):
    L, w, T = t.real('L', -4, 4), t.real('w', 0.1, 500), t.real('T', -3, 3)
    clip_free(t, shape, k, L, L + w, T)


@case('C28', params=[(c, k) for c in ('left', 'right', 'top') for k in (0, 1, 2, 5)])
def clip_sliver(t, cut, k):
    """a corner sticks out by less than 1e-6"""
    d = t.real('d', 1e-9, 0.9e-6)
    vs = {'left': lambda: [(-d, 0), (6, 0), (6, 4), (0, 4)], 'right': lambda: [(0, 0), (6, 0), (6 + d, 4), (0, 4)],
          'top': lambda: [(0, 0), (6, -d), (6, 4), (0, 4)]}[cut]()
    P = t.L.Polygon2D(build(t, order(vs, k)))
    L, R, T = -3, 9, -3
    if cut == 'left':
        L = 0
    elif cut == 'right':
        R = 6
    else:
        T = 0
    C = P.get_rectangle_clipped_polygon(t.L.Rect2D(t.V(L, T), R - L, 30))
    t.check('the rest is kept', t.And(C.area() >= 23.99, C.area() <= 24.01))


@case('C28')
def clip_inside(t):
    """the rectangle covers the polygon: nothing changes"""
    ox, oy = t.xy('o', -1000, 1000)
    a, b, c, d = t.real('a', 0.1, 9), t.real('b', 0.1, 9), t.real('c', 0.1, 9), t.real('d', 0.1, 9)
    shape = t.choice('shape', list(SHAPES))
    vs = SHAPES[shape][0]
    xs, ys = [v[0] for v in vs], [v[1] for v in vs]
    P = t.L.Polygon2D(build(t, vs, ox, oy))
    rect = t.L.Rect2D(t.V(ox + min(xs) - a, oy + min(ys) - b), max(xs) - min(xs) + a + c, max(ys) - min(ys) + b + d)
    C = P.get_rectangle_clipped_polygon(rect)
    t.check('same area', t.eq(C.double_signed_area(), shoelace(vs)))
    got = C.vertices()
    t.check('same vertices', t.And(len(got) == len(vs), *[t.Or(*[t.eqv(g, ox + v[0], oy + v[1]) for g in got]) for v in vs]))
    t.check('unchanged', verts(t, P, vs, ox, oy))


@case('C28', params=['left', 'right', 'above', 'below'])
def clip_away(t, where):
    ox, oy = t.xy('o', -1000, 1000)
    g = t.real('g', 0.1, 1000)
    shape = t.choice('shape', list(SHAPES))
    vs = SHAPES[shape][0]
    x0, x1, y0, y1 = min(v[0] for v in vs), max(v[0] for v in vs), min(v[1] for v in vs), max(v[1] for v in vs)
    w, h = t.real('w', 0.1, 1000), t.real('h', 0.1, 1000)
    rx, ry = {'left': (x0 - g - w, y0), 'right': (x1 + g, y0), 'above': (x0, y0 - g - h), 'below': (x0, y1 + g)}[where]
    if where in ('left', 'right'):
        h = y1 - y0 + 1
        ry = y0 - 0.5
    P = t.L.Polygon2D(build(t, vs, ox, oy))
    C = P.get_rectangle_clipped_polygon(t.L.Rect2D(t.V(ox + rx, oy + ry), w, h))
    t.check('nothing left', t.eq(C.area(), 0))


@case('C28')
def clip_bottom(t, T=0, w=6, h=2):
    """the lower side of the rectangle cuts the polygon (known finding)"""
    vs = [(0, 0), (4, 0), (4, 4), (0, 4)]
    P = t.L.Polygon2D(build(t, vs))
    C = P.get_rectangle_clipped_polygon(t.L.Rect2D(t.V(-1, T), w, h))
    t.check('clipped below', t.eq(C.area(), 4 * (T + h)))
