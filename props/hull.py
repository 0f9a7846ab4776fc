"""C30: ConvexHull"""
from sx.ctx import case
from .polygon import side

METHODS = ['WRAPPING_METHOD', 'GRAHAN_SCAN']


def same(t, v, p):
    return t.And(t.exact(v.x(), p[0]), t.exact(v.y(), p[1]))


def compute(t, h, m):
    if m is None:
        h.compute()
    else:
        h.compute(getattr(t.L.MethodType, m))


def hull(t, ps, m, order=None):
    pts = [t.V(*p) for p in ps]
    h = t.L.ConvexHull(pts)
    compute(t, h, m)
    return h, pts


def is_hull(t, h, ps, m, tag=''):
    """the vertices are input points, pairwise different, and every input point lies on the inner side of every edge"""
    vs = h.vertices()
    n = len(vs)
    t.check('three or more vertices' + tag, n >= 3)
    t.check('vertices are input points' + tag, t.And(*[t.Or(*[same(t, v, p) for p in ps]) for v in vs]))
    t.check('no vertex twice' + tag, t.And(True, *[t.Not(t.And(t.exact(vs[i].x(), vs[j].x()), t.exact(vs[i].y(), vs[j].y()))) for i in range(n) for j in range(i)]))
    s = -1 if m == 'GRAHAN_SCAN' else 1
    c = [(v.x(), v.y()) for v in vs]
    e = 1e-9
    t.check('all points on one side of each edge' + tag, t.And(*[s * side(c[i], c[(i + 1) % n], *p) >= -e for i in range(n) for p in ps]))
    E = h.edges()
    t.check('one edge per vertex' + tag, len(E) == n)
    ends = [((g.origin().x(), g.origin().y()), (g.terminal().x(), g.terminal().y())) for g in E]

    def eq2(a, b):
        return t.And(t.exact(a[0], b[0]), t.exact(a[1], b[1]))
    t.check('edges join consecutive vertices' + tag, t.And(*[t.Or(*[t.Or(t.And(eq2(a, c[i]), eq2(b, c[(i + 1) % n])), t.And(eq2(b, c[i]), eq2(a, c[(i + 1) % n]))) for a, b in ends]) for i in range(n)]))
    Q = h.to_polygon().vertices()
    t.check('polygon of the vertices' + tag, t.And(len(Q) == n, *[same(t, q, v) for q, v in zip(Q, c)]))
    return c


def kept(t, h, pts, ps):
    got = h.input_points()
    t.check("caller's list unchanged", t.And(len(pts) == len(ps), *[same(t, v, p) for v, p in zip(pts, ps)]))
    t.check('input points kept', t.And(len(got) == len(ps), *[t.Or(*[same(t, v, p) for v in got]) for p in ps]))


def general(t, ps, free):
    """no three points nearly on a line (triples that contain a symbolic point)"""
    n = len(ps)
    for i in range(n):
        for j in range(i):
            for k in range(j):
                if {i, j, k} & set(free):
                    t.assume(t.abs(side(ps[i], ps[j], *ps[k])) >= 0.01)


@case('C30', params=METHODS + [None])
def three(t, m):
    ps = [t.xy('p%d' % i, -1000, 1000) for i in range(3)]
    general(t, ps, range(3))
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)
    kept(t, h, pts, ps)


@case('C30', params=METHODS, weight=3, budget=240)
def four(t, m):
    ps = [t.xy('p%d' % i, -1000, 1000) for i in range(4)]
    general(t, ps, range(4))
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)
    kept(t, h, pts, ps)


SETS = {
    'quad': [(0, 0), (5, 1), (6, 6), (1, 4)],
    'inner': [(0, 0), (8, 1), (3, 7), (3, 3)],
    'five': [(1, 0), (6, -1), (8, 4), (4, 8), (0, 5)],
    'six': [(3, 3), (0, 1), (7, 0), (9, 6), (4, 9), (4, 4)],
    'ten': [(0, 0), (12, 1), (5, 2), (14, 7), (11, 12), (7, 6), (4, 13), (-1, 8), (3, 9), (9, 4)],
    'upright': [(2, 0), (2, 5), (6, 1), (6, 7)],
}


@case('C30', params=[(s, k, m) for s in ('quad', 'inner', 'five', 'upright') for k in (0, 2, 'last') for m in METHODS])
def one_more(t, name, k, m):
    """a further point anywhere"""
    ps = list(SETS[name])
    k = len(ps) if k == 'last' else k
    ps.insert(k, t.xy('p', -1000, 1000))
    general(t, ps, [k])
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)
    kept(t, h, pts, ps)


@case('C30', params=[(k, m) for k in (0, 5, 10) for m in METHODS], budget=200)
def ten_more(t, k, m):
    """ten points and a further one"""
    ps = list(SETS['ten'])
    ps.insert(k, t.xy('p', -1000, 1000))
    general(t, ps, [k])
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)
    kept(t, h, pts, ps)


@case('C30', params=[(s, k, m) for s in ('six', 'five', 'inner') for k in (0, 1, 3) for m in METHODS], thorough_only=True)
def one_more_deep(t, name, k, m):
    ps = list(SETS[name])
    ps.insert(k, t.xy('p', -1000, 1000))
    general(t, ps, [k])
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)


@case('C30', params=[(s, m) for s in ('quad', 'inner') for m in METHODS], thorough_only=True, budget=600)
def two_more(t, name, m):
    ps = list(SETS[name])
    ps.insert(1, t.xy('p', -1000, 1000))
    ps.insert(3, t.xy('q', -1000, 1000))
    general(t, ps, [1, 3])
    h, pts = hull(t, ps, m)
    is_hull(t, h, ps, m)


@case('C30', params=[(k, m) for k in (0, 1, 2, 3) for m in METHODS])
def on_edge(t, k, m):
    """a point inside one of the hull's edges"""
    base = t.choice('base', [[(0, 0), (8, 0), (8, 4), (0, 4)], [(0, 0), (4, -4), (8, 0), (4, 4)], [(0, 1), (4, 3), (2, 7), (-4, 4)]])
    i = t.choice('edge', [0, 1, 2, 3])
    l = t.real('l', 0.01, 0.99)
    a, b = base[i], base[(i + 1) % 4]
    ps = base[k:] + base[:k]
    ps.insert(t.choice('at', [0, 2, 4]), (a[0] + l * (b[0] - a[0]), a[1] + l * (b[1] - a[1])))
    h, pts = hull(t, ps, m)
    c = is_hull(t, h, ps, m)
    t.check('no corner lost', t.And(*[t.Or(*[t.And(t.exact(v[0], p[0]), t.exact(v[1], p[1])) for v in c]) for p in base]))
    kept(t, h, pts, ps)


@case('C30', params=METHODS)
def grid(t, m):
    """a box with points on all of its sides"""
    w, d = t.real('w', 1, 1000), t.real('h', 1, 1000)
    ox, oy = t.xy('o', -1000, 1000)
    ps = [(0, 0), (w / 2, 0), (w, 0), (w, d / 2), (w, d), (w / 2, d), (0, d), (0, d / 2)]
    ps = [(ox + x, oy + y) for x, y in ps]
    k = t.choice('first', [0, 3, 4, 6])
    ps = ps[k:] + ps[:k]
    if t.choice('listing', ['ccw', 'cw']) == 'cw':
        ps.reverse()
    h, pts = hull(t, ps, m)
    P = h.to_polygon()
    t.check('area of the box', t.eq(P.area(), w * d))
    t.check('no corner lost', t.And(*[t.Or(*[t.And(t.eq(v.x(), x), t.eq(v.y(), y)) for v in h.vertices()]) for x in (ox, ox + w) for y in (oy, oy + d)]))


@case('C30', params=METHODS)
def few(t, m):
    n = t.choice('n', [0, 1, 2])
    ps = [t.xy('p%d' % i, -1000, 1000) for i in range(n)]
    h, pts = hull(t, ps, m)
    t.check('fewer than three points: no hull', t.And(len(h.vertices()) == 0, len(h.edges()) == 0))
    kept(t, h, pts, ps)


@case('C30', params=[(w, m) for w in ('again', 'point', 'points', 'clear', 'results', 'other') for m in METHODS])
def history(t, what, m):
    """results after a change are those of a hull built afresh"""
    ps = list(SETS['quad'])
    x, y = t.xy('p', -1000, 1000)
    pts = [t.V(*p) for p in ps]
    h = t.L.ConvexHull(pts)
    compute(t, h, m)
    q = (x, y)
    if what == 'again':
        ps.append(q)
        h.add_point(t.V(*q))
        compute(t, h, m)
        compute(t, h, m)
    elif what == 'point':
        ps.append(q)
        h.add_point(t.V(*q))
        compute(t, h, m)
    elif what == 'points':
        ps += [q, (3, 3)]
        more = [t.V(*q), t.V(3, 3)]
        h.add_points(more)
        t.check('added list unchanged', len(more) == 2)
        compute(t, h, m)
    elif what == 'clear':
        h.clear()
        t.check('cleared', t.And(len(h.vertices()) == 0, len(h.edges()) == 0, len(h.input_points()) == 0))
        ps = [(1, 1), q, (5, 2), (3, 9)]
        h.add_points([t.V(*p) for p in ps])
        compute(t, h, m)
    elif what == 'results':
        ps.append(q)
        h.add_point(t.V(*q))
        h.clear_results()
        t.check('no results', t.And(len(h.vertices()) == 0, len(h.edges()) == 0, len(h.input_points()) == len(ps)))
        h.vertices().append(1)
        h.edges().append(1)
        h.input_points().clear()
        compute(t, h, m)
        h.vertices().clear()
        h.edges().clear()
        h.input_points().clear()
        h.to_polygon().add_vertex(t.V(1, 2))
        h.to_polygon().clear()
    else:
        ps.append(q)
        compute(t, h, [z for z in METHODS if z != m][0])
        h.add_point(t.V(*q))
        compute(t, h, m)
    general(t, ps, [i for i, p in enumerate(ps) if p is q])
    is_hull(t, h, ps, m)
    t.check("caller's list unchanged", len(pts) == 4)


@case('C30', params=['three', 'quad', 'inner', 'five'])
def agree(t, name):
    """both methods find the same corners"""
    if name == 'three':
        ps = [t.xy('p%d' % i, -1000, 1000) for i in range(3)]
        general(t, ps, range(3))
    else:
        ps = list(SETS[name])
        ps.insert(2, t.xy('p', -1000, 1000))
        general(t, ps, [2])
    a, _ = hull(t, ps, METHODS[0])
    b, _ = hull(t, ps, METHODS[1])
    A, B = a.vertices(), b.vertices()
    t.check('same number', len(A) == len(B))
    t.check('same vertices', t.And(*[t.Or(*[t.And(t.exact(u.x(), v.x()), t.exact(u.y(), v.y())) for v in B]) for u in A]))
    t.check('opposite orientation', t.eq(a.to_polygon().double_signed_area(), -b.to_polygon().double_signed_area()))
    t.check('area', t.eq(a.to_polygon().area(), b.to_polygon().area()))
