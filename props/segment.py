"""C12-C15: Segment2D"""
from sx.ctx import case
from .angle import nd
from .vector import num


def seg(t, n=''):
    """a segment with free end points; returns the object and its coordinates"""
    ax, ay = t.xy(n + 'a')
    bx, by = t.xy(n + 'b')
    return t.L.Segment2D(t.V(ax, ay), t.V(bx, by)), ax, ay, bx, by


def is_seg(t, s, ax, ay, bx, by, f=None):
    f = f or t.exact
    o, e = s.origin(), s.terminal()
    return t.And(f(o.x(), ax), f(o.y(), ay), f(e.x(), bx), f(e.y(), by))


def away(t, dx, dy, lo=2e-6):
    t.assume(dx * dx + dy * dy >= lo * lo)


# ------------------------------------------------------------------ C12 value

@case('C12', params=['init', 'assign'])
def construct(t, how):
    ax, ay, bx, by = num(t, 'ax'), t.real('ay'), t.real('bx'), t.real('by')
    form = t.choice('form', ['points', 'numbers'])
    p, q = t.V(ax, ay), t.V(bx, by)
    args = (p, q) if form == 'points' else (ax, ay, bx, by)
    if how == 'init':
        s = t.L.Segment2D(*args)
    else:
        s = t.L.Segment2D(1, 2, 3, 4)
        s.assign(*args)
    t.check('end points', is_seg(t, s, ax, ay, bx, by))
    t.check('inputs unchanged', t.And(t.exact(p.x(), ax), t.exact(p.y(), ay), t.exact(q.x(), bx), t.exact(q.y(), by)))
    p.assign(7, 8)
    q.assign(9, 10)
    t.check('keeps its end points when the inputs move', is_seg(t, s, ax, ay, bx, by))
    s.origin().assign(1, 1)
    s.terminal().assign(1, 1)
    t.check('readers hand out copies', is_seg(t, s, ax, ay, bx, by))
    t.check('len2', t.And(t.le(0, s.length()),
                          t.eq(s.length() * s.length(), (bx - ax) * (bx - ax) + (by - ay) * (by - ay))))


@case('C12', params=['init', 'assign'])
def construct_polar(t, how):
    ax, ay = t.xy('a')
    r = t.real('r')
    d = nd(t, 'd')
    dd = t.choice('dir', [lambda: d, lambda: t.A(d)])()
    p = t.V(ax, ay)
    if how == 'init':
        s = t.L.Segment2D(p, r, dd)
    else:
        s = t.L.Segment2D()
        s.assign(p, r, dd)
    t.check('end points', is_seg(t, s, ax, ay, ax + r * t.cos(d), ay + r * t.sin(d), t.eq))
    t.check('input unchanged', t.And(t.exact(p.x(), ax), t.exact(p.y(), ay)))


@case('C12')
def construct_none(t):
    s = t.L.Segment2D(t.V(*t.xy('a')), t.V(*t.xy('b')))
    s.assign()
    t.check('cleared', is_seg(t, s, 0, 0, 0, 0))
    t.check('empty', is_seg(t, t.L.Segment2D(), 0, 0, 0, 0))


@case('C12')
def own_ends(t):
    """assigning a segment its own end points, handed out by reference"""
    s, ax, ay, bx, by = seg(t)
    how = t.choice('how', ['exchanged', 'same', 'terminal', 'polar'])
    if how == 'exchanged':
        s.assign(s.terminal_(), s.origin_())
        want = bx, by, ax, ay
    elif how == 'same':
        s.assign(s.origin_(), s.terminal_())
        want = ax, ay, bx, by
    elif how == 'terminal':
        s.assign(s.terminal_(), s.terminal_())
        want = bx, by, bx, by
    else:
        s.assign(s.terminal_(), 2, 0)
        want = bx, by, bx + 2, by
    t.check('new end points', is_seg(t, s, *want, t.eq))
    if how in ('terminal', 'polar'):
        s.origin_().assign(7, 8)
        t.check('ends are separate', is_seg(t, s, 7, 8, want[2], want[3], t.eq))


@case('C12')
def swapping(t):
    s, ax, ay, bx, by = seg(t)
    op = t.choice('op', ['swap', 'reverse', 'reversed_segment', 'copy'])
    r = getattr(s, op)()
    if op == 'copy':
        t.check('copy', t.And(is_seg(t, r, ax, ay, bx, by), r is not s))
    else:
        t.check('swapped', is_seg(t, r, bx, by, ax, ay))
    if op in ('swap', 'reverse'):
        t.check('in place', t.And(r is s, is_seg(t, s, bx, by, ax, ay)))
        r.swap()
        t.check('twice is the identity', is_seg(t, s, ax, ay, bx, by))
    else:
        t.check('source unchanged', is_seg(t, s, ax, ay, bx, by))
        keep = (bx, by, ax, ay) if op == 'reversed_segment' else (ax, ay, bx, by)
        how = t.choice('then', ['assign', 'origin', 'terminal', 'swap', 'result'])
        if how == 'result':
            r.origin_().assign(1, 2)
            r.terminal_().assign(3, 4)
            t.check('source independent of the result', is_seg(t, s, ax, ay, bx, by))
        else:
            if how == 'assign':
                s.assign(1, 2, 3, 4)
            elif how == 'swap':
                s.swap()
            else:
                getattr(s, how + '_')().assign(1, 2)
            t.check('independent', is_seg(t, r, *keep))


@case('C12')
def measures(t):
    s, ax, ay, bx, by = seg(t)
    L = s.length()
    t.check('length', t.And(t.le(0, L), t.eq(L * L, (bx - ax) * (bx - ax) + (by - ay) * (by - ay))))
    l = s.line()
    t.check('line through both ends', t.And(t.eq(l.a() * ax + l.b() * ay + l.c(), 0), t.eq(l.a() * bx + l.b() * by + l.c(), 0)))
    t.check('line is proper', t.Iff(t.And(t.exact(l.a(), 0), t.exact(l.b(), 0)), t.And(t.exact(ax, bx), t.exact(ay, by))))
    t.check('unchanged', is_seg(t, s, ax, ay, bx, by))


@case('C12')
def direction(t):
    s, ax, ay, bx, by = seg(t)
    away(t, bx - ax, by - ay)
    d = s.direction().degree()
    L = s.length()
    t.check('direction', t.And(t.eq(L * t.cos(d), bx - ax), t.eq(L * t.sin(d), by - ay)))


@case('C12')
def bisector(t):
    s, ax, ay, bx, by = seg(t)
    away(t, bx - ax, by - ay)
    l = s.perpendicular_bisector()
    t.check('through the middle', t.eq(l.a() * (ax + bx) + l.b() * (ay + by) + 2 * l.c(), 0))
    t.check('perpendicular', t.eq(l.a() * (by - ay) - l.b() * (bx - ax), 0))
    t.check('proper', t.Or(t.Not(t.exact(l.a(), 0)), t.Not(t.exact(l.b(), 0))))
    t.check('unchanged', is_seg(t, s, ax, ay, bx, by))


@case('C12')
def equality(t):
    s, ax, ay, bx, by = seg(t)
    q, cx, cy, dx, dy = seg(t, 'q')
    same = t.And(t.exact(ax, cx), t.exact(ay, cy), t.exact(bx, dx), t.exact(by, dy))
    t.check('== iff the same end points', t.Iff(s == q, same))


@case('C12')
def equality_weak(t):
    s, ax, ay, bx, by = seg(t)
    q, cx, cy, dx, dy = seg(t, 'q')
    ds = [t.abs(ax - cx), t.abs(ay - cy), t.abs(bx - dx), t.abs(by - dy)]
    r = s.equals_weakly(q)
    t.check('weakly equal when close', t.Implies(t.And(*[d < 0.99e-6 for d in ds]), r))
    t.check('not when any end differs', t.Implies(t.Or(*[d > 1.01e-6 for d in ds]), t.Not(r)))


@case('C12')
def validity(t):
    s, ax, ay, bx, by = seg(t)
    ds = [t.abs(ax - bx), t.abs(ay - by)]
    r = s.is_valid()
    t.check('degenerate: invalid', t.Implies(t.And(*[d < 0.99e-6 for d in ds]), t.Not(r)))
    t.check('proper: valid', t.Implies(t.Or(*[d > 1.01e-6 for d in ds]), r))


# ------------------------------------------------------------------ C13 nearest / dist / farthest

@case('C13')
def nearest(t):
    """no point of the segment is nearer than nearest_point"""
    s, ax, ay, bx, by = seg(t)
    px, py = t.xy('p')
    p = t.V(px, py)
    m = t.real('m', 0, 1)
    n = s.nearest_point(p)
    qx, qy = ax + m * (bx - ax), ay + m * (by - ay)
    dn = (n.x() - px) * (n.x() - px) + (n.y() - py) * (n.y() - py)
    dq = (qx - px) * (qx - px) + (qy - py) * (qy - py)
    t.check('nearest', t.le(dn, dq))
    t.check('collinear with the segment', t.eq((n.x() - ax) * (by - ay), (n.y() - ay) * (bx - ax)))
    t.check('between the ends', t.And(t.le((n.x() - ax) * (n.x() - bx), 0), t.le((n.y() - ay) * (n.y() - by), 0)))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), t.exact(p.x(), px), t.exact(p.y(), py)))
    n.assign(77, 78)
    t.check('result is independent', is_seg(t, s, ax, ay, bx, by))


def pdist2(t, ax, ay, bx, by, px, py):
    """squared distance of p from the segment, by cases"""
    dx, dy = bx - ax, by - ay
    k = dx * (px - ax) + dy * (py - ay)
    L = dx * dx + dy * dy
    if t.split(k <= 0):
        return (px - ax) * (px - ax) + (py - ay) * (py - ay), 1
    if t.split(k >= L):
        return (px - bx) * (px - bx) + (py - by) * (py - by), 1
    c = dx * (py - ay) - dy * (px - ax)
    return c * c, L


@case('C13')
def point_dist(t):
    s, ax, ay, bx, by = seg(t)
    px, py = t.xy('p')
    p = t.V(px, py)
    num_, den = pdist2(t, ax, ay, bx, by, px, py)
    d = s.dist(p)
    t.check('distance to the nearest point', t.And(t.le(0, d), t.eq(d * d * den, num_)))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), t.exact(p.x(), px), t.exact(p.y(), py)))


@case('C13')
def point_dist_degenerate(t):
    ax, ay = t.xy('a')
    px, py = t.xy('p')
    s = t.L.Segment2D(t.V(ax, ay), t.V(ax, ay))
    d2 = (px - ax) * (px - ax) + (py - ay) * (py - ay)
    d, f = s.dist(t.V(px, py)), s.farthest_dist(t.V(px, py))
    t.check('distance to the point', t.And(t.le(0, d), t.eq(d * d, d2)))
    t.check('farthest', t.And(t.le(0, f), t.eq(f * f, d2)))
    t.check('nearest', t.eqv(s.nearest_point(t.V(px, py)), ax, ay))


@case('C13')
def farthest(t):
    s, ax, ay, bx, by = seg(t)
    px, py = t.xy('p')
    m = t.real('m', 0, 1)
    p = t.V(px, py)
    f = s.farthest_dist(p)
    qx, qy = ax + m * (bx - ax), ay + m * (by - ay)
    t.check('no point is farther', t.le((qx - px) * (qx - px) + (qy - py) * (qy - py), f * f))
    d1 = (ax - px) * (ax - px) + (ay - py) * (ay - py)
    d2 = (bx - px) * (bx - px) + (by - py) * (by - py)
    t.check('attained', t.And(t.le(0, f), t.Or(t.eq(f * f, d1), t.eq(f * f, d2))))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), t.exact(p.x(), px), t.exact(p.y(), py)))


SHAPES = {'horizontal': (0, 0, 4, 0), 'vertical': (1, 3, 1, -2), 'slanted': (-1, -1, 3, 2), 'down': (2, 1, -1, 5),
          'point': (2, 1, 2, 1)}


@case('C13', params=[(a, b) for a in SHAPES for b in SHAPES])
def segment_dist(t, a, b):
    """two fixed shapes in any relative position: no two of their points are nearer than dist"""
    ax, ay, bx, by = SHAPES[a]
    ox, oy = t.xy('o', -1000, 1000)
    cx, cy, dx, dy = SHAPES[b]
    cx, cy, dx, dy = cx + ox, cy + oy, dx + ox, dy + oy
    s, q = t.L.Segment2D(ax, ay, bx, by), t.L.Segment2D(cx, cy, dx, dy)
    r = s.dist(q)
    l = t.real('l', 0, 1) if a != 'point' else 0
    m = t.real('m', 0, 1) if b != 'point' else 0
    ux, uy = ax + l * (bx - ax) - cx - m * (dx - cx), ay + l * (by - ay) - cy - m * (dy - cy)
    t.check('no two points are nearer', t.And(t.le(0, r), t.le(r * r, ux * ux + uy * uy)))
    ends = []
    for x, y, e in ((cx, cy, s), (dx, dy, s), (ax, ay, q), (bx, by, q)):
        n = e.nearest_point(t.V(x, y))
        ends.append(t.eq(r * r, (n.x() - x) * (n.x() - x) + (n.y() - y) * (n.y() - y)))
    t.check('attained', t.Or(t.eq(r, 0), *ends))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), is_seg(t, q, cx, cy, dx, dy)))


@case('C13', params=[(k, side) for k in ('along', 'across', 'slanted') for side in ('own', 'other')])
def segment_dist_sized(t, how, side):
    """segments of any two lengths in any position: no end is nearer to the other segment than dist, and one is as near"""
    L, M = t.real('L', 0.01, 1000), t.real('M', 0.01, 1000)
    ax, ay, bx, by = 0, 0, L, 0
    cx, cy = t.xy('c', -1000, 1000)
    dx, dy = {'along': (cx + M, cy), 'across': (cx, cy - M), 'slanted': (cx - M, cy + M)}[how]
    s, q = t.L.Segment2D(ax, ay, bx, by), t.L.Segment2D(cx, cy, dx, dy)
    r = s.dist(q) if side == 'own' else q.dist(s)
    m = t.real('m', 0, 1)
    for k, (e, f, g) in enumerate((((ax, ay), (cx, cy), (dx, dy)), ((bx, by), (cx, cy), (dx, dy)), ((cx, cy), (ax, ay), (bx, by)), ((dx, dy), (ax, ay), (bx, by)))):
        ux, uy = f[0] + m * (g[0] - f[0]) - e[0], f[1] + m * (g[1] - f[1]) - e[1]
        t.check(f'end {k} is no nearer', t.And(t.le(0, r), t.le(r * r, ux * ux + uy * uy)))
    if how != 'slanted':
        ends = []
        for x, y, e in ((cx, cy, s), (dx, dy, s), (ax, ay, q), (bx, by, q)):
            n = e.nearest_point(t.V(x, y))
            ends.append(t.eq(r * r, (n.x() - x) * (n.x() - x) + (n.y() - y) * (n.y() - y)))
        meet = cy == 0 if how == 'along' else t.And(cx >= 0, cx <= L, cy >= 0, cy - M <= 0)
        t.check('attained', t.Or(t.And(meet, t.eq(r, 0)), *ends))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), is_seg(t, q, cx, cy, dx, dy)))


@case('C13', params=['0', '1', 'in'])
def segment_dist_zero(t, k):
    """segments that share a point have distance 0"""
    s, q = crossing(t, par(t, 'l', 'in'), par(t, 'm', k))[:2]
    t.check('share a point: 0', t.exact(s.dist(q), 0))


@case('C13', params=[(k, side) for k in SHAPES for side in ('own', 'other')], thorough_only=True)
def segment_dist_any(t, shape, side):
    """disjoint segments: the distance is the least of the four distances of an end from the other segment"""
    ax, ay, bx, by = SHAPES[shape]
    cx, cy = t.xy('c', -1000, 1000)
    dx, dy = t.xy('d', -1000, 1000)
    s, q = t.L.Segment2D(ax, ay, bx, by), t.L.Segment2D(cx, cy, dx, dy)
    r = s.dist(q) if side == 'own' else q.dist(s)
    m = t.real('m', 0, 1)
    (ex, ey), (fx, fy), (gx, gy) = t.choice('end', [
        ((ax, ay), (cx, cy), (dx, dy)), ((bx, by), (cx, cy), (dx, dy)),
        ((cx, cy), (ax, ay), (bx, by)), ((dx, dy), (ax, ay), (bx, by))])
    ux, uy = fx + m * (gx - fx) - ex, fy + m * (gy - fy) - ey
    t.check('no end is nearer to the other segment', t.And(t.le(0, r), t.le(r * r, ux * ux + uy * uy)))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), is_seg(t, q, cx, cy, dx, dy)))


# ------------------------------------------------------------------ C14 existence of an intersection

def crossing(t, l, m):
    """two segments that share the point x at parameters l and m"""
    xx, xy = t.xy('x')
    ux, uy = t.xy('u')
    vx, vy = t.xy('v')
    s = t.L.Segment2D(t.V(xx - l * ux, xy - l * uy), t.V(xx + (1 - l) * ux, xy + (1 - l) * uy))
    q = t.L.Segment2D(t.V(xx - m * vx, xy - m * vy), t.V(xx + (1 - m) * vx, xy + (1 - m) * vy))
    return s, q, xx, xy, ux, uy, vx, vy


def par(t, n, kind):
    return {'0': lambda: 0, '1': lambda: 1, 'in': lambda: t.real(n, 0, 1),
            'open': lambda: t.real(n, 0.001, 0.999)}[kind]()


@case('C14', params=[(a, b) for a in ('0', '1', 'in') for b in ('0', '1', 'in')])
def shares_point(t, a, b):
    s, q = crossing(t, par(t, 'l', a), par(t, 'm', b))[:2]
    t.check('share a point: they intersect', s.exist_intersection(q))


@case('C14')
def proper(t):
    l, m = par(t, 'l', 'open'), par(t, 'm', 'open')
    s, q, xx, xy, ux, uy, vx, vy = crossing(t, l, m)
    c = ux * vy - uy * vx
    t.assume(t.Or(c > 0.001, c < -0.001))
    t.check('cross inside', s.exist_intersection_except_endpoint(q))
    t.check('cross inside (alias)', s.intersects_except_endpoint(q))


@case('C14', params=['l0', 'l1', 'm0', 'm1', 'parallel'])
def improper(t, how):
    """an end point on the other segment, or parallel segments, do not count"""
    l = {'l0': '0', 'l1': '1'}.get(how, 'in')
    m = {'m0': '0', 'm1': '1'}.get(how, 'in')
    if how == 'parallel':
        ax, ay = t.xy('a')
        ux, uy = t.xy('u')
        cx, cy = t.xy('c')
        k = t.real('k')
        s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
        q = t.L.Segment2D(cx, cy, cx + k * ux, cy + k * uy)
    else:
        s, q = crossing(t, par(t, 'l', l), par(t, 'm', m))[:2]
    t.check('end points do not count', t.Not(s.exist_intersection_except_endpoint(q)))
    t.check('end points do not count (alias)', t.Not(s.intersects_except_endpoint(q)))


@case('C14', params=['exist', 'except'])
def separated(t, what):
    """any two disjoint segments are strictly separated by a line with normal (1, k) or (k, 1)"""
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    cx, cy = t.xy('c')
    dx, dy = t.xy('d')
    k = t.real('k', -1, 1)
    z = t.real('z')
    sg = t.choice('sign', [1, -1])
    f = t.choice('normal', [lambda x, y: x + k * y, lambda x, y: k * x + y])
    t.assume(t.And(sg * f(ax, ay) > sg * z, sg * f(bx, by) > sg * z, sg * f(cx, cy) < sg * z, sg * f(dx, dy) < sg * z))
    s, q = t.L.Segment2D(ax, ay, bx, by), t.L.Segment2D(cx, cy, dx, dy)
    if what == 'exist':
        t.check('disjoint', t.Not(s.exist_intersection(q)))
    else:
        t.check('disjoint: no proper crossing', t.Not(s.exist_intersection_except_endpoint(q)))


@case('C14')
def with_line(t):
    s, ax, ay, bx, by = seg(t)
    a, b, c = t.real('la'), t.real('lb'), t.real('lc')
    fa, fb = a * ax + b * ay + c, a * bx + b * by + c
    l = t.L.Line2D(a, b, c)
    r = s.exist_intersection(l)
    t.check('both ends strictly on one side: none', t.Implies(t.Or(t.And(fa > 0, fb > 0), t.And(fa < 0, fb < 0)), t.Not(r)))
    t.check('otherwise they meet', t.Implies(t.Or(t.And(fa >= 0, fb <= 0), t.And(fa <= 0, fb >= 0)), r))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), t.exact(l.a(), a), t.exact(l.b(), b), t.exact(l.c(), c)))


@case('C14')
def unchanged(t):
    s, ax, ay, bx, by = seg(t)
    q, cx, cy, dx, dy = seg(t, 'q')
    t.choice('f', [s.exist_intersection, s.exist_intersection_except_endpoint, s.intersects_except_endpoint])(q)
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, bx, by), is_seg(t, q, cx, cy, dx, dy)))


# ------------------------------------------------------------------ C15 intersection points, projection, membership

def margin(t, ux, uy, vx, vy, lo=0.01):
    c = ux * vy - uy * vx
    t.assume(t.Or(c > lo, c < -lo))


@case('C15', params=['default', 'allow', 'disallow'])
def meet_inside(t, how):
    l, m = par(t, 'l', 'open'), par(t, 'm', 'open')
    s, q, xx, xy, ux, uy, vx, vy = crossing(t, l, m)
    margin(t, ux, uy, vx, vy)
    r = {'default': lambda: s.intersection(q), 'allow': lambda: s.intersection(q, True),
         'disallow': lambda: s.intersection(q, False)}[how]()
    t.check('the common point', t.And(r.is_valid(), t.eqv(r, xx, xy)))


@case('C15', params=[(a, b) for a in ('0', '1', 'in') for b in ('0', '1', 'in') if (a, b) != ('in', 'in')])
def meet_at_end(t, a, b):
    l, m = par(t, 'l', a), par(t, 'm', b)
    s, q, xx, xy, ux, uy, vx, vy = crossing(t, l, m)
    margin(t, ux, uy, vx, vy)
    r = s.intersection(q, True)
    t.check('allowed: the common point', t.And(r.is_valid(), t.eqv(r, xx, xy)))
    t.check('not allowed: none', t.Not(s.intersection(q).is_valid()))
    t.check('not allowed: none (explicit)', t.Not(s.intersection(q, False).is_valid()))


@case('C15', params=[(a, b, c) for a in ('first', 'second') for b in ('before', 'after') for c in ('seg', 'line') if (a, c) != ('second', 'line')])
def miss(t, which, where, kind):
    """the carriers meet in x, but outside one segment"""
    w = t.real('w', -100, -0.01) if where == 'before' else t.real('w', 1.01, 100)
    o = t.real('o', 0, 1)
    l, m = (w, o) if which == 'first' else (o, w)
    s, q, xx, xy, ux, uy, vx, vy = crossing(t, l, m)
    margin(t, ux, uy, vx, vy)
    away(t, *((ux, uy) if which == 'first' else (vx, vy)), 1e-3)
    if kind == 'line':
        t.check('outside: none', t.Not(s.intersection(q.line()).is_valid()))
    else:
        t.check('outside: none', t.And(t.Not(s.intersection(q, True).is_valid()), t.Not(s.intersection(q).is_valid())))


@case('C15', params=['0', '1', 'in'])
def meet_line(t, a):
    l = par(t, 'l', a)
    xx, xy = t.xy('x')
    ux, uy = t.xy('u')
    vx, vy = t.xy('v')
    margin(t, ux, uy, vx, vy)
    s = t.L.Segment2D(t.V(xx - l * ux, xy - l * uy), t.V(xx + (1 - l) * ux, xy + (1 - l) * uy))
    line = t.L.Line2D(vy, -vx, -(vy * xx - vx * xy))
    r = s.intersection(line)
    t.check('the common point', t.And(r.is_valid(), t.eqv(r, xx, xy)))
    t.check('line unchanged', t.And(t.exact(line.a(), vy), t.exact(line.b(), -vx)))


@case('C15')
def parallel(t):
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    cx, cy = t.xy('c')
    k = t.real('k')
    s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
    q = t.L.Segment2D(cx, cy, cx + k * ux, cy + k * uy)
    t.check('parallel: no single point', t.And(t.Not(s.intersection(q).is_valid()), t.Not(s.intersection(q, True).is_valid())))


@case('C15')
def projecting(t):
    """p = a + l*u + m*perp(u) projects to a + l*u when 0 <= l <= 1"""
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    away(t, ux, uy)
    l, m = t.real('l'), t.real('m')
    s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
    p = t.V(ax + l * ux - m * uy, ay + l * uy + m * ux)
    r = s.projection(p)
    if t.split(t.And(l >= 0, l <= 1)):
        t.check('foot of the perpendicular', t.And(r.is_valid(), t.eqv(r, ax + l * ux, ay + l * uy)))
    elif t.split(t.And(t.Or(l <= 0, l >= 1), t.Or(l * l * (ux * ux + uy * uy) >= 4e-12, l > 0), t.Or((l - 1) * (l - 1) * (ux * ux + uy * uy) >= 4e-12, l < 1))):
        t.check('no foot inside', t.Not(r.is_valid()))
    t.check('unchanged', t.And(is_seg(t, s, ax, ay, ax + ux, ay + uy), r is not s.origin_(), r is not s.terminal_()))


@case('C15')
def box(t):
    """contains: inside the box spanned by the end points"""
    s, ax, ay, bx, by = seg(t)
    px, py = t.xy('p')
    r = s.contains(t.V(px, py))
    kx, ky = (px - ax) * (px - bx), (py - ay) * (py - by)
    t.check('inside', t.Implies(t.And(kx <= 0, ky <= 0), r))
    t.check('outside', t.Implies(t.Or(kx > 1.1e-9, ky > 1.1e-9), t.Not(r)))


@case('C15')
def on_it(t):
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    l, m = t.real('l'), t.real('m')
    t.assume(t.Or(t.Not(t.exact(ux, 0)), t.Not(t.exact(uy, 0))))
    s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
    r = s.on_segment(t.V(ax + l * ux - m * uy, ay + l * uy + m * ux))
    t.check('on the segment', t.Implies(t.And(t.exact(m, 0), l >= 0, l <= 1), r))
    t.check('beside or beyond', t.Implies(t.Or(t.Not(t.exact(m, 0)), l < 0, l > 1), t.Not(r)))


@case('C15')
def on_it_weakly(t):
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    away(t, ux, uy)
    l, ex, ey = t.real('l', 0, 1), t.real('ex'), t.real('ey')
    s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
    k = ux * ex + uy * ey
    t.assume(t.exact(k, 0))
    p = t.V(ax + l * ux + ex, ay + l * uy + ey)
    r = s.on_segment_weakly(p)
    t.check('close', t.Implies(t.And(t.abs(ex) < 0.99e-6, t.abs(ey) < 0.99e-6), r))
    t.check('beside', t.Implies(t.Or(t.abs(ex) > 1.01e-6, t.abs(ey) > 1.01e-6), t.Not(r)))
    t.check('unchanged', is_seg(t, s, ax, ay, ax + ux, ay + uy))


@case('C15', params=['before', 'after'])
def beyond_weakly(t, side):
    """points whose foot misses the segment are not on it, wherever they are"""
    ax, ay = t.xy('a')
    ux, uy = t.xy('u')
    away(t, ux, uy, 2e-4)
    l, m = t.real('l', 0.01, 100), t.real('m', -100, 100)
    if side == 'before':
        k = -l
    else:
        k = 1 + l
    s = t.L.Segment2D(ax, ay, ax + ux, ay + uy)
    p = t.V(ax + k * ux - m * uy, ay + k * uy + m * ux)
    t.check('not on it', t.Not(s.on_segment_weakly(p)))
    t.check('no projection', t.Not(s.projection(p).is_valid()))


@case('C15')
def degenerate(t):
    ax, ay = t.xy('a')
    px, py = t.xy('p')
    s = t.L.Segment2D(ax, ay, ax, ay)
    t.check('projection is the point', t.eqv(s.projection(t.V(px, py)), ax, ay))
    t.check('only that point is on it', t.Iff(s.on_segment(t.V(px, py)), t.And(t.exact(px, ax), t.exact(py, ay))))
