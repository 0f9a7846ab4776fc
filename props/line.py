"""C08-C11: Line2D, Ray2D"""
from sx.ctx import case
from .angle import nd, turn
from .vector import num


def on(t, l, x, y):
    """(x, y) satisfies the line's equation"""
    return t.eq(l.a() * x + l.b() * y + l.c(), 0)


def coef(t, n='', lo=2e-6):
    """coefficients of a line with a*a + b*b >= lo"""
    a, b, c = t.real(n + 'a'), t.real(n + 'b'), t.real(n + 'c')
    t.assume(a * a + b * b >= lo)
    return a, b, c


# ------------------------------------------------------------------ C08 construction

@case('C08')
def two_points(t):
    L = t.L.Line2D
    px, py = t.xy('p')
    qx, qy = t.xy('q')
    p, q = t.V(px, py), t.V(qx, qy)
    l = t.choice('how', [lambda: L(p, q), lambda: L(p1=p, p2=q)])()
    t.check('passes through both points', t.And(on(t, l, px, py), on(t, l, qx, qy)))
    t.check('degenerate only for equal points',
            t.Iff(t.And(t.exact(l.a(), 0), t.exact(l.b(), 0)), t.And(t.exact(px, qx), t.exact(py, qy))))
    t.check('points unchanged', t.And(t.exact(p.x(), px), t.exact(p.y(), py), t.exact(q.x(), qx), t.exact(q.y(), qy)))
    p.assign(1, 2)
    q.assign(5, 9)
    t.check('keeps its line when the points move', t.And(on(t, l, px, py), on(t, l, qx, qy)))


@case('C08')
def point_and_angle(t):
    L = t.L.Line2D
    px, py = t.xy('p')
    d = nd(t, 'd')
    p = t.V(px, py)
    how = t.choice('how', ['angle', 'number', 'kw', 'kwnum', 'wrapped'])
    if how == 'angle':
        l = L(p, t.A(d))
    elif how == 'number':
        l = L(p, d)
    elif how == 'kw':
        l = L(p=p, a=t.A(d))
    elif how == 'kwnum':
        l = L(p=p, a=d)
    else:
        l = L(p, d + 360)
    t.check('passes through the point', on(t, l, px, py))
    t.check('has the direction', t.eq(l.a() * t.cos(d) + l.b() * t.sin(d), 0))
    t.check('unit normal', t.eq(l.a() * l.a() + l.b() * l.b(), 1))
    t.check('point unchanged', t.And(t.exact(p.x(), px), t.exact(p.y(), py)))


@case('C08')
def coefficients(t):
    L = t.L.Line2D
    a, b, c = num(t, 'a'), num(t, 'b'), num(t, 'c')
    how = t.choice('how', ['pos', 'kw', 'copyctor', 'copy', 'l'])
    l = L(a, b, c)
    if how == 'kw':
        l = L(a=a, b=b, c=c)
    elif how == 'copyctor':
        l = L(l)
    elif how == 'copy':
        l = l.copy()
    elif how == 'l':
        l = L(l=l)
    t.check('coefficients kept', t.And(t.exact(l.a(), a), t.exact(l.b(), b), t.exact(l.c(), c)))


@case('C08')
def rejected(t):
    L = t.L.Line2D
    x = t.real('x')
    v = t.V(x, x)
    t.check('no arguments', t.raises(lambda: L()))
    t.check('one point', t.raises(lambda: L(v)))
    t.check('two numbers', t.raises(lambda: L(x, x)))
    t.check('keyword p alone', t.raises(lambda: L(p=v)))
    for bad in (v, 'x', None):
        t.check('something else than three numbers', t.And(*[t.raises(lambda: L(*a)) for a in ((bad, x, x), (x, bad, x), (x, x, bad))]))


@case('C08')
def get_xy(t):
    a, b, c = t.real('a'), t.real('b'), t.real('c')
    k = t.real('k')
    l = t.L.Line2D(a, b, c)
    x = l.get_x(k)
    y = l.get_y(k)
    t.check('get_x on the line', t.Or(t.abs(a) < 1.001e-6, on(t, l, x, k)))
    t.check('get_x of a horizontal line', t.Implies(t.abs(a) < 0.999e-6, t.exact(x, 1e20)))
    t.check('get_y on the line', t.Or(t.abs(b) < 1.001e-6, on(t, l, k, y)))
    t.check('get_y of a vertical line', t.Implies(t.abs(b) < 0.999e-6, t.exact(y, 1e20)))
    t.check('unchanged', t.And(t.exact(l.a(), a), t.exact(l.b(), b), t.exact(l.c(), c)))


# ------------------------------------------------------------------ C09 distance and projection

@case('C09')
def distance(t):
    a, b, c = coef(t)
    px, py = t.xy('p')
    l, p = t.L.Line2D(a, b, c), t.V(px, py)
    d = l.dist(p)
    e = a * px + b * py + c
    t.check('dist', t.And(t.le(0, d), t.eq(d * d * (a * a + b * b), e * e)))
    t.check('dist2', t.eq(l.dist2(p), d * d))
    t.check('unchanged', t.And(t.exact(p.x(), px), t.exact(p.y(), py), t.exact(l.a(), a)))


@case('C09')
def nearest(t):
    """no point of the line is nearer than dist, the projection is that near"""
    a, b, c = coef(t)
    px, py = t.xy('p')
    x, y = t.xy('q')
    l, p = t.L.Line2D(a, b, c), t.V(px, py)
    t.assume(t.exact(a * x + b * y + c, 0))
    t.check('lower bound', t.le(l.dist2(p), (x - px) * (x - px) + (y - py) * (y - py)))


@case('C09')
def projection(t):
    a, b, c = coef(t)
    px, py = t.xy('p')
    l, p = t.L.Line2D(a, b, c), t.V(px, py)
    f = l.projection(p)
    t.check('valid', f.is_valid())
    t.check('on the line', on(t, l, f.x(), f.y()))
    t.check('foot of the perpendicular', t.eq((f.x() - px) * b, (f.y() - py) * a))
    t.check('at distance dist', t.eq(f.dist2(p), l.dist2(p)))
    t.check('unchanged', t.And(t.exact(p.x(), px), t.exact(p.y(), py)))
    m = l.perpendicular(p)
    t.check('perpendicular through the point', on(t, m, px, py))
    t.check('at a right angle', t.eq(m.a() * a + m.b() * b, 0))
    t.check('perpendicular is a line', t.Not(t.And(t.exact(m.a(), 0), t.exact(m.b(), 0))))


@case('C09')
def perpendicular_bisector(t):
    px, py = t.xy('p')
    qx, qy = t.xy('q')
    x, y = t.xy('r')
    t.assume(t.Or(t.abs(px - qx) >= 1e-5, t.abs(py - qy) >= 1e-5))
    p, q = t.V(px, py), t.V(qx, qy)
    l = t.L.Line2D.perpendicular_bisector(p, q)
    dp = (x - px) * (x - px) + (y - py) * (y - py)
    dq = (x - qx) * (x - qx) + (y - qy) * (y - qy)
    # the line's residual is a fixed multiple of the difference of the squared distances
    e = l.a() * x + l.b() * y + l.c()
    t.check('exactly the equidistant points', t.And(t.Implies(t.exact(dp, dq), t.eq(e, 0)),
                                                    t.Implies(t.exact(e, 0), t.eq(dp, dq))))
    t.check('is a line', t.Or(t.Not(t.exact(l.a(), 0)), t.Not(t.exact(l.b(), 0))))
    t.check('unchanged', t.And(t.exact(p.x(), px), t.exact(q.y(), qy)))


@case('C09')
def bisector_same_point(t):
    px, py = t.xy('p')
    p, q = t.V(px, py), t.V(px, py)
    l = t.L.Line2D.perpendicular_bisector(p, q)
    t.check('a line through the point', t.And(on(t, l, px, py), t.Or(t.Not(t.exact(l.a(), 0)), t.Not(t.exact(l.b(), 0)))))


@case('C09')
def angle_bisector(t):
    px, py = t.xy('p')
    l, r = nd(t, 'l'), nd(t, 'r')
    t.assume(t.Not(t.exact(l, r)))
    b = t.L.Line2D.angle_bisector(t.V(px, py), t.A(l), t.A(r))
    t.check('through the origin point', on(t, b, px, py))
    # direction: the half-angle direction h has 2h = l + r (mod 360); a line with normal (a,b) has
    # direction h iff a*cos h + b*sin h = 0, i.e. (cos 2h, sin 2h) ~ (b*b - a*a, -2ab)
    c2, s2 = t.cos(l) * t.cos(r) - t.sin(l) * t.sin(r), t.sin(l) * t.cos(r) + t.cos(l) * t.sin(r)
    t.check('halves the angle', t.And(t.eq(b.b() * b.b() - b.a() * b.a(), c2), t.eq(-2 * b.a() * b.b(), s2)))


# ------------------------------------------------------------------ C10 two lines

@case('C10')
def intersection(t):
    L = t.L.Line2D
    a, b, c = t.real('a'), t.real('b'), t.real('c')
    d, e, f = t.real('d'), t.real('e'), t.real('f')
    l, m = L(a, b, c), L(d, e, f)
    det = a * e - b * d
    how = t.choice('how', ['method', 'static'])
    p = l.intersection(m) if how == 'method' else L.line_intersection(l, m)
    t.check('invalid for parallels', t.Implies(t.abs(det) < 0.999e-6, p.is_valid() is False))
    t.check('valid otherwise', t.Implies(t.abs(det) > 1.001e-6, p.is_valid() is True))
    t.check('is_parallel', t.And(t.Implies(t.abs(det) < 0.999e-6, l.is_parallel(m)),
                                 t.Implies(t.abs(det) > 1.001e-6, t.Not(l.is_parallel(m)))))
    t.check('unchanged', t.And(t.exact(l.a(), a), t.exact(m.b(), e), t.exact(l.c(), c), t.exact(m.c(), f)))
    if p.is_valid():
        t.check('on both lines', t.And(on(t, l, p.x(), p.y()), on(t, m, p.x(), p.y())))


@case('C10')
def symmetric(t):
    L = t.L.Line2D
    l = L(t.real('a'), t.real('b'), t.real('c'))
    m = L(t.real('d'), t.real('e'), t.real('f'))
    p, q = l.intersection(m), m.intersection(l)
    t.check('same verdict', p.is_valid() == q.is_valid())
    t.check('is_parallel symmetric', t.Iff(l.is_parallel(m), m.is_parallel(l)))
    if p.is_valid() and q.is_valid():
        t.check('same point', t.veq(p, q))


@case('C10')
def through_points(t):
    """lines given by points meet where they should"""
    L = t.L.Line2D
    px, py = t.xy('p')
    qx, qy = t.xy('q')
    rx, ry = t.xy('r')
    det = (qx - px) * (ry - py) - (qy - py) * (rx - px)
    t.assume(t.abs(det) > 2e-6)
    p = t.V(px, py)
    x = L(p, t.V(qx, qy)).intersection(L(t.V(rx, ry), p))
    t.check('valid', x.is_valid())
    t.check('the common point', t.eqv(x, px, py))


@case('C10')
def equality(t):
    L = t.L.Line2D
    a, b, c = coef(t, lo=1e-6)
    k = t.real('k', -1000, 1000)
    t.assume(t.abs(k) >= 0.001)
    l, m = L(a, b, c), L(a * k, b * k, c * k)
    t.check('one line in two scalings', t.And(l == m, m == l, t.Not(l != m)))


@case('C10')
def inequality(t):
    L = t.L.Line2D
    a, b, c = t.real('a'), t.real('b'), t.real('c')
    d, e, f = t.real('d'), t.real('e'), t.real('f')
    t.assume(t.Or(t.abs(a * e - b * d) > 1e-5, t.abs(a * f - c * d) > 1e-5, t.abs(b * f - c * e) > 1e-5))
    l, m = L(a, b, c), L(d, e, f)
    t.check('different lines differ', t.And(t.Not(l == m), t.Not(m == l), l != m))


# ------------------------------------------------------------------ C11 rays

def at(t, ox, oy, s, d):
    return ox + s * t.cos(d), oy + s * t.sin(d)


@case('C11')
def construct(t):
    R = t.L.Ray2D
    ox, oy = t.xy('o')
    d = nd(t, 'd')
    o = t.V(ox, oy)
    how = t.choice('how', ['angle', 'number', 'wrapped', 'copy'])
    if how == 'angle':
        ang = t.A(d)
        r = R(o, ang)
        ang.set_degree(45)
    elif how == 'number':
        r = R(o, d)
    elif how == 'wrapped':
        r = R(o, d - 360)
    else:
        r = R(o, t.A(d)).copy()
    o.assign(7, 8)
    t.check('origin', t.And(t.exact(r.origin().x(), ox), t.exact(r.origin().y(), oy),
                            t.exact(r.origin_().x(), ox), t.exact(r.origin_().y(), oy)))
    t.check('direction', t.And(t.eq(r.dir().degree(), d), t.eq(r.dir_().degree(), d)))
    r.origin().assign(3, 3)
    r.dir().set_degree(10)
    t.check('readers hand out copies', t.And(t.exact(r.origin().x(), ox), t.eq(r.dir().degree(), d)))
    l = r.line()
    t.check('line through the origin', on(t, l, ox, oy))
    t.check('line along the direction', t.eq(l.a() * t.cos(d) + l.b() * t.sin(d), 0))


@case('C11')
def through_point(t):
    R = t.L.Ray2D
    ox, oy = t.xy('o')
    px, py = t.xy('p')
    t.assume(t.Or(t.abs(px - ox) >= 1e-5, t.abs(py - oy) >= 1e-5))
    o, p = t.V(ox, oy), t.V(px, py)
    r = R(o, p)
    g = r.dir().degree()
    m = t.sqrt((px - ox) * (px - ox) + (py - oy) * (py - oy))
    t.check('points at the second point', t.And(t.eq(m * t.cos(g), px - ox), t.eq(m * t.sin(g), py - oy)))
    t.check('unchanged', t.And(t.exact(o.x(), ox), t.exact(p.x(), px)))


@case('C11')
def rejected(t):
    t.check('string direction', t.raises(lambda: t.L.Ray2D(t.V(0, 0), 'x')))


@case('C11', params=['default', 'thr'])
def in_right_dir(t, mode):
    R = t.L.Ray2D
    ox, oy = t.xy('o')
    d, f = nd(t, 'd'), nd(t, 'f')
    s = t.real('s', 0.001, 1000)
    r = R(t.V(ox, oy), t.A(d))
    px, py = at(t, ox, oy, s, f)
    off = turn(t, d, f)
    p = t.V(px, py)
    if mode == 'default':
        got = r.in_right_dir(p)
        thr = 10
    else:
        thr = t.real('thr', 0.5, 179)
        got = r.in_right_dir(p, thr)
    t.check('within the threshold', t.Implies(t.Or(off < thr - 0.001, off > 360 - thr + 0.001), got))
    t.check('outside the threshold', t.Implies(t.And(off > thr + 0.001, off < 360 - thr - 0.001), t.Not(got)))


@case('C11')
def own_origin(t):
    ox, oy = t.xy('o')
    d = nd(t, 'd')
    r = t.L.Ray2D(t.V(ox, oy), d)
    t.check('the origin lies on the ray', r.in_right_dir(t.V(ox, oy)))


@case('C11', params=['ahead', 'behind', 'at'], invtrig=True)
def with_line(t, mode):
    """a line crossing the ray's carrier in a known point x, u ahead of (or behind) the origin"""
    xx, xy = t.xy('x')
    d, e = nd(t, 'd'), nd(t, 'e')
    t.assume(t.abs(t.sin(d) * t.cos(e) - t.cos(d) * t.sin(e)) >= 0.0001)
    k = t.choice('scale', [1, -1, 4])
    u = {'ahead': lambda: t.real('u', 0.001, 10000), 'behind': lambda: -t.real('u', 0.001, 10000), 'at': lambda: 0}[mode]()
    ox, oy = xx - u * t.cos(d), xy - u * t.sin(d)
    a, b = -k * t.sin(e), k * t.cos(e)
    r, l = t.L.Ray2D(t.V(ox, oy), t.A(d)), t.L.Line2D(a, b, -(a * xx + b * xy))
    x = r.intersection(l)
    if mode == 'behind':
        t.check('behind: invalid', t.Not(x.is_valid()))
    else:
        t.check('the crossing', t.And(x.is_valid(), t.eqv(x, xx, xy)))
    t.check('unchanged', t.And(t.exact(r.origin().x(), ox), t.exact(r.dir().degree(), d), t.exact(l.a(), a)))


@case('C11')
def with_parallel(t):
    ox, oy = t.xy('o')
    d = nd(t, 'd')
    c = t.real('c')
    r, l = t.L.Ray2D(t.V(ox, oy), t.A(d)), t.L.Line2D(t.V(c, 1), t.A(d))
    t.check('parallel: invalid', t.Not(r.intersection(l).is_valid()))


@case('C11', params=['ahead', 'first_behind', 'second_behind', 'first_at', 'second_at', 'both_at'], invtrig=True)
def with_ray(t, mode):
    """two rays whose carriers meet in a known point x"""
    xx, xy = t.xy('x')
    d, e = nd(t, 'd'), nd(t, 'e')
    t.assume(t.abs(t.sin(d) * t.cos(e) - t.cos(d) * t.sin(e)) >= 0.0001)
    u = 0 if mode in ('first_at', 'both_at') else t.real('u', 0.001, 10000)
    v = 0 if mode in ('second_at', 'both_at') else t.real('v', 0.001, 10000)
    su = -1 if mode == 'first_behind' else 1
    sv = -1 if mode == 'second_behind' else 1
    r = t.L.Ray2D(t.V(xx - su * u * t.cos(d), xy - su * u * t.sin(d)), t.A(d))
    q = t.L.Ray2D(t.V(xx - sv * v * t.cos(e), xy - sv * v * t.sin(e)), t.A(e))
    s = r.intersection(q)
    if mode in ('ahead', 'first_at', 'second_at', 'both_at'):
        t.check('meet in the common point', t.And(s.is_valid(), t.eqv(s, xx, xy)))
    else:
        t.check('no common point', t.Not(s.is_valid()))


@case('C11')
def equality(t):
    ox, oy = t.xy('o')
    px, py = t.xy('p')
    d, e = nd(t, 'd'), nd(t, 'e')
    r, q = t.L.Ray2D(t.V(ox, oy), t.A(d)), t.L.Ray2D(t.V(px, py), t.A(e))
    same = t.And(t.exact(ox, px), t.exact(oy, py))
    off = turn(t, d, e)
    near = t.Or(off < 0.99e-6, 360 - off < 0.99e-6)
    far = t.And(off > 1.01e-6, 360 - off > 1.01e-6)
    t.check('== for one ray', t.Implies(t.And(same, near), r == q))
    t.check('not == otherwise', t.Implies(t.Or(t.Not(same), far), t.Not(r == q)))
