"""C25: Sector2D"""
from sx.ctx import case
from .angle import nd, turn
from .line import at
from .vector import num

PI = 3.141592653589793


def is_sector(t, s, cx, cy, r, q, a, b):
    f = t.exact
    return t.And(f(s.center().x(), cx), f(s.center().y(), cy), f(s.center_().x(), cx), f(s.center_().y(), cy),
                 f(s.radius_min(), r), f(s.radius_max(), q),
                 f(s.angle_left_start().degree(), a), f(s.angle_left_start_().degree(), a),
                 f(s.angle_right_end().degree(), b), f(s.angle_right_end_().degree(), b))


@case('C25', params=[(h, k) for h in ('init', 'assign') for k in ('angle', 'number')])
def construct(t, how, kind):
    cx, cy = t.xy('c')
    r, q = num(t, 'r'), t.real('q')
    a, b = nd(t, 'a'), nd(t, 'b')
    c = t.V(cx, cy)
    A, B = (t.A(a), t.A(b)) if kind == 'angle' else (a, b)
    if how == 'init':
        s = t.L.Sector2D(c, r, q, A, B)
    else:
        s = t.L.Sector2D(t.V(1, 2), 3, 4, 5, 6)
        s.assign(c, r, q, A, B)
    r0 = r if t.split(r >= 0) else 0
    q0 = q if t.split(q >= r0) else r0
    t.check('as given', is_sector(t, s, cx, cy, r0, q0, a, b))
    t.check('inputs unchanged', t.And(t.exact(c.x(), cx), t.exact(c.y(), cy)))
    c.assign(9, 9)
    s.center().assign(8, 8)
    s.angle_left_start().set_degree(7)
    s.angle_right_end().set_degree(7)
    if kind == 'angle':
        A.set_degree(33)
        B.set_degree(44)
    t.check('independent of inputs and readers', is_sector(t, s, cx, cy, r0, q0, a, b))


@case('C25')
def construct_wrapped(t):
    a, b = nd(t, 'a'), nd(t, 'b')
    k, m = t.choice('k', [-360, 360, 720]), t.choice('m', [-360, 360])
    s = t.L.Sector2D(t.V(0, 0), 1, 2, a + k, b + m)
    t.check('angles in normal form', t.And(t.eq(s.angle_left_start().degree(), a), t.eq(s.angle_right_end().degree(), b)))


def sector(t):
    cx, cy = t.xy('c')
    r = t.real('r', 0, 1000)
    q = t.real('q', 0, 1000)
    t.assume(q >= r)
    a, b = nd(t, 'a'), nd(t, 'b')
    return t.L.Sector2D(t.V(cx, cy), r, q, t.A(a), t.A(b)), cx, cy, r, q, a, b


@case('C25', params=['in', 'near', 'far', 'beside'], weight=2)
def contains(t, where):
    s, *S = sector(t)
    cx, cy, r, q, a, b = S
    d = nd(t, 'd')
    arc, off = turn(t, a, b), turn(t, a, d)
    g = 0.001
    m = t.real('m', 0.01, 200)
    if where == 'beside':
        t.assume(t.And(off > arc + g, off < 360 - g))
    else:
        t.assume(t.And(off >= g, off <= arc - g))
        t.assume({'in': lambda: t.And(r * 1.0001 <= m, m * 1.0001 <= q), 'near': lambda: m * 1.0001 < r, 'far': lambda: q * 1.0001 < m}[where]())
    p = t.V(*at(t, cx, cy, m, d))
    px, py = p.x(), p.y()
    got = s.contains(p)
    if where == 'in':
        t.check('between the radii and on the arc', got)
    else:
        t.check('elsewhere', t.Not(got))
    t.check('unchanged', t.And(is_sector(t, s, *S), t.exact(p.x(), px), t.exact(p.y(), py)))


AX = {0: (1, 0), 90: (0, 1), -90: (0, -1), 180: (-1, 0)}


@case('C25', params=list(AX))
def boundary(t, d):
    """radii and arc ends belong to the sector"""
    s, cx, cy, r, q, a, b = sector(t)
    m = t.real('m', 0.01, 200)
    ux, uy = AX[d]
    arc, off = turn(t, a, b), turn(t, a, d)
    want = t.And(r <= m, m <= q, off <= arc)
    t.check('exactly the closed sector', t.Iff(s.contains(t.V(cx + m * ux, cy + m * uy)), want))


@case('C25')
def own_centre(t):
    """the centre (direction 0 by definition) belongs to the sector only without an inner radius"""
    s, cx, cy, r, q, a, b = sector(t)
    got = s.contains(t.V(cx, cy))
    t.check('not with an inner radius', t.Implies(r > 1e-6, t.Not(got)))
    t.check('if the sector spans direction 0', t.Implies(t.And(t.exact(r, 0), turn(t, a, 0) <= turn(t, a, b)), got))


@case('C25')
def measures(t):
    s, *S = sector(t)
    cx, cy, r, q, a, b = S
    arc = turn(t, a, b)
    t.check('area', t.eq(s.area(), (q * q - r * r) * PI * arc / 360))
    t.check('inner arc length', t.eq(s.get_circumference_min(), 2 * PI * r * arc / 360))
    t.check('outer arc length', t.eq(s.get_circumference_max(), 2 * PI * q * arc / 360))
    t.check('unchanged', is_sector(t, s, *S))


@case('C25')
def equality(t):
    s, cx, cy, r, q, a, b = sector(t)
    D = [t.real('d%d' % i, -50, 50) for i in range(6)]
    what = t.choice('differs', ['centre', 'radii', 'angles'])
    o = [cx, cy, r, q, a, b]
    for i in {'centre': (0, 1), 'radii': (2, 3), 'angles': (4, 5)}[what]:
        o[i] = o[i] + D[i]
    if what == 'radii':
        t.assume(t.And(o[2] >= 0, o[3] >= o[2]))
    if what == 'angles':
        t.assume(t.And(-180 < o[4], o[4] <= 180, -180 < o[5], o[5] <= 180))
    z = t.L.Sector2D(t.V(o[0], o[1]), o[2], o[3], t.A(o[4]), t.A(o[5]))
    ds = [t.abs(D[i]) for i in {'centre': (0, 1), 'radii': (2, 3), 'angles': (4, 5)}[what]]
    t.check('equal when close', t.Implies(t.And(*[d < 0.99e-6 for d in ds]), s == z))
    t.check('different otherwise', t.Implies(t.Or(*[d > 1.01e-6 for d in ds]), t.Not(s == z)))
