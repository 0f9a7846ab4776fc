"""C22-C24: Rect2D, Size2D"""
from sx.ctx import case
from .segment import away
from .vector import num


def rect(t, n='', lo=0.1, hi=None):
    x, y = t.xy(n)
    w, h = t.real(n + 'w', lo, hi), t.real(n + 'h', lo, hi)
    return t.L.Rect2D(x, y, w, h), x, y, w, h


def is_rect(t, r, x, y, w, h, f=None):
    """r covers [x, x+w] x [y, y+h], by every reader"""
    f = f or t.eq
    c = []
    for a in ('left', 'min_x'):
        c.append(f(getattr(r, a)(), x))
    for a in ('right', 'max_x'):
        c.append(f(getattr(r, a)(), x + w))
    for a in ('top', 'min_y'):
        c.append(f(getattr(r, a)(), y))
    for a in ('bottom', 'max_y'):
        c.append(f(getattr(r, a)(), y + h))
    return t.And(*c)


def corners(t, r, x, y, w, h):
    return t.And(t.eqv(r.top_left(), x, y), t.eqv(r.top_right(), x + w, y), t.eqv(r.bottom_left(), x, y + h),
                 t.eqv(r.bottom_right(), x + w, y + h), t.eqv(r.center(), x + w / 2, y + h / 2),
                 t.eq(r.size().length(), w), t.eq(r.size().width(), h), t.eq(r.area(), w * h))


# ------------------------------------------------------------------ C22 construction, setters, movers

@case('C22', params=[(a, b) for a in ('init', 'assign') for b in ('numbers', 'point', 'size', 'copy')])
def construct(t, how, form):
    x, y = num(t, 'x'), t.real('y')
    w, h = t.real('w'), t.real('h')
    p, s = t.V(x, y), t.L.Size2D(w, h)
    src = t.L.Rect2D(x, y, w, h)
    args = {'numbers': (x, y, w, h), 'point': (p, w, h), 'size': (p, s), 'copy': (src,)}[form]
    if how == 'init':
        r = t.L.Rect2D(*args)
    else:
        r = t.L.Rect2D(1, 2, 3, 4)
        q = r.assign(*args)
        t.check('assign returns the rectangle', q is r)
    aw, ah = t.abs(w), t.abs(h)
    t.check('the given box', is_rect(t, r, x, y, aw, ah))
    t.check('corners', corners(t, r, x, y, aw, ah))
    t.check('valid iff it has an inside', t.Iff(r.is_valid(), t.And(t.Not(t.exact(w, 0)), t.Not(t.exact(h, 0)))))
    p.assign(9, 9)
    s.assign(8, 8)
    src.move_left(3)
    src.set_size(5, 5)
    src.move_top(-99)
    r.top_left().assign(7, 7)
    r.size().assign(6, 6)
    t.check('independent of inputs and readers', is_rect(t, r, x, y, aw, ah))
    r.assign(1, 2, 3, 4)
    t.check('inputs stay', t.And(t.exact(p.x(), 9), t.exact(p.y(), 9), t.exact(s.length(), 8), t.exact(s.width(), 8), is_rect(t, src, 3, -99, 5, 5)))


@case('C22', params=['init', 'assign'])
def two_corners(t, how):
    x, y = t.xy('p')
    u, v = t.xy('q')
    p, q = t.V(x, y), t.V(u, v)
    if how == 'init':
        r = t.L.Rect2D(p, q)
    else:
        r = t.L.Rect2D(1, 2, 3, 4)
        r.assign(p, q)
    lx, ly = (x if t.split(x <= u) else u), (y if t.split(y <= v) else v)
    t.check('the box spanned by the corners', is_rect(t, r, lx, ly, t.abs(x - u), t.abs(y - v)))
    t.check('inputs unchanged', t.And(t.exact(p.x(), x), t.exact(p.y(), y), t.exact(q.x(), u), t.exact(q.y(), v)))


@case('C22')
def from_center(t):
    x, y = t.xy('c')
    w, h = t.real('w', 0), t.real('h', 0)
    p = t.V(x, y)
    r = t.choice('form', [lambda: t.L.Rect2D.from_center(x, y, w, h), lambda: t.L.Rect2D.from_center(p, w, h)])()
    t.check('centred box', is_rect(t, r, x - w / 2, y - h / 2, w, h))
    t.check('input unchanged', t.And(t.exact(p.x(), x), t.exact(p.y(), y)))


@case('C22')
def empty(t):
    r = t.L.Rect2D()
    t.check('no inside', t.And(t.Not(r.is_valid()), t.exact(r.area(), 0)))


MOVES = ['center', 'top_left', 'bottom_right', 'left', 'min_x', 'right', 'max_x', 'top', 'min_y', 'bottom', 'max_y']


@case('C22', params=MOVES)
def move(t, what):
    r, x, y, w, h = rect(t, lo=0)
    u, v = t.real('u'), t.real('v')
    p = t.V(u, v)
    f = getattr(r, 'move_' + what)
    if what in ('center', 'top_left', 'bottom_right'):
        f(p)
    elif what in ('left', 'min_x', 'right', 'max_x'):
        f(u)
    else:
        f(v)
    nx = {'center': u - w / 2, 'top_left': u, 'bottom_right': u - w, 'left': u, 'min_x': u, 'right': u - w, 'max_x': u - w}.get(what, x)
    ny = {'center': v - h / 2, 'top_left': v, 'bottom_right': v - h, 'top': v, 'min_y': v, 'bottom': v - h, 'max_y': v - h}.get(what, y)
    t.check('moved, same size', t.And(is_rect(t, r, nx, ny, w, h), corners(t, r, nx, ny, w, h)))
    t.check('input unchanged', t.And(t.exact(p.x(), u), t.exact(p.y(), v)))
    p.assign(99, 99)
    t.check('independent of the input', is_rect(t, r, nx, ny, w, h))


SETS = ['top_left', 'top_left2', 'bottom_right', 'bottom_right2', 'left', 'min_x', 'right', 'max_x', 'top', 'min_y', 'bottom', 'max_y']


@case('C22', params=SETS)
def set_edge(t, what):
    """the named edge moves to the given place and the opposite edge stays (they change roles when crossed)"""
    r, x, y, w, h = rect(t, lo=0)
    u, v = t.real('u'), t.real('v')
    p = t.V(u, v)
    if what in ('top_left', 'bottom_right'):
        t.check('returns the rectangle', getattr(r, 'set_' + what)(p) is r)
    elif what in ('top_left2', 'bottom_right2'):
        getattr(r, 'set_' + what[:-1])(u, v)
    elif what in ('left', 'min_x', 'right', 'max_x'):
        getattr(r, 'set_' + what)(u)
    else:
        getattr(r, 'set_' + what)(v)
    kx = x + w if what.startswith('top_left') or what in ('left', 'min_x') else x
    ky = y + h if what.startswith('top_left') or what in ('top', 'min_y') else y
    movex = what in ('left', 'min_x', 'right', 'max_x') or '_left' in what or '_right' in what
    movey = what in ('top', 'min_y', 'bottom', 'max_y') or '_left' in what or '_right' in what
    if movex:
        nx = u if t.split(u <= kx) else kx
        nw = t.abs(kx - u)
    else:
        nx, nw = x, w
    if movey:
        ny = v if t.split(v <= ky) else ky
        nh = t.abs(ky - v)
    else:
        ny, nh = y, h
    t.check('the new box', t.And(is_rect(t, r, nx, ny, nw, nh), corners(t, r, nx, ny, nw, nh)))
    t.check('input unchanged', t.And(t.exact(p.x(), u), t.exact(p.y(), v)))


@case('C22', params=['length', 'width', 'size', 'size2d'])
def set_size(t, what):
    r, x, y, w, h = rect(t, lo=0)
    u, v = t.real('u'), t.real('v')
    s = t.L.Size2D(u, v)
    if what == 'length':
        r.set_length(u)
    elif what == 'width':
        r.set_width(v)
    elif what == 'size':
        r.set_size(u, v)
    else:
        r.set_size(s)
        s.assign(50, 60)
    nw = w if what == 'width' else t.abs(u)
    nh = h if what == 'length' else t.abs(v)
    t.check('corner stays, size changes', t.And(is_rect(t, r, x, y, nw, nh), corners(t, r, x, y, nw, nh)))


@case('C22')
def edges(t):
    r, x, y, w, h = rect(t)
    k = t.real('k')
    for name, (px, py) in (('left', (x, k)), ('right', (x + w, k)), ('top', (k, y)), ('bottom', (k, y + h))):
        l = getattr(r, name + '_edge')()
        t.check(name + ' edge line', t.And(t.eq(l.a() * px + l.b() * py + l.c(), 0),
                                           t.Or(t.Not(t.exact(l.a(), 0)), t.Not(t.exact(l.b(), 0)))))
    t.check('unchanged', is_rect(t, r, x, y, w, h, t.exact))


@case('C22')
def size2d(t):
    w, h, u, v = t.real('w'), t.real('h'), t.real('u'), t.real('v')
    s = t.L.Size2D(w, h)
    t.check('absolute values', t.And(t.eq(s.length(), t.abs(w)), t.eq(s.width(), t.abs(h))))
    t.check('diagonal', t.And(t.le(0, s.diagonal()), t.eq(s.diagonal() * s.diagonal(), w * w + h * h)))
    t.check('valid', t.Iff(s.is_valid(), t.And(t.Not(t.exact(w, 0)), t.Not(t.exact(h, 0)))))
    op = t.choice('op', ['assign', 'length', 'width'])
    if op == 'assign':
        s.assign(u, v)
    elif op == 'length':
        s.set_length(u)
        v = h
    else:
        s.set_width(v)
        u = w
    t.check('changed', t.And(t.eq(s.length(), t.abs(u)), t.eq(s.width(), t.abs(v))))


@case('C22')
def size2d_eq(t):
    w, h, u, v = t.real('w', 0), t.real('h', 0), t.real('u', 0), t.real('v', 0)
    r = t.L.Size2D(w, h) == t.L.Size2D(u, v)
    t.check('equal when close', t.Implies(t.And(t.abs(w - u) < 0.99e-6, t.abs(h - v) < 0.99e-6), r))
    t.check('different', t.Implies(t.Or(t.abs(w - u) > 1.01e-6, t.abs(h - v) > 1.01e-6), t.Not(r)))


# ------------------------------------------------------------------ C23 set operations

def inside(t, px, py, x, y, w, h):
    return t.And(px >= x, px <= x + w, py >= y, py <= y + h)


@case('C23')
def contains(t):
    r, x, y, w, h = rect(t, lo=0)
    px, py = t.xy('p')
    p = t.V(px, py)
    t.check('contains iff inside or on the edge', t.Iff(r.contains(p), inside(t, px, py, x, y, w, h)))
    t.check('unchanged', t.And(is_rect(t, r, x, y, w, h, t.exact), t.exact(p.x(), px), t.exact(p.y(), py)))


@case('C23')
def contains_almost(t):
    r, x, y, w, h = rect(t, lo=0)
    px, py = t.xy('p')
    e = t.real('e', 0)
    t.check('within the margin', t.Iff(r.contains_almost(t.V(px, py), e), inside(t, px, py, x - e, y - e, w + 2 * e, h + 2 * e)))
    t.check('unchanged', is_rect(t, r, x, y, w, h, t.exact))


@case('C23', params=['intersected', 'united'])
def combine(t, op):
    r, x, y, w, h = rect(t, 'r', lo=0.001)
    q, u, v, a, b = rect(t, 'q', lo=0.001)
    px, py = t.xy('p')
    z = getattr(r, op)(q)
    in1, in2 = inside(t, px, py, x, y, w, h), inside(t, px, py, u, v, a, b)
    if op == 'intersected':
        overlap = t.And(x < u + a, u < x + w, y < v + b, v < y + h)
        t.check('valid iff the insides overlap', t.Iff(z.is_valid(), overlap))
        if t.split(overlap):
            t.check('exactly the common points', t.Iff(inside(t, px, py, z.left(), z.top(), z.right() - z.left(), z.bottom() - z.top()), t.And(in1, in2)))
    else:
        t.check('valid', z.is_valid())
        t.check('covers both', t.Implies(t.Or(in1, in2), inside(t, px, py, z.left(), z.top(), z.right() - z.left(), z.bottom() - z.top())))
        t.check('smallest box', t.And(t.Or(t.eq(z.left(), x), t.eq(z.left(), u)), t.Or(t.eq(z.top(), y), t.eq(z.top(), v)),
                                      t.Or(t.eq(z.right(), x + w), t.eq(z.right(), u + a)), t.Or(t.eq(z.bottom(), y + h), t.eq(z.bottom(), v + b))))
    t.check('operands unchanged', t.And(is_rect(t, r, x, y, w, h, t.exact), is_rect(t, q, u, v, a, b, t.exact), z is not r, z is not q))
    z.move_left(77)
    z.set_size(5, 6)
    t.check('result is independent', t.And(is_rect(t, r, x, y, w, h, t.exact), is_rect(t, q, u, v, a, b, t.exact)))


@case('C23', params=['intersected', 'united'])
def combine_empty(t, op):
    r, x, y, w, h = rect(t, 'r', lo=0)
    q, u, v, a, b = rect(t, 'q', lo=0)
    t.assume(t.Or(t.exact(w, 0), t.exact(h, 0), t.exact(a, 0), t.exact(b, 0)))
    t.check('an empty operand gives an empty result', t.Not(getattr(r, op)(q).is_valid()))


# ------------------------------------------------------------------ C24 intersections

EDGES = ('left', 'right', 'top', 'bottom')


def on_edge(e, k, x, y, w, h):
    return {'left': (x, y + k * h), 'right': (x + w, y + k * h), 'top': (x + k * w, y), 'bottom': (x + k * w, y + h)}[e]


def is_set(t, sol, *ps):
    if len(sol) != len(ps):
        return False
    if len(ps) == 0:
        return True
    if len(ps) == 1:
        return t.eqv(sol[0], *ps[0])
    p, q = ps
    return t.Or(t.And(t.eqv(sol[0], *p), t.eqv(sol[1], *q)), t.And(t.eqv(sol[0], *q), t.eqv(sol[1], *p)))


def line_through(t, P, Q):
    if t.choice('line', ['points', 'coef']) == 'points':
        return t.L.Line2D(t.V(*P), t.V(*Q))
    a, b = -3 * (P[1] - Q[1]), -3 * (Q[0] - P[0])
    return t.L.Line2D(a, b, -(a * P[0] + b * P[1]))


PAIRS = [(a, b) for i, a in enumerate(EDGES) for b in EDGES[i + 1:]]


@case('C24', params=PAIRS)
def line_cut(t, a, b):
    """a line through inner points of two edges"""
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    P, Q = on_edge(a, t.real('l', 0.02, 0.98), x, y, w, h), on_edge(b, t.real('m', 0.02, 0.98), x, y, w, h)
    l = line_through(t, P, Q)
    t.check('the two outline points', is_set(t, r.intersection(l), P, Q))
    t.check('unchanged', is_rect(t, r, x, y, w, h, t.exact))


CORNERS = {'tl': (0, 0), 'tr': (1, 0), 'bl': (0, 1), 'br': (1, 1)}


@case('C24', params=[(c, e) for c in CORNERS for e in (0, 1, 2)])
def line_corner(t, c, e):
    """a line through a corner and a point of an edge that does not touch it (or the opposite corner)"""
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    i, j = CORNERS[c]
    P = (x + i * w, y + j * h)
    if e == 0:
        Q = on_edge('left' if i else 'right', t.real('l', 0.02, 0.98), x, y, w, h)
    elif e == 1:
        Q = on_edge('top' if j else 'bottom', t.real('l', 0.02, 0.98), x, y, w, h)
    else:
        Q = (x + (1 - i) * w, y + (1 - j) * h)
    t.check('the two outline points', is_set(t, r.intersection(line_through(t, P, Q)), P, Q))


@case('C24', params=list(CORNERS))
def line_touch(t, c):
    """a line that meets the rectangle in one corner"""
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    i, j = CORNERS[c]
    P = (x + i * w, y + j * h)
    k = t.real('k', 0.01, 1000)
    d = (1, -k) if i == j else (1, k)
    t.check('the corner alone', is_set(t, r.intersection(line_through(t, P, (P[0] + d[0], P[1] + d[1]))), P))


@case('C24', params=list(EDGES))
def line_along(t, e):
    """a line along an edge"""
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    P, Q = on_edge(e, 0, x, y, w, h), on_edge(e, 1, x, y, w, h)
    t.check('the ends of the edge', is_set(t, r.intersection(line_through(t, P, Q)), P, Q))


@case('C24')
def line_miss(t):
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    k = t.real('k', -1, 1)
    a, b = t.choice('normal', [(1, k), (k, 1), (-1, k), (k, -1)])
    c = t.real('lc')
    t.assume(t.And(*[a * px + b * py + c >= 0.001 for px in (x, x + w) for py in (y, y + h)]))
    t.check('none', len(r.intersection(t.L.Line2D(a, b, c))) == 0)


SPAN = {'both': (-100, -0.05, 1.05, 100), 'one': (0.05, 0.95, 1.05, 100), 'none': (1.05, 100, 100.05, 200), 'in': (0.05, 0.45, 0.5, 0.95)}


@case('C24', params=[(p, s) for p in PAIRS for s in SPAN][::-1], weight=2)
def segment_cut(t, pair, where):
    a, b = pair
    r, x, y, w, h = rect(t, lo=0.02, hi=1000)
    P, Q = on_edge(a, t.real('l', 0.02, 0.98), x, y, w, h), on_edge(b, t.real('m', 0.02, 0.98), x, y, w, h)
    away(t, P[0] - Q[0], P[1] - Q[1], 0.1)
    if where == 'one' and t.choice('which', [False, True]):
        P, Q = Q, P
    lo, hi, lo2, hi2 = SPAN[where]
    s, e = t.real('s', lo, hi), lo2
    S = [(P[0] + z * (Q[0] - P[0]), P[1] + z * (Q[1] - P[1])) for z in (s, e)]
    if t.choice('flip', [False, True]):
        S.reverse()
    seg = t.L.Segment2D(t.V(*S[0]), t.V(*S[1]))
    want = {'both': (P, Q), 'one': (Q,), 'none': (), 'in': ()}[where]
    t.check('the outline points on the segment', is_set(t, r.intersection(seg), *want))
    t.check('unchanged', t.And(is_rect(t, r, x, y, w, h, t.exact), t.exact(seg.origin().x(), S[0][0]), t.exact(seg.terminal().y(), S[1][1])))


CUTS = {'left-right': lambda k: ((0, k), (10, k)), 'top-bottom': lambda k: ((k, 0), (k, 6)), 'left-top': lambda k: ((0, k), (k, 0)),
        'right-bottom': lambda k: ((10, 6 - k), (10 - k, 6)), 'left-bottom': lambda k: ((0, 6 - k), (k, 6)),
        'right-top': lambda k: ((10, k), (10 - k, 0)), 'slope': lambda k: ((k, 0), (k + 3, 6))}


@case('C24', params=[(c, s) for c in CUTS for s in ('both', 'one', 'none')])
def ray_cut(t, cut, where):
    """a ray along a chord of a 10 x 6 rectangle, or a small or large one like it, anywhere in the plane"""
    x, y = t.xy('o')
    f = t.choice('f', [1, 0.0625, 64])
    r = t.L.Rect2D(x, y, 10 * f, 6 * f)
    P, Q = [(x + f * px, y + f * py) for px, py in CUTS[cut](t.real('k', 0.1, 5.9))]
    if t.choice('reverse', [False, True]):
        P, Q = Q, P
    lo, hi, _, _ = SPAN[where]
    s = t.real('s', lo, hi)
    O = (P[0] + s * (Q[0] - P[0]), P[1] + s * (Q[1] - P[1]))
    ray = t.L.Ray2D(t.V(*O), t.V(O[0] + Q[0] - P[0], O[1] + Q[1] - P[1]))
    want = {'both': (P, Q), 'one': (Q,), 'none': ()}[where]
    t.check('the outline points on the ray', is_set(t, r.intersection(ray), *want))
    t.check('unchanged', t.And(is_rect(t, r, x, y, 10 * f, 6 * f, t.exact), t.exact(ray.origin().x(), O[0])))
