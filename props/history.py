"""C34: asking never changes anything, and answers after a change are those of an object built afresh"""
from sx.ctx import case
from .matrix import is_mat


# For every kind of object:
#   fresh(t, s): an object in state s (a tuple of numbers)
#   ask(t, o): its answers, as a flat list of numbers, booleans and vectors
#   change: name -> (number of arguments, fn(t, o, args), fn(state, args) -> new state)
# Old states and first changes are concrete, the last change has symbolic arguments.

class Kind:
    def __init__(self, name, start, fresh, ask, change, full=True):
        self.name, self.start, self.fresh, self.ask, self.change, self.full = name, start, fresh, ask, change, full


KINDS = {}
CTX = [None]
# readings without case distinctions, for changes with involved results
LIGHT = {'vector': lambda t, o: [o.x(), o.y(), o.r2(), o.length2(), o.r(), o.copy(), o.dist2(V(t, 1, 1)), o.inner_product(V(t, 2, 5)), o.outer_product(V(t, 2, 5)), o.is_valid(), o * 2, o + V(t, 1, 2)],
         'matrix': lambda t, o: [o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf(), o.det(), o.transform(3, 4), o.transform(V(t, 1, 2)), o * V(t, 2, 2)]}


def kind(*a, **k):
    KINDS[a[0]] = Kind(*a, **k)


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out += [len(x)] + flat(x)
        elif hasattr(x, 'degree'):
            out.append(x.degree())
        elif hasattr(x, 'is_valid') and hasattr(x, 'inner_product'):
            out += [x.is_valid(), x.x(), x.y()]
        elif hasattr(x, 'perpendicular'):
            out += [x.a(), x.b(), x.c()]
        elif hasattr(x, 'diagonal'):
            out += [x.length(), x.width()]
        else:
            out.append(x)
    return out


def same(t, a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        xb = isinstance(x, bool) or type(x).__name__ == 'SymBool'
        yb = isinstance(y, bool) or type(y).__name__ == 'SymBool'
        r.append(t.Iff(x, y) if xb or yb else t.eq(x, y))
    return t.And(True, *r)


def run(t, k, first, last, start=None):
    K = KINDS[k]
    s = K.start if start is None else start
    o = K.fresh(t, s)
    before = flat(K.ask(t, o))
    t.check('asking twice', same(t, before, K.ask(t, o)))
    t.check('asking leaves the state', same(t, K.ask(t, K.fresh(t, s)), before))
    if first is not None:
        n, do, st = K.change[first]
        a = [2, 3, 5, 7, 11, 13][:n]
        r = do(t, o, a)
        s = st(s, a)
        K.ask(t, o)
    n, do, st = K.change[last]
    free = range(n) if n < 2 or K.full else t.choice('free', [(0,), (n - 2,), (n - 1,)])
    a = [t.real('a%d' % i, *wide(k)) if i in free else 2 + 3 * i for i in range(n)]
    do(t, o, a)
    CTX[0] = t
    s = st(s, a)
    f = K.fresh(t, s)
    if last.endswith('!'):
        K = Kind(k, None, None, LIGHT[k], None)
    t.check('same as a fresh object', same(t, K.ask(t, o), K.ask(t, f)))
    t.check('and again', same(t, K.ask(t, o), K.ask(t, f)))


def setup(K):
    firsts = [None] + list(K.change)
    return firsts


# ---------------------------------------------------------------- the kinds

def V(t, x, y):
    return t.L.Vector2D(x, y)


def nz(d):
    """normal form of a concrete degree"""
    return 180 - (180 - d) % 360


kind('angle', (30,), lambda t, s: t.L.AngleDeg(s[0]),
     lambda t, o: [o.degree(), o.degree_(), o.radian(), o.abs(), o.get_normalized(), float(o) if not t.symbolic else o.degree(), o.is_left_of(40), o.is_right_of(-50),
                   o.is_within(0, 50), o.reverse_angle(), o + 10, o * 2, -o, o == t.L.AngleDeg(31), o.copy()],
     {'set_degree': (1, lambda t, o, a: o.set_degree(a[0]), lambda s, a: (a[0],)),
      'set_angle': (1, lambda t, o, a: o.set_angle(t.L.AngleDeg(a[0])), lambda s, a: (a[0],)),
      'add': (1, lambda t, o, a: o.__iadd__(a[0]), lambda s, a: (s[0] + a[0],)),
      'sub': (1, lambda t, o, a: o.__isub__(t.L.AngleDeg(a[0])), lambda s, a: (s[0] - a[0],)),
      'mul': (1, lambda t, o, a: o.__imul__(a[0]), lambda s, a: (nz(s[0]) * a[0],)),
      'reverse': (0, lambda t, o, a: o.reverse(), lambda s, a: (s[0] + 180,))})


def rot(d, x, y):
    c, s = CTX[0].cos(d), CTX[0].sin(d)
    return c * x - s * y, s * x + c * y


def rot_mat(s, a):
    p, q, r = rot(a[0] * 20, s[0], s[2]), rot(a[0] * 20, s[1], s[3]), rot(a[0] * 20, s[4], s[5])
    return p[0], q[0], p[1], q[1], r[0], r[1]


kind('vector', (3, 4), lambda t, s: V(t, *s),
     lambda t, o: [o.x(), o.y(), o.get_x(), o.get_y(), o.r2(), o.r(), o.length(), o.length2(), o.is_valid(), o.abs_x(), o.abs_y(), o.abs(), o.copy(), o.get_copy(),
                   o.dist(V(t, 1, 1)), o.dist2(V(t, 1, 1)), o.inner_product(V(t, 2, 5)), o.outer_product(V(t, 2, 5)), o.reverse_vector(), o.normalize_vector(),
                   o.set_length_vector(7), o + V(t, 1, 2), o - V(t, 1, 2), o * 2, o / 2, o == V(t, 3, 4), o.equals(V(t, 3, 4)), o.equals_weakly(V(t, 3, 4)), o.th().cos(), o.th().sin()],
     {'assign': (2, lambda t, o, a: o.assign(*a), lambda s, a: (a[0], a[1])),
      'set_x': (1, lambda t, o, a: o.set_x(a[0]), lambda s, a: (a[0], s[1])),
      'set_y': (1, lambda t, o, a: o.set_y(a[0]), lambda s, a: (s[0], a[0])),
      'set_x_y': (2, lambda t, o, a: o.set_x_y(*a), lambda s, a: (a[0], a[1])),
      'set_vector': (2, lambda t, o, a: o.set_vector(V(t, *a)), lambda s, a: (a[0], a[1])),
      'add': (2, lambda t, o, a: o.add(*a), lambda s, a: (s[0] + a[0], s[1] + a[1])),
      'add_vector': (2, lambda t, o, a: o.add(V(t, *a)), lambda s, a: (s[0] + a[0], s[1] + a[1])),
      'add_x': (1, lambda t, o, a: o.add_x(a[0]), lambda s, a: (s[0] + a[0], s[1])),
      'add_y': (1, lambda t, o, a: o.add_y(a[0]), lambda s, a: (s[0], s[1] + a[0])),
      'sub': (2, lambda t, o, a: o.sub(*a), lambda s, a: (s[0] - a[0], s[1] - a[1])),
      'sub_x': (1, lambda t, o, a: o.sub_x(a[0]), lambda s, a: (s[0] - a[0], s[1])),
      'sub_y': (1, lambda t, o, a: o.sub_y(a[0]), lambda s, a: (s[0], s[1] - a[0])),
      'scale': (1, lambda t, o, a: o.scale(a[0]), lambda s, a: (s[0] * a[0], s[1] * a[0])),
      'reverse': (0, lambda t, o, a: o.reverse(), lambda s, a: (-s[0], -s[1])),
      'iadd': (2, lambda t, o, a: o.__iadd__(V(t, *a)), lambda s, a: (s[0] + a[0], s[1] + a[1])),
      'isub': (2, lambda t, o, a: o.__isub__(V(t, *a)), lambda s, a: (s[0] - a[0], s[1] - a[1])),
      'imul': (1, lambda t, o, a: o.__imul__(a[0]), lambda s, a: (s[0] * a[0], s[1] * a[0])),
      'rotate!': (1, lambda t, o, a: o.rotate(a[0] * 20), lambda s, a: rot(a[0] * 20, s[0], s[1])),
      'validity': (0, lambda t, o, a: (o.invalidate(), o.validate()), lambda s, a: s)})

kind('line', (3, 4, 5), lambda t, s: t.L.Line2D(*s),
     lambda t, o: [o.a(), o.b(), o.c(), o.get_x(2), o.get_y(2), o.dist(V(t, 1, 7)), o.dist2(V(t, 1, 7)), o.projection(V(t, 1, 7)), o.perpendicular(V(t, 1, 7)),
                   o.is_parallel(t.L.Line2D(1, 2, 3)), o.intersection(t.L.Line2D(1, 2, 3)), o.copy(), o == t.L.Line2D(3, 4, 5)],
     {'nothing': (0, lambda t, o, a: None, lambda s, a: s)})

SEG = (0, 0, 3, 4)
kind('segment', SEG, lambda t, s: t.L.Segment2D(V(t, s[0], s[1]), V(t, s[2], s[3])),
     lambda t, o: [o.origin(), o.origin_(), o.terminal(), o.terminal_(), o.length(), o.line(), o.is_valid(), o.contains(V(t, 1, 2)), o.copy().origin(), o.copy().terminal(),
                   o.reversed_segment().origin(), o.nearest_point(V(t, 5, 1)), o.dist(V(t, 5, 1)), o.direction().cos(), o.direction().sin(),
                   o.exist_intersection(t.L.Segment2D(V(t, 0, 5), V(t, 5, 0))), o.exist_intersection(t.L.Line2D(1, 2, -3)), o.intersection(t.L.Line2D(1, 2, -3)),
                   o.farthest_dist(V(t, 5, 1)), o.perpendicular_bisector(), o == t.L.Segment2D(V(t, 0, 0), V(t, 3, 4)), o.on_segment(V(t, 1, 1))],
     {'assign2': (4, lambda t, o, a: o.assign(V(t, a[0], a[1]), V(t, a[2], a[3])), lambda s, a: tuple(a)),
      'assign4': (4, lambda t, o, a: o.assign(*a), lambda s, a: tuple(a)),
      'swap': (0, lambda t, o, a: o.swap(), lambda s, a: (s[2], s[3], s[0], s[1])),
      'reverse': (0, lambda t, o, a: o.reverse(), lambda s, a: (s[2], s[3], s[0], s[1])),
      'origin': (2, lambda t, o, a: o.origin_().assign(*a), lambda s, a: (a[0], a[1], s[2], s[3])),
      'terminal': (2, lambda t, o, a: o.terminal_().assign(*a), lambda s, a: (s[0], s[1], a[0], a[1])),
      'origin x': (1, lambda t, o, a: o.origin_().set_x(a[0]), lambda s, a: (a[0], s[1], s[2], s[3]))}, full=False)

kind('ray', (1, 2, 0), lambda t, s: t.L.Ray2D(V(t, s[0], s[1]), t.L.AngleDeg(s[2])),
     lambda t, o: [o.origin(), o.origin_(), o.dir(), o.dir_(), o.line(), o.copy().origin(), o.copy().dir(), o.in_right_dir(V(t, 20, 2)), o.in_right_dir(V(t, -20, 2)),
                   o.intersection(t.L.Line2D(1, 0, -30)), o == t.L.Ray2D(V(t, 1, 2), t.L.AngleDeg(0))],
     {'origin': (2, lambda t, o, a: o.origin_().assign(*a), lambda s, a: (a[0], a[1], s[2])),
      'origin y': (1, lambda t, o, a: o.origin_().set_y(a[0]), lambda s, a: (s[0], a[0], s[2])),
      'turn': (0, lambda t, o, a: o.dir_().set_degree(90), lambda s, a: (s[0], s[1], 90)),
      'back': (0, lambda t, o, a: o.dir_().set_degree(180), lambda s, a: (s[0], s[1], 180))})

TRI = (0, 0, 12, 0, 0, 10)
kind('triangle', TRI, lambda t, s: t.L.Triangle2D(V(t, s[0], s[1]), V(t, s[2], s[3]), V(t, s[4], s[5])),
     lambda t, o: [o.a(), o.b(), o.c(), o.a_(), o.b_(), o.c_(), o.area(), o.signed_area(), o.double_signed_area(), o.ccw(), o.is_valid(), o.contains(V(t, 2, 2)), o.centroid(),
                   o.circumcenter(), o.orthocenter()],
     {'assign3': (2, lambda t, o, a: o.assign(V(t, *a), V(t, 12, 1), V(t, -1, 10)), lambda s, a: (a[0], a[1], 12, 1, -1, 10)),
      'assign2': (2, lambda t, o, a: o.assign(t.L.Segment2D(V(t, 0, 1), V(t, 15, 0)), V(t, a[0], a[1] + 20)), lambda s, a: (0, 1, 15, 0, a[0], a[1] + 20)),
      'a': (2, lambda t, o, a: o.a_().assign(-a[0], -a[1]), lambda s, a: (-a[0], -a[1]) + s[2:]),
      'b': (2, lambda t, o, a: o.b_().assign(a[0] + 20, -a[1]), lambda s, a: s[:2] + (a[0] + 20, -a[1]) + s[4:]),
      'c': (2, lambda t, o, a: o.c_().assign(-a[0], a[1] + 30), lambda s, a: s[:4] + (-a[0], a[1] + 30))})

kind('circle', (1, 2, 5), lambda t, s: t.L.Circle2D(V(t, s[0], s[1]), s[2]),
     lambda t, o: [o.center(), o.center_(), o.radius(), o.area(), o.contains(V(t, 3, 3)), o.intersection(t.L.Line2D(0, 1, -60)), o.intersection(t.L.Circle2D(V(t, 90, 0), 3))],
     {'assign': (3, lambda t, o, a: o.assign(V(t, a[0], a[1]), a[2]), lambda s, a: tuple(a)),
      'centre': (2, lambda t, o, a: o.center_().assign(*a), lambda s, a: (a[0], a[1], s[2])),
      'centre x': (1, lambda t, o, a: o.center_().add_x(a[0]), lambda s, a: (s[0] + a[0], s[1], s[2]))})

kind('size', (3, 4), lambda t, s: t.L.Size2D(*s),
     lambda t, o: [o.length(), o.width(), o.diagonal(), o.is_valid(), o == t.L.Size2D(3, 4)],
     {'assign': (2, lambda t, o, a: o.assign(*a), lambda s, a: tuple(a)),
      'length': (1, lambda t, o, a: o.set_length(a[0]), lambda s, a: (a[0], s[1])),
      'width': (1, lambda t, o, a: o.set_width(a[0]), lambda s, a: (s[0], a[0]))})


def rect_ask(t, o):
    return [o.left(), o.right(), o.top(), o.bottom(), o.min_x(), o.max_x(), o.min_y(), o.max_y(), o.center(), o.top_left(), o.top_right(), o.bottom_left(), o.bottom_right(),
            o.size(), o.size_(), o.area(), o.is_valid(), o.left_edge(), o.right_edge(), o.top_edge(), o.bottom_edge(), o.contains(V(t, 3, 2)), o.contains_almost(V(t, 3, 2), 0.5)]


def rs(L=None, T=None, w=None, h=None):
    return lambda s, a: (s[0] if L is None else L(s, a), s[1] if T is None else T(s, a), s[2] if w is None else w(s, a), s[3] if h is None else h(s, a))


def wide(k):
    """how far the new numbers reach (points added to a hull stay off the lines through the others)"""
    return (1, 9) if k in ('circle', 'hull') else (-60, 60)


def span(s, **k):
    """the rectangle with some of its sides elsewhere: the other side stays where it is"""
    x, y = [k.get('L', s[0]), k.get('R', s[0] + abs(s[2]))], [k.get('T', s[1]), k.get('B', s[1] + abs(s[3]))]
    return (min(x), min(y), max(x) - min(x), max(y) - min(y))


kind('rect', (0, 0, 6, 4), lambda t, s: t.L.Rect2D(V(t, s[0], s[1]), s[2], s[3]), rect_ask,
     {'assign4': (4, lambda t, o, a: o.assign(*a), lambda s, a: tuple(a)),
      'assign3': (4, lambda t, o, a: o.assign(V(t, a[0], a[1]), a[2], a[3]), lambda s, a: tuple(a)),
      'assign size': (4, lambda t, o, a: o.assign(V(t, a[0], a[1]), t.L.Size2D(a[2], a[3])), lambda s, a: tuple(a)),
      'assign corners': (4, lambda t, o, a: o.assign(V(t, a[0], a[1]), V(t, a[0] + abs(a[2]), a[1] + abs(a[3]))), lambda s, a: tuple(a)),
      'assign rect': (4, lambda t, o, a: o.assign(t.L.Rect2D(*a)), lambda s, a: tuple(a)),
      'move_center': (2, lambda t, o, a: o.move_center(V(t, *a)), rs(L=lambda s, a: a[0] - s[2] / 2, T=lambda s, a: a[1] - s[3] / 2)),
      'move_top_left': (2, lambda t, o, a: o.move_top_left(V(t, *a)), rs(L=lambda s, a: a[0], T=lambda s, a: a[1])),
      'move_bottom_right': (2, lambda t, o, a: o.move_bottom_right(V(t, *a)), rs(L=lambda s, a: a[0] - s[2], T=lambda s, a: a[1] - s[3])),
      'move_left': (1, lambda t, o, a: o.move_left(a[0]), rs(L=lambda s, a: a[0])),
      'move_min_x': (1, lambda t, o, a: o.move_min_x(a[0]), rs(L=lambda s, a: a[0])),
      'move_right': (1, lambda t, o, a: o.move_right(a[0]), rs(L=lambda s, a: a[0] - s[2])),
      'move_max_x': (1, lambda t, o, a: o.move_max_x(a[0]), rs(L=lambda s, a: a[0] - s[2])),
      'move_top': (1, lambda t, o, a: o.move_top(a[0]), rs(T=lambda s, a: a[0])),
      'move_min_y': (1, lambda t, o, a: o.move_min_y(a[0]), rs(T=lambda s, a: a[0])),
      'move_bottom': (1, lambda t, o, a: o.move_bottom(a[0]), rs(T=lambda s, a: a[0] - s[3])),
      'move_max_y': (1, lambda t, o, a: o.move_max_y(a[0]), rs(T=lambda s, a: a[0] - s[3])),
      'set_left': (1, lambda t, o, a: o.set_left(a[0]), lambda s, a: span(s, L=a[0])),
      'set_right': (1, lambda t, o, a: o.set_right(a[0]), lambda s, a: span(s, R=a[0])),
      'set_top': (1, lambda t, o, a: o.set_top(a[0]), lambda s, a: span(s, T=a[0])),
      'set_bottom': (1, lambda t, o, a: o.set_bottom(a[0]), lambda s, a: span(s, B=a[0])),
      'set_top_left': (2, lambda t, o, a: o.set_top_left(a[0], a[1]), lambda s, a: span(s, L=a[0], T=a[1])),
      'set_bottom_right': (2, lambda t, o, a: o.set_bottom_right(V(t, a[0], a[1])), lambda s, a: span(s, R=a[0], B=a[1])),
      'set_length': (1, lambda t, o, a: o.set_length(a[0]), rs(w=lambda s, a: a[0])),
      'set_width': (1, lambda t, o, a: o.set_width(a[0]), rs(h=lambda s, a: a[0])),
      'set_size2': (2, lambda t, o, a: o.set_size(*a), rs(w=lambda s, a: a[0], h=lambda s, a: a[1])),
      'set_size': (2, lambda t, o, a: o.set_size(t.L.Size2D(*a)), rs(w=lambda s, a: a[0], h=lambda s, a: a[1])),
      'corner': (2, lambda t, o, a: o.top_left_().assign(*a), rs(L=lambda s, a: a[0], T=lambda s, a: a[1])),
      'size': (1, lambda t, o, a: o.size_().set_length(a[0]), rs(w=lambda s, a: a[0]))})

kind('sector', (1, 2, 3, 10, 20, 70), lambda t, s: t.L.Sector2D(V(t, s[0], s[1]), s[2], s[3], t.L.AngleDeg(s[4]), t.L.AngleDeg(s[5])),
     lambda t, o: [o.center(), o.center_(), o.radius_min(), o.radius_max(), o.angle_left_start(), o.angle_left_start_(), o.angle_right_end(), o.angle_right_end_(), o.area(),
                   o.get_circumference_min(), o.get_circumference_max(), o == t.L.Sector2D(V(t, 1, 2), 3, 10, 20, 70)],
     {'assign': (6, lambda t, o, a: o.assign(V(t, a[0], a[1]), a[2], a[2] + a[3], a[4], a[5]), lambda s, a: (a[0], a[1], a[2], a[2] + a[3], a[4], a[5])),
      'centre': (2, lambda t, o, a: o.center_().assign(*a), lambda s, a: (a[0], a[1]) + s[2:]),
      'start': (1, lambda t, o, a: o.angle_left_start_().set_degree(a[0]), lambda s, a: s[:4] + (a[0], s[5])),
      'end': (1, lambda t, o, a: o.angle_right_end_().set_degree(-a[0]), lambda s, a: s[:5] + (-a[0],))})

kind('matrix', (2, 1, 1, 3, 4, 5), lambda t, s: t.L.Matrix2D(*s),
     lambda t, o: [o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf(), o.det(), o.invertible(), o.transform(3, 4), o.transform(V(t, 1, 2)), o * V(t, 2, 2), o == t.L.Matrix2D(2, 1, 1, 3, 4, 5)]
     + ([o.inverted().m11(), o.inverted().dxtf(), o.inverted().m21(), o.inverted().dytf()]),
     {'assign': (6, lambda t, o, a: o.assign(a[0] + 10, a[1], a[2], a[3] + 10, a[4], a[5]), lambda s, a: (a[0] + 10, a[1], a[2], a[3] + 10, a[4], a[5])),
      'reset': (0, lambda t, o, a: o.reset(), lambda s, a: (1, 0, 0, 1, 0, 0)),
      'translate': (2, lambda t, o, a: o.translate(*a), lambda s, a: s[:4] + (s[4] + a[0], s[5] + a[1])),
      'scale': (2, lambda t, o, a: o.scale(*a), lambda s, a: (s[0] * a[0], s[1] * a[0], s[2] * a[1], s[3] * a[1], s[4] * a[0], s[5] * a[1])),
      'rotate!': (1, lambda t, o, a: o.rotate(t.L.AngleDeg(a[0] * 20)), rot_mat),
      'imul': (2, lambda t, o, a: o.__imul__(t.L.Matrix2D(1, a[0], 0, 1, 0, a[1])), lambda s, a: (s[0], s[0] * a[0] + s[1], s[2], s[2] * a[0] + s[3], s[1] * a[1] + s[4], s[3] * a[1] + s[5]))})


@case('C34', params=[(k, m) for k in KINDS for m in KINDS[k].change])
def one_change(t, k, last):
    run(t, k, None, last)


@case('C34', params=[(k, m) for k in KINDS if len(KINDS[k].change) > 1 for m in KINDS[k].change])
def two_changes(t, k, last):
    K = KINDS[k]
    fs = [f for f in K.change if not f.endswith('!')]
    # neighbours in the list, and the first two: every change comes first somewhere
    i = list(K.change).index(last)
    first = t.choice('first', sorted({fs[0], fs[1], fs[(i + 1) % len(fs)], fs[(i - 1) % len(fs)], fs[(i - 2) % len(fs)]}))
    run(t, k, first, last)


@case('C34', params=[(k, m) for k in KINDS if len(KINDS[k].change) > 1 for m in KINDS[k].change], thorough_only=True)
def two_changes_all(t, k, last):
    run(t, k, t.choice('first', [f for f in KINDS[k].change if not f.endswith('!')]), last)


@case('C34', params=list(KINDS))
def separate(t, k):
    """two objects of one kind do not influence each other"""
    K = KINDS[k]
    a, b = K.fresh(t, K.start), K.fresh(t, K.start)
    m = t.choice('change', [f for f in K.change if not f.endswith('!')])
    n, do, st = K.change[m]
    want = flat(K.ask(t, b))
    do(t, a, [t.real('a%d' % i, *wide(k)) if K.full or i == n - 1 else 2 + 3 * i for i in range(n)])
    K.ask(t, a)
    t.check('the other object', same(t, K.ask(t, b), want))
    t.check('later objects', same(t, K.ask(t, K.fresh(t, K.start)), want))


@case('C34')
def defaults(t):
    """objects built without arguments are always the same"""
    x, y, z = t.real('x', 1, 9), t.real('y', 1, 9), t.real('z', 1, 9)
    L = t.L
    v = L.Vector2D()
    v.assign(x, y)
    v.invalidate()
    a = L.AngleDeg()
    a.set_degree(x)
    c = L.Circle2D()
    c.center_().assign(x, y)
    c.assign(L.Vector2D(x, y), z)
    c2 = L.Circle2D(radius=z)
    c2.center_().add(x, y)
    s = L.Segment2D()
    s.origin_().assign(x, y)
    s.terminal_().assign(y, x)
    p = L.Polygon2D()
    p.vertices_()[0].assign(x, y)
    p.add_vertex(L.Vector2D(y, z))
    q = L.Polygon2D()
    q.clear()
    q.vertices_()[0].assign(x, y)
    m = L.Matrix2D()
    m.translate(x, y)
    m.scale(y, z)
    r = L.Rect2D()
    r.top_left_().assign(x, y)
    r.size_().assign(x, y)
    w = L.Size2D()
    w.assign(x, y)
    i = L.Vector2D.invalid()
    i.assign(x, y)
    i.validate()
    e = t.exact

    def at(v, x, y):
        return t.And(e(v.x(), x), e(v.y(), y))
    t.check('vector', t.And(at(L.Vector2D(), 0, 0), L.Vector2D().is_valid()))
    t.check('invalid vector', t.Not(L.Vector2D.invalid().is_valid()))
    t.check('angle', e(L.AngleDeg().degree(), 0))
    t.check('circle', t.And(at(L.Circle2D().center(), 0, 0), e(L.Circle2D().radius(), 0), at(L.Circle2D(radius=2).center(), 0, 0)))
    t.check('segment', t.And(at(L.Segment2D().origin(), 0, 0), at(L.Segment2D().terminal(), 0, 0)))
    P = L.Polygon2D()
    t.check('polygon', t.And(len(P.vertices()) == 1, at(P.vertices()[0], 0, 0)))
    P.clear()
    t.check('cleared polygon', t.And(len(P.vertices()) == 1, at(P.vertices()[0], 0, 0)))
    t.check('matrix', is_mat(t, L.Matrix2D(), (1, 0, 0, 1, 0, 0)))
    t.check('rectangle', t.And(at(L.Rect2D().top_left(), 0, 0), e(L.Rect2D().area(), 0), t.Not(L.Rect2D().is_valid())))
    t.check('size', t.And(e(L.Size2D().length(), 0), e(L.Size2D().width(), 0)))


# an object assigned from its own parts (handed out by reference): (kind, what, change, new state)
OWN = [
    ('segment', 'ends exchanged', lambda t, o: o.assign(o.terminal_(), o.origin_()), lambda s: (s[2], s[3], s[0], s[1])),
    ('segment', 'one end twice', lambda t, o: o.assign(o.terminal_(), o.terminal_()), lambda s: (s[2], s[3], s[2], s[3])),
    ('segment', 'own ends', lambda t, o: o.assign(o.origin_(), o.terminal_()), lambda s: s),
    ('segment', 'polar from the far end', lambda t, o: o.assign(o.terminal_(), 2, 0), lambda s: (s[2], s[3], s[2] + 2, s[3])),
    ('segment', 'end set to the other', lambda t, o: o.origin_().set_vector(o.terminal_()), lambda s: (s[2], s[3], s[2], s[3])),
    ('triangle', 'corners turned', lambda t, o: o.assign(o.b_(), o.c_(), o.a_()), lambda s: s[2:] + s[:2]),
    ('triangle', 'corners exchanged', lambda t, o: o.assign(o.b_(), o.a_(), o.c_()), lambda s: s[2:4] + s[:2] + s[4:]),
    ('triangle', 'segment and corner', lambda t, o: o.assign(t.L.Segment2D(o.c_(), o.b_()), o.a_()), lambda s: s[4:] + s[2:4] + s[:2]),
    ('circle', 'own centre', lambda t, o: o.assign(o.center_(), 2), lambda s: (s[0], s[1], 2)),
    ('rect', 'own corner and size', lambda t, o: o.assign(o.top_left_(), o.size_()), lambda s: s),
    ('rect', 'itself', lambda t, o: o.assign(o), lambda s: s),
    ('rect', 'own corner to centre', lambda t, o: o.move_center(o.top_left_()), lambda s: (s[0] - s[2] / 2, s[1] - s[3] / 2, s[2], s[3])),
    ('rect', 'own corner to bottom right', lambda t, o: o.move_bottom_right(o.top_left_()), lambda s: (s[0] - s[2], s[1] - s[3], s[2], s[3])),
    ('rect', 'own corner to top left', lambda t, o: o.move_top_left(o.top_left_()), lambda s: s),
    ('rect', 'own size', lambda t, o: o.set_size(o.size_()), lambda s: s),
    ('rect', 'corners', lambda t, o: o.assign(o.bottom_right(), o.top_left_()), lambda s: s),
    ('sector', 'own parts', lambda t, o: o.assign(o.center_(), o.radius_min(), o.radius_max() + 1, o.angle_right_end_(), o.angle_left_start_()), lambda s: s[:3] + (s[3] + 1, s[5], s[4])),
    ('matrix', 'times itself', lambda t, o: o.__imul__(o), lambda s: (s[0] * s[0] + s[1] * s[2], s[0] * s[1] + s[1] * s[3], s[2] * s[0] + s[3] * s[2], s[2] * s[1] + s[3] * s[3],
                                                                      s[0] * s[4] + s[1] * s[5] + s[4], s[2] * s[4] + s[3] * s[5] + s[5])),
    ('vector', 'plus itself', lambda t, o: o.__iadd__(o), lambda s: (2 * s[0], 2 * s[1])),
    ('vector', 'add itself', lambda t, o: o.add(o), lambda s: (2 * s[0], 2 * s[1])),
    ('vector', 'minus itself', lambda t, o: o.__isub__(o), lambda s: (s[0] - s[0], s[1] - s[1])),
    ('vector', 'sub itself', lambda t, o: o.sub(o), lambda s: (s[0] - s[0], s[1] - s[1])),
    ('vector', 'itself', lambda t, o: o.set_vector(o), lambda s: s),
    ('vector', 'coordinates exchanged', lambda t, o: o.assign(o.y(), o.x()), lambda s: (s[1], s[0])),
    ('angle', 'plus itself', lambda t, o: o.__iadd__(o), lambda s: (2 * s[0],)),
    ('angle', 'minus itself', lambda t, o: o.__isub__(o), lambda s: (s[0] - s[0],)),
    ('angle', 'itself', lambda t, o: o.set_angle(o), lambda s: s),
]


@case('C34', params=list(range(len(OWN))))
def own_parts(t, i):
    k, what, do, st = OWN[i]
    K = KINDS[k]
    free = t.choice('free', list(range(len(K.start))))
    s = tuple(x + t.real('a', 0, 0.5) if j == free else x for j, x in enumerate(K.start))
    o = K.fresh(t, s)
    if t.choice('asked', [False, True]):
        K.ask(t, o)
    do(t, o)
    t.check('same as a fresh object', same(t, K.ask(t, o), K.ask(t, K.fresh(t, st(s)))))


# objects that count as empty or invalid before the change
EMPTY = {'angle': [(180,), (0,)], 'vector': [(0, 0)], 'segment': [(3, 4, 3, 4), (0, 0, 0, 0)], 'triangle': [(1, 1, 1, 1, 1, 1), (0, 0, 4, 0, 9, 0)], 'circle': [(1, 2, 0)],
         'size': [(0, 0), (3, 0)], 'rect': [(1, 2, 0, 5), (1, 2, 5, 0), (0, 0, 0, 0)], 'sector': [(1, 2, 0, 0, 20, 20)], 'matrix': [(1, 1, 1, 1, 0, 0), (0, 0, 0, 0, 0, 0)]}


@case('C34', params=[(k, m) for k in EMPTY for m in KINDS[k].change if not m.endswith('!')])
def change_of_empty(t, k, last):
    run(t, k, None, last, t.choice('start', EMPTY[k]))
