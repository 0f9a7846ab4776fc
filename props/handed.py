"""Results belong to the caller: changing what a query returned changes neither the objects asked nor later answers"""
from sx.ctx import case
from .history import flat


def spoil(x):
    """change everything a result is made of"""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.clear()
    elif hasattr(x, 'set_degree'):
        x.set_degree(77)
    elif hasattr(x, 'inner_product'):
        x.assign(991, 992)
        x.invalidate()
    elif hasattr(x, 'terminal_'):
        x.origin_().assign(991, 992)
        x.terminal_().assign(993, 994)
    elif hasattr(x, 'size_'):
        x.top_left_().assign(991, 992)
        x.size_().assign(993, 994)
    elif hasattr(x, 'angle_left_start_'):
        x.center_().assign(991, 992)
        x.angle_left_start_().set_degree(77)
        x.angle_right_end_().set_degree(78)
    elif hasattr(x, 'center_'):
        x.center_().assign(991, 992)
    elif hasattr(x, 'diagonal'):
        x.assign(993, 994)
    elif hasattr(x, 'dir_'):
        x.origin_().assign(991, 992)
        x.dir_().set_degree(77)
    elif hasattr(x, 'translate'):
        x.translate(991, 992)
    elif hasattr(x, 'add_vertex'):
        # the corner objects may be common, the list of them is not
        x.add_vertex(x.vertices()[0].copy() if x.vertices() else x)
        x.clear()
    elif hasattr(x, 'a_'):
        for v in (x.a_(), x.b_(), x.c_()):
            v.assign(991, 992)


def parts(x):
    if isinstance(x, list):
        return [len(x)] + [z for y in x for z in parts(y)]
    if hasattr(x, 'a_'):
        return parts([x.a(), x.b(), x.c()])
    if hasattr(x, 'terminal_'):
        return parts([x.origin(), x.terminal()])
    if hasattr(x, 'dir_'):
        return parts([x.origin(), x.dir()])
    if hasattr(x, 'size_'):
        return [x.left(), x.top(), x.size().length(), x.size().width()]
    if hasattr(x, 'angle_left_start_'):
        return parts([x.center(), x.angle_left_start(), x.angle_right_end()]) + [x.radius_min(), x.radius_max()]
    if hasattr(x, 'center_'):
        return parts([x.center()]) + [x.radius()]
    if hasattr(x, 'vertices'):
        return parts(x.vertices())
    if hasattr(x, 'translate'):
        return [x.m11(), x.m12(), x.m21(), x.m22(), x.dxtf(), x.dytf()]
    return flat([x])


def free(t, objs, ask):
    before = [parts(o) for o in objs]
    r = ask()
    first = parts(r)
    spoil(r)
    t.check('objects untouched', t.And(*[t.And(len(a) == len(b), *[same(t, x, y) for x, y in zip(a, b)]) for a, b in zip(before, [parts(o) for o in objs])]))
    again = parts(ask())
    t.check('same answer again', t.And(len(first) == len(again), *[same(t, x, y) for x, y in zip(first, again)]))


def same(t, x, y):
    b = [isinstance(v, bool) or type(v).__name__ == 'SymBool' for v in (x, y)]
    return t.Iff(x, y) if any(b) else t.exact(x, y)


# property -> name -> fn(t, V) -> (objects, query); V(x, y) is a vector moved by a symbolic offset
ASK = {}


def ask(prop, name):
    def deco(f):
        ASK.setdefault(prop, {})[name] = f
        return f
    return deco


def S(t, V, a, b):
    return t.L.Segment2D(V(*a), V(*b))


for _n, _p in (('middle', (5, 3)), ('on it', (2, 0)), ('at an end', (4, 0)), ('at the other end', (0, 0)), ('before', (-3, 1)), ('after', (9, 1))):
    @ask('C13', 'nearest ' + _n)
    def _(t, V, p=_p):
        s, v = S(t, V, (0, 0), (4, 0)), V(*p)
        return [s, v], lambda: s.nearest_point(v)

    @ask('C15', 'projection ' + _n)
    def _(t, V, p=_p):
        s, v = S(t, V, (0, 0), (4, 0)), V(*p)
        return [s, v], lambda: s.projection(v)

    @ask('C15', 'projection on a point ' + _n)
    def _(t, V, p=_p):
        s, v = S(t, V, (4, 0), (4, 0)), V(*p)
        return [s, v], lambda: s.projection(v)

    @ask('C09', 'projection ' + _n)
    def _(t, V, p=_p):
        a, b, v = V(0, 0), V(4, 0), V(*p)
        l = t.L.Line2D(a, b)
        return [l, a, b, v], lambda: [l.projection(v), l.perpendicular(v)]

for _n, _a, _b in (('inside', (2, -1), (2, 3)), ('at an end', (4, 0), (4, 3)), ('at the other end', (0, 0), (0, -3)), ('end on it', (1, 0), (3, 3)), ('not', (7, 1), (8, 9)), ('along', (0, 0), (4, 0))):
    @ask('C15', 'segments meet ' + _n)
    def _(t, V, a=_a, b=_b):
        s, q = S(t, V, (0, 0), (4, 0)), S(t, V, a, b)
        return [s, q], lambda: [s.intersection(q, True), s.intersection(q)]

    @ask('C15', 'line meets ' + _n)
    def _(t, V, a=_a, b=_b):
        s, l = S(t, V, (0, 0), (4, 0)), t.L.Line2D(V(*a), V(*b))
        return [s, l], lambda: s.intersection(l)

    @ask('C10', 'lines meet ' + _n)
    def _(t, V, a=_a, b=_b):
        v = [V(0, 0), V(4, 0), V(*a), V(*b)]
        l, m = t.L.Line2D(v[0], v[1]), t.L.Line2D(v[2], v[3])
        return [l, m] + v, lambda: [l.intersection(m), t.L.Line2D.line_intersection(m, l)]

    @ask('C18', 'triangle ' + _n)
    def _(t, V, a=_a, b=_b):
        T = t.L.Triangle2D(V(0, 0), V(4, 0), V(0, 3))
        l, s = t.L.Line2D(V(*a), V(*b)), S(t, V, a, b)
        return [T, l, s], lambda: [T.intersection(l), T.intersection(s)]

    @ask('C24', 'rectangle ' + _n)
    def _(t, V, a=_a, b=_b):
        R = t.L.Rect2D(V(0, 0), 4, 3)
        l, s = t.L.Line2D(V(*a), V(*b)), S(t, V, a, b)
        return [R, l, s], lambda: [R.intersection(l), R.intersection(s)]

    @ask('C20', 'circle ' + _n)
    def _(t, V, a=_a, b=_b):
        C = t.L.Circle2D(V(0, 0), 4)
        s = S(t, V, a, b)
        return [C, s], lambda: C.intersection(s)

    @ask('C19', 'circle ' + _n)
    def _(t, V, a=_a, b=_b):
        C = t.L.Circle2D(V(0, 0), 4)
        l = t.L.Line2D(V(*a), V(*b))
        return [C, l], lambda: [C.intersection(l), C.center()]

    @ask('C12', 'segment ' + _n)
    def _(t, V, a=_a, b=_b):
        s = S(t, V, a, b)
        return [s], lambda: [s.origin(), s.terminal(), s.direction(), s.copy(), s.reversed_segment()]

for _n, _o, _d in (('into it', (-3, 1), 0), ('from a corner', (0, 0), 90), ('from inside', (1, 1), 180), ('away', (9, 9), 0)):
    @ask('C18', 'ray ' + _n)
    def _(t, V, o=_o, d=_d):
        T, r = t.L.Triangle2D(V(0, 0), V(4, 0), V(0, 3)), t.L.Ray2D(V(*o), d)
        return [T, r], lambda: T.intersection(r)

    @ask('C24', 'ray ' + _n)
    def _(t, V, o=_o, d=_d):
        T, r = t.L.Rect2D(V(0, 0), 4, 3), t.L.Ray2D(V(*o), d)
        return [T, r], lambda: T.intersection(r)

    @ask('C11', 'ray ' + _n)
    def _(t, V, o=_o, d=_d):
        v, e = V(*o), t.L.AngleDeg(d)
        r, l, q = t.L.Ray2D(v, e), t.L.Line2D(V(0, 0), V(5, 5)), t.L.Ray2D(V(0, 0), 45)
        return [r, l, q, v, e], lambda: [r.origin(), r.dir(), r.copy(), r.intersection(l), r.intersection(q), q.intersection(r)]

for _n, _a, _b, _c in (('right', (0, 0), (4, 0), (0, 3)), ('right at the second', (4, 0), (0, 0), (0, 3)), ('right at the third', (4, 0), (0, 3), (0, 0)), ('flat', (0, 0), (4, 0), (9, 0)), ('point', (1, 1), (1, 1), (1, 1)), ('any', (1, 1), (5, 2), (2, 7))):
    @ask('C17', 'centres ' + _n)
    def _(t, V, a=_a, b=_b, c=_c):
        v = [V(*a), V(*b), V(*c)]
        T = t.L.Triangle2D(*v)
        st = t.L.Triangle2D
        fs = ['centroid', 'circumcenter', 'orthocenter']
        return [T] + v, lambda: [getattr(T, f)() for f in fs] + [getattr(st, 'tri_' + f)(*v) for f in fs]

    @ask('C16', 'corners ' + _n)
    def _(t, V, a=_a, b=_b, c=_c):
        v = [V(*a), V(*b), V(*c)]
        T, s = t.L.Triangle2D(*v), t.L.Segment2D(v[0], v[1])
        return [T, s] + v, lambda: [T.a(), T.b(), T.c(), t.L.Triangle2D(T.a(), T.b(), T.c()), t.L.Triangle2D(s, v[2]), t.L.Triangle2D(*v)]

    @ask('C21', 'circumcircle ' + _n)
    def _(t, V, a=_a, b=_b, c=_c):
        v = [V(*a), V(*b), V(*c)]
        return v, lambda: t.L.Circle2D.circum_circle(*v)

    @ask('C27', 'polygon ' + _n)
    def _(t, V, a=_a, b=_b, c=_c):
        P = t.L.Polygon2D([V(*a), V(*b), V(*c)])
        return [P], lambda: [P.get_bounding_box(), P.bounding_box_center()]

    @ask('C27', 'list ' + _n)
    def _(t, V, a=_a, b=_b, c=_c):
        P = t.L.Polygon2D([V(*a), V(*b), V(*c)])

        def q():
            vs = P.vertices()
            n = len(vs)
            vs.clear()
            return [n, t.L.Polygon2D(P.vertices())]
        return [P], q

for _n, _r in (('covered', (-9, -9, 30, 30)), ('cut', (1, -5, 2, 30)), ('apart', (50, 50, 2, 2)), ('top cut', (-9, 1, 30, 30))):
    @ask('C28', 'clip ' + _n)
    def _(t, V, r=_r):
        P, R = t.L.Polygon2D([V(0, 0), V(4, 0), V(4, 4), V(0, 4)]), t.L.Rect2D(V(r[0], r[1]), r[2], r[3])
        return [P, R], lambda: P.get_rectangle_clipped_polygon(R)

for _n, _q in (('apart', (50, 50, 2, 2)), ('inside', (1, 1, 2, 1)), ('around', (-5, -5, 30, 30)), ('same', (0, 0, 4, 3)), ('across', (2, 2, 9, 9)), ('empty', (1, 1, 0, 0))):
    @ask('C23', 'boxes ' + _n)
    def _(t, V, q=_q):
        A, B = t.L.Rect2D(V(0, 0), 4, 3), t.L.Rect2D(V(q[0], q[1]), q[2], q[3])
        return [A, B], lambda: [A.intersected(B), A.united(B), B.intersected(A), B.united(A)]

    @ask('C22', 'readers ' + _n)
    def _(t, V, q=_q):
        A = t.L.Rect2D(V(q[0], q[1]), q[2], q[3])
        return [A], lambda: [A.size(), A.center(), A.top_left(), A.top_right(), A.bottom_left(), A.bottom_right(), t.L.Rect2D(A), t.L.Rect2D(V(0, 0), 1, 1).assign(A)]


for _n, _m in (('identity', (1, 0, 0, 1, 0, 0)), ('shift', (1, 0, 0, 1, 5, 6)), ('any', (2, 1, 1, 3, 4, 5)), ('flat', (1, 1, 1, 1, 0, 0))):
    @ask('C29', 'matrix ' + _n)
    def _(t, V, m=_m):
        x, y = V(0, 0).x(), V(0, 0).y()
        M, I, v = t.L.Matrix2D(m[0], m[1], m[2], m[3], m[4] * x, m[5] * y), t.L.Matrix2D(), V(2, 3)
        return [M, I, v], lambda: [M.inverted(), M * I, I * M, M * M, M * v, M.transform(v)]

for _n, _p in (('zero', (0, 0)), ('level', (5, 0)), ('any', (3, 4))):
    @ask('C06', 'vector ' + _n)
    def _(t, V, p=_p):
        v = t.V(*p) if _n == 'zero' else V(*p)
        return [v], lambda: [v.rotated_vector(0), v.rotated_vector(90), v.set_length_vector(3), v.normalize_vector(), v.th(), v.dir()]

    @ask('C05', 'vector ' + _n)
    def _(t, V, p=_p):
        v, w = V(*p), t.V(0, 0)
        return [v, w], lambda: [v + w, w + v, v - w, v * 1, v / 1, v.abs(), v.reverse_vector(), v + v, v.copy(), v.get_copy()]

for _n, _d in (('zero', 0), ('seam', 180), ('any', 33)):
    @ask('C01', 'angle ' + _n)
    def _(t, V, d=_d):
        a, z = t.L.AngleDeg(d), t.L.AngleDeg(0)
        return [a, z], lambda: [a + z, a - z, z + a, a * 1, a / 1, -a, a.reverse_angle(), a.copy(), t.L.AngleDeg(a), a + 0, a - 0]

    @ask('C03', 'bisect ' + _n)
    def _(t, V, d=_d):
        a, z = t.L.AngleDeg(d), t.L.AngleDeg(0)
        return [a, z], lambda: [t.L.AngleDeg.bisect(a, z), t.L.AngleDeg.bisect(a, a), t.L.AngleDeg.bisect(z, a)]


@ask('C31', 'motion')
def _(t, V):
    sm = t.L.sm
    p, v = V(1, 2), V(3, 4)
    return [p, v], lambda: [sm.inertia_n_step_travel(v, 1, 0.9), sm.inertia_n_step_travel(v, 0, 0.9), sm.inertia_n_step_point(p, v, 0, 0.9), sm.inertia_n_step_point(p, v, 3, 0.5), sm.inertia_final_travel(v, 0.5),
                            sm.inertia_final_travel(v, 0), sm.inertia_final_point(p, v, 0.5), sm.inertia_final_point(p, t.V(0, 0), 0.5), sm.inertia_n_step_point(p, t.V(0, 0), 3, 0.5)]


for _prop in ASK:
    def _mk(prop):
        @case(prop, name='handed_out', params=list(ASK[prop]))
        def handed_out(t, which):
            ox, oy = t.xy('o', -100, 100)
            objs, q = ASK[prop][which](t, lambda x, y: t.V(ox + x, oy + y))
            free(t, objs, q)
    _mk(_prop)


# ------------------------------------------------------------------ arguments taken in

# property -> name -> fn(t, V) -> (arguments, build); build() makes an object from the arguments (or hands them to an existing one)
TAKE = {}


def take(prop, name, args, make, start=None):
    """make(t, o, *args): o is None to construct, else an existing object to update"""
    def f(t, V):
        a = args(t, V)
        return a, lambda: (lambda o: make(t, o, *a) or o)(start(t) if start else None)
    TAKE.setdefault(prop, {})[name] = f


def both(prop, name, args, cls, start):
    take(prop, name + ', built', args, lambda t, o, *a: getattr(t.L, cls)(*a))
    take(prop, name + ', assigned', args, lambda t, o, *a: o.assign(*a) and None, start)


def seg0(t):
    return t.L.Segment2D(1, 2, 3, 4)


def rect0(t):
    return t.L.Rect2D(t.V(1, 2), 3, 4)


def tri0(t):
    return t.L.Triangle2D(t.V(0, 0), t.V(1, 0), t.V(0, 1))


both('C12', 'points', lambda t, V: [V(0, 0), V(4, 3)], 'Segment2D', seg0)
both('C12', 'one point twice', lambda t, V: [V(0, 0)] * 2, 'Segment2D', seg0)
both('C12', 'point, length, angle', lambda t, V: [V(0, 0), 4, t.L.AngleDeg(33)], 'Segment2D', seg0)
both('C12', 'point, length, number', lambda t, V: [V(0, 0), 4, 33], 'Segment2D', seg0)
both('C12', 'point, no length', lambda t, V: [V(0, 0), 0, 0], 'Segment2D', seg0)
both('C16', 'points', lambda t, V: [V(0, 0), V(4, 3), V(1, 5)], 'Triangle2D', tri0)
both('C16', 'one point', lambda t, V: [V(0, 0)] * 3, 'Triangle2D', tri0)
both('C16', 'segment, point', lambda t, V: [t.L.Segment2D(V(0, 0), V(4, 3)), V(1, 5)], 'Triangle2D', tri0)
both('C19', 'centre', lambda t, V: [V(0, 0), 4], 'Circle2D', lambda t: t.L.Circle2D(t.V(1, 2), 3))
both('C19', 'centre, no radius', lambda t, V: [V(0, 0), -4], 'Circle2D', lambda t: t.L.Circle2D(t.V(1, 2), 3))
both('C22', 'corner, numbers', lambda t, V: [V(0, 0), 4, 3], 'Rect2D', rect0)
both('C22', 'corner, size', lambda t, V: [V(0, 0), t.L.Size2D(4, 3)], 'Rect2D', rect0)
both('C22', 'corners', lambda t, V: [V(0, 0), V(4, 3)], 'Rect2D', rect0)
both('C22', 'corners exchanged', lambda t, V: [V(4, 3), V(0, 0)], 'Rect2D', rect0)
both('C22', 'rectangle', lambda t, V: [t.L.Rect2D(V(0, 0), 4, 3)], 'Rect2D', rect0)
take('C22', 'from_center', lambda t, V: [V(0, 0), 4, 3], lambda t, o, *a: t.L.Rect2D.from_center(*a))
for _n in ('move_center', 'move_top_left', 'move_bottom_right', 'set_top_left', 'set_bottom_right'):
    take('C22', _n, lambda t, V: [V(0, 0)], lambda t, o, a, n=_n: getattr(o, n)(a) and None, rect0)
take('C22', 'set_size', lambda t, V: [t.L.Size2D(4, 3)], lambda t, o, a: o.set_size(a) and None, rect0)
both('C25', 'angles', lambda t, V: [V(0, 0), 1, 4, t.L.AngleDeg(10), t.L.AngleDeg(50)], 'Sector2D', lambda t: t.L.Sector2D(t.V(1, 1), 1, 2, 3, 4))
both('C25', 'one angle', lambda t, V: (lambda a: [V(0, 0), 1, 4, a, a])(t.L.AngleDeg(10)), 'Sector2D', lambda t: t.L.Sector2D(t.V(1, 1), 1, 2, 3, 4))
take('C11', 'angle', lambda t, V: [V(0, 0), t.L.AngleDeg(10)], lambda t, o, *a: t.L.Ray2D(*a))
take('C11', 'points', lambda t, V: [V(0, 0), V(4, 3)], lambda t, o, *a: t.L.Ray2D(*a))
take('C07', 'vector', lambda t, V: [V(0, 0)], lambda t, o, *a: t.L.Vector2D(*a))
take('C07', 'set_vector', lambda t, V: [V(0, 0)], lambda t, o, a: o.set_vector(a) and None, lambda t: t.V(5, 5))
take('C06', 'polar', lambda t, V: [4, t.L.AngleDeg(10)], lambda t, o, *a: t.L.Vector2D.from_polar(*a))
take('C06', 'set_polar', lambda t, V: [4, t.L.AngleDeg(10)], lambda t, o, *a: o.set_polar(*a) and None, lambda t: t.V(5, 5))
take('C06', 'set_dir', lambda t, V: [t.L.AngleDeg(10)], lambda t, o, *a: o.set_dir(*a) and None, lambda t: t.V(5, 5))
take('C01', 'angle', lambda t, V: [t.L.AngleDeg(10)], lambda t, o, *a: t.L.AngleDeg(*a))
take('C05', 'add', lambda t, V: [V(2, 3)], lambda t, o, *a: o.add(*a) and None, lambda t: t.V(5, 5))
take('C08', 'points', lambda t, V: [V(0, 0), V(4, 3)], lambda t, o, *a: t.L.Line2D(*a))
take('C08', 'angle', lambda t, V: [V(0, 0), t.L.AngleDeg(10)], lambda t, o, *a: t.L.Line2D(*a))
take('C08', 'kw points', lambda t, V: [V(0, 0), V(4, 3)], lambda t, o, p, q: t.L.Line2D(p1=p, p2=q))
take('C08', 'kw angle', lambda t, V: [V(0, 0), t.L.AngleDeg(10)], lambda t, o, p, q: t.L.Line2D(p=p, a=q))
take('C29', 'rotation', lambda t, V: [t.L.AngleDeg(10)], lambda t, o, a: t.L.Matrix2D.make_rotation(a))


def shape(x):
    return [x.a(), x.b(), x.c()] if not hasattr(x, 'a_') and hasattr(x, 'perpendicular') else parts(x)


for _prop in TAKE:
    def _mk(prop):
        @case(prop, name='taken_in', params=list(TAKE[prop]))
        def taken_in(t, which):
            ox, oy = t.xy('o', -100, 100)
            args, build = TAKE[prop][which](t, lambda x, y: t.V(ox + x, oy + y))
            before = [shape(a) for a in args]
            one, two = build(), build()
            t.check('arguments untouched', t.And(*[same(t, x, y) for a, b in zip(before, map(shape, args)) for x, y in zip(a, b)]))
            made = shape(one)
            t.check('made alike', t.And(*[same(t, x, y) for x, y in zip(made, shape(two))]))
            spoil(two)
            t.check('arguments and other objects untouched by a change of the object', t.And(*[same(t, x, y) for a, b in zip(before + [made], list(map(shape, args)) + [shape(one)]) for x, y in zip(a, b)]))
            for a in args:
                spoil(a)
            t.check('the object is untouched by a change of its arguments', t.And(*[same(t, x, y) for x, y in zip(made, shape(one))]))
    _mk(_prop)
