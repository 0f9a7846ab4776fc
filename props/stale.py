"""Answers never depend on what was asked before: one scenario for every property.

An object is asked, changed, asked, its argument objects are moved in place, asked, changed again (one argument symbolic) and asked once
more; the last answers must be those of a second copy of the library in which nothing was ever asked before."""
from sx.ctx import case
from .history import wide, EMPTY, KINDS, Kind, flat, same, V, CTX, rs, rect_ask, TRI


class View:
    """the test context with another copy of the library"""
    def __init__(self, t, L):
        self.t, self.L, self.symbolic = t, L, t.symbolic
        self.cos, self.sin = t.cos, t.sin


NUM = [(3, 1, 2, 8, 1, 6, 4, 5), (5, 2, 1, 9, 3, 8, 2, 7)]


class Args:
    """argument objects; move() changes them in place"""
    def __init__(self, v, k, u=0):
        L, n = v.L, NUM[k]
        self.v = v
        self.p, self.q, self.w = V(v, n[0] + u, n[1]), V(v, n[2], n[3]), V(v, n[6], n[5] + 3)
        self.seg = L.Segment2D(V(v, n[0] - 4, n[2]), V(v, n[5], n[6]))
        self.ray = L.Ray2D(V(v, -n[1], n[4]), L.AngleDeg(0))
        self.circ = L.Circle2D(V(v, n[4], n[2]), n[7])
        self.rect = L.Rect2D(V(v, n[1], n[4]), n[3], n[5])
        self.line = L.Line2D(n[1], n[0], -n[5])
        self.ang, self.ang2 = L.AngleDeg(10 * n[5] + u), L.AngleDeg(-20 * n[6])
        self.n = n
        self.u = u

    def move(self, k, u):
        n = NUM[k]
        self.p.assign(n[0] + u, n[1])
        self.q.assign(n[2], n[3])
        self.w.assign(n[6], n[5] + 3)
        self.seg.origin_().assign(n[0] - 4, n[2])
        self.seg.terminal_().assign(n[5], n[6])
        self.ray.origin_().assign(-n[1], n[4])
        self.circ.assign(V(self.v, n[4], n[2]), n[7])
        self.rect.top_left_().assign(n[1], n[4])
        self.rect.size_().assign(n[3], n[5])
        self.line = self.v.L.Line2D(n[1], n[0], -n[5])
        self.ang.set_degree(10 * n[5] + u)
        self.ang2.set_degree(-20 * n[6])
        self.n = n
        self.u = u


def pick(K, names):
    return Kind(K.name, K.start, K.fresh, K.ask, {m: K.change[m] for m in K.change if not m.endswith('!') and (names is None or m in names)}, K.full)


def pts(s):
    return [s[i:i + 2] for i in range(0, len(s), 2)]


POLY = Kind('polygon', (0, 0, 9, 0, 9, 7, 0, 7), lambda t, s: t.L.Polygon2D([V(t, *p) for p in pts(s)]), None, {
    'assign': (1, lambda t, o, a: o.assign([V(t, *p) for p in ((1, 1), (a[0] + 5, 2), (12, 11), (2, 9))]), lambda s, a: (1, 1, a[0] + 5, 2, 12, 11, 2, 9)),
    'assign3': (1, lambda t, o, a: o.assign([V(t, *p) for p in ((0, 0), (a[0] + 5, 1), (3, 12))]), lambda s, a: (0, 0, a[0] + 5, 1, 3, 12)),
    'add': (1, lambda t, o, a: o.add_vertex(V(t, -a[0], 4)), lambda s, a: s + (-a[0], 4)),
    'first': (1, lambda t, o, a: o.vertices_()[0].assign(-a[0], -1), lambda s, a: (-a[0], -1) + s[2:]),
    'last': (1, lambda t, o, a: o.vertices_()[-1].set_y(a[0] + 13), lambda s, a: s[:-1] + (a[0] + 13,)),
    'clear': (0, lambda t, o, a: (o.clear(), o.assign([V(t, -5, -5), V(t, 20, -5), V(t, 20, 20), V(t, -5, 20)])), lambda s, a: (-5, -5, 20, -5, 20, 20, -5, 20)),
    'pop': (0, lambda t, o, a: o.vertices_().pop(), lambda s, a: s[:-2]),
})


def hull_ask(t, o, Q):
    out = []
    M = t.L.MethodType
    for m in (M.WRAPPING_METHOD, M.GRAHAN_SCAN):
        o.compute(m)
        # rotated to start at the same vertex: the Graham scan may start elsewhere
        out += [o.vertices(), [[e.origin(), e.terminal()] for e in o.edges()], o.to_polygon().vertices(), o.to_polygon().area()]
    return out


HULL = Kind('hull', (0, 0, 9, 1, 8, 7, 3, 3, 1, 8), lambda t, s: t.L.ConvexHull([V(t, *p) for p in pts(s)]), None, {
    'add': (1, lambda t, o, a: o.add_point(V(t, 14, a[0] + 0.3)), lambda s, a: s + (14, a[0] + 0.3)),
    'add2': (1, lambda t, o, a: o.add_points([V(t, -3, a[0] + 0.3), V(t, 15, 16)]), lambda s, a: s + (-3, a[0] + 0.3, 15, 16)),
    'again': (1, lambda t, o, a: (o.clear(), o.add_points([V(t, *p) for p in ((1, 1), (a[0] + 9.5, 2), (12, 11), (5, 5), (2, 9))])), lambda s, a: (1, 1, a[0] + 9.5, 2, 12, 11, 5, 5, 2, 9)),
})


def tri3(t, Q):
    return t.L.Triangle2D


def ang_nums(Q):
    return Q.n[0] * 7 + Q.u, Q.n[5] * 0.1 + Q.u * 0.1


# property -> (kind, changes (None: all), ask(t, o, Q))
TOPICS = {
    'C01': ('angle', None, lambda t, o, Q: [o.degree(), o.degree_(), o.radian(), o.abs(), o.get_normalized(), o.copy(), o.reverse_angle(), -o, o + Q.ang, o - Q.ang2, o * 2, o / 4, o.degree() + 0,
                                            t.L.AngleDeg(Q.ang), t.L.AngleDeg.normalize_angle(Q.n[3] * 100), o == Q.ang]),
    'C02': ('angle', None, lambda t, o, Q: [o.is_left_of(Q.ang), o.is_right_of(Q.ang), o.is_left_equal_of(Q.ang2), o.is_right_equal_of(Q.ang2), o.is_within(Q.ang2, Q.ang), o.is_within(Q.ang, Q.ang2),
                                            o.is_left_of(Q.n[0]), o.is_within(Q.n[2], Q.n[3] * 9), o == Q.ang, o != Q.ang2]),
    'C03': ('angle', None, lambda t, o, Q: [t.L.AngleDeg.bisect(o, Q.ang2), t.L.AngleDeg.bisect(Q.ang2, o), t.L.AngleDeg.bisect(Q.ang2, Q.n[0])]),
    'C04': ('angle', None, lambda t, o, Q: [o.cos(), o.sin(), t.L.AngleDeg.cos_deg(ang_nums(Q)[0]), t.L.AngleDeg.sin_deg(ang_nums(Q)[0]), t.L.AngleDeg.tan_deg(Q.n[0] * 7),
                                            t.L.AngleDeg.acos_deg(Q.n[4] * 0.1), t.L.AngleDeg.asin_deg(Q.n[4] * 0.1), t.L.AngleDeg.atan_deg(Q.n[4]), t.L.AngleDeg.atan2_deg(Q.n[4], Q.n[5]),
                                            t.L.AngleDeg.rad2deg(Q.n[0] + Q.u), t.L.AngleDeg.deg2rad(Q.n[0] + Q.u)]),
    'C05': ('vector', None, lambda t, o, Q: [o + Q.p, o - Q.p, Q.p - o, o * 3, o / 3, o.abs(), o.abs_x(), o.abs_y(), o.inner_product(Q.p), o.outer_product(Q.p), o.reverse_vector(),
                                             t.L.Vector2D.inner_product_static(o, Q.q), t.L.Vector2D.outer_product_static(Q.q, o), Q.p + Q.q]),
    'C06': ('vector', ['assign', 'set_x', 'add_y', 'scale', 'reverse', 'iadd', 'set_vector'],
            lambda t, o, Q: [o.r(), o.r2(), o.length(), o.length2(), o.dist(Q.q), o.dist2(Q.p), Q.p.dist2(o), o.th().cos(), o.dir().sin(), o.normalize_vector(), o.set_length_vector(7),
                             o.rotated_vector(Q.n[0] * 10), t.L.Vector2D.from_polar(Q.n[0], Q.ang2), t.L.Vector2D.polar2vector(2, Q.n[3])]),
    'C07': ('vector', None, lambda t, o, Q: [o.x(), o.y(), o.get_x(), o.get_y(), o.is_valid(), o.copy(), o.get_copy(), o == Q.p, o.equals(Q.q), o.equals_weakly(Q.p), t.L.Vector2D(o), Q.p.copy(),
                                             t.L.Vector2D.invalid().is_valid()]),
    'C08': ('line', None, lambda t, o, Q: [t.L.Line2D(Q.p, Q.q), t.L.Line2D(Q.p, Q.ang2), t.L.Line2D(Q.p, 30), t.L.Line2D(*Q.n[:3]), o.get_x(Q.n[0] + Q.u), o.get_y(Q.n[3] + Q.u), t.L.Line2D(o),
                                           Q.line.get_x(Q.n[3])]),
    'C09': ('line', None, lambda t, o, Q: [o.dist(Q.p), o.dist2(Q.p), o.projection(Q.p), o.perpendicular(Q.q), Q.line.dist2(Q.q), t.L.Line2D.perpendicular_bisector(Q.p, Q.q),
                                           t.L.Line2D.angle_bisector(Q.p, Q.ang2, t.L.AngleDeg(15))]),
    'C10': ('line', None, lambda t, o, Q: [o.intersection(Q.line), Q.line.intersection(o), o.is_parallel(Q.line), o == Q.line, t.L.Line2D(Q.p, Q.q).intersection(o),
                                           t.L.Line2D.line_intersection(t.L.Line2D(Q.p, Q.w), Q.line)]),
    'C11': ('ray', None, lambda t, o, Q: [o.origin(), o.dir(), o.line(), o.in_right_dir(V(t, Q.n[3] * 9, Q.n[4])), o.in_right_dir(Q.w, 90), o.intersection(t.L.Line2D(1, 0, -Q.n[3] * 9)),
                                          o.intersection(t.L.Ray2D(V(t, Q.n[3] * 3, -50), t.L.AngleDeg(90))), o == Q.ray, Q.ray.in_right_dir(Q.p), o.copy().dir()]),
    'C12': ('segment', None, lambda t, o, Q: [o.origin(), o.terminal(), o.length(), o.line(), o.is_valid(), o.copy().origin(), o.reversed_segment().origin(), o.perpendicular_bisector(),
                                              o.direction().cos(), o.direction().sin(), o == Q.seg, o.equals_weakly(Q.seg), Q.seg.length(), t.L.Segment2D(Q.p, Q.q).line()]),
    'C13': ('segment', None, lambda t, o, Q: [o.nearest_point(Q.q), o.dist(Q.q), o.farthest_dist(Q.q), Q.seg.dist(Q.p), Q.seg.nearest_point(Q.w), t.L.Segment2D(0, 50, 50, 51).dist(o)]),
    'C14': ('segment', None, lambda t, o, Q: [o.exist_intersection(Q.seg), Q.seg.exist_intersection(o), o.exist_intersection_except_endpoint(Q.seg), o.intersects_except_endpoint(Q.seg),
                                              o.exist_intersection(Q.line), Q.seg.exist_intersection(Q.line)]),
    'C15': ('segment', None, lambda t, o, Q: [o.intersection(Q.seg, True), o.intersection(Q.line), o.contains(Q.q), o.on_segment(Q.q), o.on_segment_weakly(Q.q), o.projection(Q.q), Q.seg.intersection(Q.line)]),
    'C16': ('triangle', None, lambda t, o, Q: [o.a(), o.b(), o.c(), o.area(), o.signed_area(), o.double_signed_area(), o.ccw(), o.is_valid(), o.contains(Q.p), o.contains(Q.w),
                                               t.L.Triangle2D.tri_contains(Q.p, Q.q, Q.w, V(t, 2, 3)), t.L.Triangle2D.double_signed_area_st(Q.p, Q.q, Q.w), t.L.Triangle2D.tri_ccw(Q.p, Q.q, Q.w)]),
    'C17': ('triangle', None, lambda t, o, Q: [o.centroid(), o.circumcenter(), o.orthocenter(), t.L.Triangle2D.tri_centroid(Q.p, Q.q, Q.w), t.L.Triangle2D.tri_circumcenter(Q.p, Q.q, Q.w),
                                               t.L.Triangle2D.tri_orthocenter(Q.p, Q.q, Q.w), t.L.Triangle2D.tri_incenter(V(t, *Q.n[:2]), Q.q, Q.w)]),
    'C18': ('triangle', ['a', 'b', 'c', 'assign3'], lambda t, o, Q: [o.intersection(Q.line), o.intersection(Q.seg), o.intersection(t.L.Line2D(0, 1, -4.5)),
                                                     t.L.Triangle2D(V(t, 0, 0), V(t, 9, 1), V(t, 2, 9)).intersection(Q.ray)]),
    'C19': ('circle', None, lambda t, o, Q: [o.center(), o.radius(), o.area(), o.contains(Q.p), o.contains(Q.w), o.intersection(t.L.Line2D(0, 1, -60)), Q.circ.intersection(Q.line), Q.circ.contains(Q.p)]),
    'C20': ('circle', None, lambda t, o, Q: [t.L.Circle2D(V(t, 0, 0), 5).intersection(Q.seg), Q.circ.intersection(Q.seg), Q.circ.intersection(t.L.Circle2D(V(t, 3, 6), 4)), Q.circ.intersection(Q.ray),
                                             o.intersection(t.L.Circle2D(V(t, 60, 50), 2)), o.intersection(t.L.Segment2D(90, 90, 95, 96))]),
    'C21': ('circle', ['centre'], lambda t, o, Q: [t.L.Circle2D.circum_circle(Q.p, Q.q, Q.w).center(), t.L.Circle2D.circum_circle_contains(V(t, 4, 6), Q.p, Q.q, Q.w),
                                                   t.L.Circle2D.circum_circle_contains(Q.p, V(t, 0, 0), V(t, 9, 0), V(t, 0, 9))]),
    'C22': ('rect', None, lambda t, o, Q: rect_ask(t, o) + rect_ask(t, Q.rect) + rect_ask(t, t.L.Rect2D(o))),
    'C23': ('rect', None, lambda t, o, Q: [o.contains(Q.p), o.contains_almost(Q.w, 0.5), rect_ask(t, t.L.Rect2D.from_center(Q.n[0], 1, 2, 3))[:8]]
            + [x for r in (o.intersected(t.L.Rect2D(V(t, -90, -90), 200, 200)), o.united(t.L.Rect2D(V(t, -99, -99), 3, 4)), Q.rect.united(Q.rect)) for x in (r.top_left(), r.size())]),
    'C24': ('rect', None, lambda t, o, Q: [t.L.Rect2D(V(t, -2, -2), Q.n[3], 9).intersection(Q.line), Q.rect.intersection(Q.line), Q.rect.intersection(Q.seg), Q.rect.intersection(Q.ray),
                                           o.intersection(t.L.Line2D(0, 1, -Q.n[0] + 0.5)), o.intersection(t.L.Segment2D(-99, 2.5, 99, 2.5))]),
    'C25': ('sector', None, lambda t, o, Q: [o.center(), o.radius_min(), o.radius_max(), o.angle_left_start(), o.angle_right_end(), o.area(), o.get_circumference_min(), o.get_circumference_max(),
                                             t.L.Sector2D(V(t, 0, 0), 1, Q.n[3], -20, 80).contains(V(t, Q.n[0], Q.n[1])), o == t.L.Sector2D(V(t, 1, 2), 3, 10, 20, 70)]),
    'C26': (POLY, None, lambda t, o, Q: [o.contains(V(t, 4, 5)), o.contains(V(t, Q.n[3], Q.n[1])), o.contains(V(t, 1, 1), False), o.contains(Q.w), o.contains(Q.q, False), t.L.Polygon2D([Q.p, Q.q, Q.w]).contains(V(t, 4, 7))]),
    'C27': (POLY, None, lambda t, o, Q: [o.area(), o.double_signed_area(), o.is_clockwise(), o.is_counter_clockwise(), rect_ask(t, o.get_bounding_box()), o.bounding_box_center(), o.vertices(), o.dist(V(t, *Q.n[2:4]), False),
                                         o.dist(V(t, 30, 1))]),
    'C28': (POLY, ['assign', 'first', 'last', 'clear', 'assign3'], lambda t, o, Q: [o.get_rectangle_clipped_polygon(t.L.Rect2D(V(t, 2, 3), 4, 40)).vertices(), o.get_rectangle_clipped_polygon(t.L.Rect2D(V(t, 1, Q.n[2]), 2, 50)).vertices(),
                                                      t.L.Polygon2D([V(t, 0, 0), V(t, 9, 1), V(t, 4, 12)]).get_rectangle_clipped_polygon(t.L.Rect2D(Q.rect.top_left(), 5, 60)).area()]),
    'C29': ('matrix', None, lambda t, o, Q: [o.det(), o.invertible(), o.transform(Q.p), o.transform(*Q.n[:2]), o * Q.q, o == t.L.Matrix2D(*Q.n[:6]), (o * t.L.Matrix2D(*Q.n[:6])).transform(1, 2),
                                             (t.L.Matrix2D(*Q.n[:6]) * o).transform(2, 3), o.inverted().transform(3, 4), o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf(),
                                             t.L.Matrix2D.make_rotation(Q.ang2).transform(1, 2), t.L.Matrix2D.make_scaling(*Q.n[:2]).transform(Q.p), t.L.Matrix2D.make_translation(*Q.n[:2]).transform(Q.p),
                                             o.transform_vec(V(t, *Q.n[:2]))]),
    'C30': (HULL, None, hull_ask),
    'C31': ('vector', ['assign', 'set_x', 'iadd'], lambda t, o, Q: [t.L.sm.inertia_n_step_travel(o, Q.n[0], 0.9), t.L.sm.inertia_n_step_travel(o, 2, 0.1 * Q.n[0]), t.L.sm.inertia_n_step_point(Q.p, o, Q.n[2], 0.8),
                                              t.L.sm.inertia_final_travel(o, 0.1 * Q.n[0]), t.L.sm.inertia_final_point(Q.p, o, 0.5), t.L.sm.inertia_n_step_distance(Q.n[0] + Q.u, 3, 0.4),
                                              t.L.sm.inertia_final_distance(Q.n[0] + Q.u, 0.1 * Q.n[0]), t.L.sm.calc_first_term_geom_series(Q.n[3] + Q.u, 0.5, Q.n[0]),
                                              t.L.sm.calc_length_geom_series(1.5, 0.1 * Q.n[0], 0.9)]),
    'C32': ('vector', ['set_x'], lambda t, o, Q: [t.L.sm.r_int(Q.n[0] + 0.3 + Q.u * 0.1), t.L.sm.quantize(Q.n[0] + Q.u * 0.1 + 0.31, 0.5), t.L.sm.bound(1, Q.n[0] + Q.u, 4), t.L.sm.min_max(1, Q.n[0] + Q.u, 4),
                                                  t.L.sm.quantize_dist(Q.n[0] * 3.3, 0.1), t.L.sm.unquantize_min(Q.n[0] * 3.3, 0.1), t.L.sm.unquantize_max(Q.n[0] * 3.3, 0.1),
                                                  t.L.sm.unquantize_error(Q.n[0] * 3.3, 0.1), list(t.L.sm.f_range(Q.n[2], Q.n[3], 2)), list(t.L.sm.f_range(Q.n[0] + Q.u))]),
    'C33': ('vector', ['set_x', 'assign'], lambda t, o, Q: [t.L.sm.kick_rate(0.5 + Q.u, 10 * Q.n[0], 0.027, 0.085, 0.3, 0.7), t.L.sm.dir_rate(30 * Q.n[0], 0.6, 0.4), t.L.sm.effective_turn(Q.n[0] + Q.u, 1, 5),
                                                  t.L.sm.final_speed(Q.n[0] * 10, 0.006, 1, 0.4), t.L.sm.can_over_speed_max(Q.n[0] * 20, 0.006, 1, 0.4, 1),
                                                  t.L.sm.wind_effect(1, 2, Q.n[0], 0, 4, 0.5, o), o.x(), o.y()]),
}


def topic(p):
    k, names, ask = TOPICS[p]
    return pick(KINDS[k] if isinstance(k, str) else k, names), ask


def scenario(t, p, last):
    K, ask = topic(p)
    A, B = View(t, t.L), View(t, t.fresh())
    CTX[0] = t
    o, s = K.fresh(A, K.start), K.start
    Q = Args(A, 0)
    ask(A, o, Q)
    names = list(K.change)
    first = names[(names.index(last) + 1) % len(names)]
    n, do, st = K.change[first]
    a = [2, 3, 5, 7, 11, 13][:n]
    do(A, o, a)
    s = st(s, a)
    ask(A, o, Q)
    u = t.real('u', 0, 0.25)
    Q.move(1, 0)
    ask(A, o, Q)
    Q.move(1, u)
    ask(A, o, Q)
    n, do, st = K.change[last]
    free = t.choice('free', [0, n - 1]) if n > 1 else 0
    a = [t.real('a', *wide(K.name)) if i == free else 2 + 3 * i for i in range(n)]
    do(A, o, a)
    s = st(s, a)
    got = flat(ask(A, o, Q))
    want = flat(ask(B, K.fresh(B, s), Args(B, 1, u)))
    t.check('as if never asked before', same(t, got, want))


for _p in TOPICS:
    case(_p, name='asked_before', params=list(topic(_p)[0].change))(lambda t, last, _p=_p: scenario(t, _p, last))


def from_empty(t, p, last):
    """the object was empty or invalid when first asked"""
    K, ask = topic(p)
    A, B = View(t, t.L), View(t, t.fresh())
    CTX[0] = t
    s = t.choice('start', EMPTY[K.name])
    o = K.fresh(A, s)
    Q = Args(A, 1)
    try:
        ask(A, o, Q)
    except (ZeroDivisionError, AttributeError):
        pass    # not every answer exists for an empty object
    n, do, st = K.change[last]
    free = t.choice('free', [0, n - 1]) if n > 1 else 0
    a = [t.real('a', *wide(K.name)) if i == free else 2 + 3 * i for i in range(n)]
    do(A, o, a)
    s = st(s, a)
    try:
        want = flat(ask(B, K.fresh(B, s), Args(B, 1)))
    except ZeroDivisionError:
        return
    t.check('as if never empty', same(t, flat(ask(A, o, Q)), want))


for _p in TOPICS:
    if topic(_p)[0].name in EMPTY and _p not in ('C01', 'C02', 'C03', 'C04', 'C31', 'C32', 'C33'):
        case(_p, name='empty_before', params=list(topic(_p)[0].change))(lambda t, last, _p=_p: from_empty(t, _p, last))
