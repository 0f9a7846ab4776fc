"""C01-C04: AngleDeg"""
from sx.ctx import case


def norm_ok(t, got, want):
    """the angle got is the normal form of want, in both readings"""
    g = got.degree()
    return t.And(-180 < g, g <= 180, t.is_multiple(want - g, 360), t.exact(got.degree_(), g), got == t.L.AngleDeg(g))


def turn(t, a, b):
    """clockwise offset from a to b in [0, 360), both already in (-180, 180]"""
    d = b - a
    if t.split(d < 0):
        return d + 360
    return d


def nd(t, name):
    """a degree value in normal form"""
    d = t.real(name, -180, 180)
    t.assume(-180 < d)
    return d


# ------------------------------------------------------------------ C01 normal form

@case('C01')
def construct(t):
    d = t.real('d')
    how = t.choice('how', ['ctor', 'set', 'af', 'copyctor', 'copy', 'set_angle', 'normal', 'normalize_angle', 'int'])
    A = t.L.AngleDeg
    if how == 'ctor':
        r = A(d).degree_()
    elif how == 'set':
        a = A(13.0)
        a.set_degree(d)
        r = a.degree_()
    elif how == 'af':
        r = A(af=d).degree_()
    elif how == 'copyctor':
        r = A(A(d)).degree_()
    elif how == 'copy':
        r = A(d).copy().degree_()
    elif how == 'set_angle':
        a = A(-77)
        a.set_angle(A(d))
        r = a.degree_()
    elif how == 'normal':
        a = A(d)
        a.normal()
        r = a.degree_()
    elif how == 'normalize_angle':
        r = A.normalize_angle(d)
    else:
        n = t.int('n')
        r = A(n).degree_()
        d = n
    t.check('in (-180, 180]', t.And(-180 < r, r <= 180))
    t.check('same heading', t.is_multiple(d - r, 360))




@case('C01')
def default(t):
    t.check('zero', t.exact(t.L.AngleDeg().degree(), 0))


@case('C01')
def unique(t):
    """equal headings have one spelling"""
    d = t.real('d', -1000, 1000)
    k = t.int('k', -3, 3)
    a, b = t.A(d), t.A(d + 360 * k)
    t.check('one spelling', t.eq(a.degree(), b.degree()))
    t.check('readers agree', t.And(t.exact(a.degree(), a.degree_())))


@case('C01')
def readers(t):
    d = nd(t, 'd')
    a = t.A(d)
    t.check('degree', t.exact(a.degree(), d))
    t.check('degree_', t.exact(a.degree_(), d))
    t.check('abs', t.eq(a.abs(), t.abs(d)))
    t.check('radian', t.eq(a.radian() * 180, d * t.L.mv.PI))
    t.check('get_normalized', t.eq(a.get_normalized(), (d + 180) / 360))
    if t.symbolic:
        t.check('float', t.exact(a.__float__(), d))
    else:
        t.check('float', t.exact(float(a), d))
    t.check('unchanged', t.exact(a.degree(), d))


def _binop(t, op, a, b):
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    raise KeyError(op)


@case('C01', params=['add', 'sub', 'iadd', 'isub'])
def addsub(t, op):
    d = nd(t, 'd')
    kind = t.choice('other', ['angle', 'number', 'int'])
    a = t.A(d)
    if kind == 'angle':
        e = nd(t, 'e')
        o = t.A(e)
    elif kind == 'number':
        e = t.real('e')
        o = e
    else:
        e = t.int('n')
        o = e
    inplace = op[0] == 'i'
    if op == 'add':
        r = a + o
    elif op == 'sub':
        r = a - o
    else:
        r = a
        if op == 'iadd':
            r += o
        else:
            r -= o
    want = d + e if op.endswith('add') else d - e
    t.check('normal form of the result', norm_ok(t, r, want))
    if inplace:
        t.check('in place', r is a)
    else:
        t.check('left operand unchanged', t.And(r is not a, t.exact(a.degree(), d)))
    if kind == 'angle':
        t.check('right operand unchanged', t.And(r is not o, t.exact(o.degree(), e)))


@case('C01', params=['mul', 'imul', 'div', 'idiv', 'floordiv', 'neg'])
def scale(t, op):
    d = nd(t, 'd')
    a = t.A(d)
    if op == 'neg':
        r = -a
        t.check('negation', norm_ok(t, r, -d))
        t.check('operand unchanged', t.exact(a.degree(), d))
        return
    k = t.choice('k', [2, 0.5, -3.0, 0.1, 'sym']) if op != 'floordiv' else t.choice('k', [2, 7.0, -3.0])
    if k == 'sym':
        k = t.real('k', -100, 100)
        if 'div' in op:
            t.assume(t.abs(k) >= 0.01)
    r = a
    if op == 'mul':
        r, want = a * k, d * k
    elif op == 'imul':
        r *= k
        want = d * k
    elif op == 'div':
        r, want = a / k, d / k
    elif op == 'idiv':
        r /= k
        want = d / k
    else:
        r, want = a // k, t.floor(d / k)
    t.check('normal form of the result', norm_ok(t, r, want))
    if op[0] == 'i':
        t.check('in place', t.exact(a.degree(), r.degree()))
    else:
        t.check('operand unchanged', t.exact(a.degree(), d))


@case('C01')
def reversal(t):
    d = nd(t, 'd')
    a = t.A(d)
    b = a.reverse_angle()
    t.check('reverse_angle is the opposite heading', norm_ok(t, b, d + 180))
    t.check('reverse_angle leaves its receiver', t.exact(a.degree(), d))
    a.reverse()
    t.check('reverse is the opposite heading', norm_ok(t, a, d + 180))
    a.reverse()
    t.check('twice is the identity', t.eq(a.degree(), d))


@case('C01')
def history(t):
    """normal form after a sequence of updates"""
    d = nd(t, 'd')
    e = nd(t, 'e')
    a = t.A(d)
    want = d
    for i in range(2):
        op = t.choice(f'op{i}', ['+=', '-=', 'reverse', '*='])
        if op == '+=':
            a += e
            want = want + e
        elif op == '-=':
            a -= t.A(e)
            want = want - e
        elif op == '*=':
            a *= 2
            want = want * 2
        else:
            a.reverse()
            want = want + 180
    t.check('normal form', norm_ok(t, a, want))


@case('C01')
def independent(t):
    d, e = nd(t, 'd'), nd(t, 'e')
    a = t.A(d)
    b = t.choice('how', [lambda: t.A(a), lambda: a.copy(), lambda: _set(t, a)])()
    b += e
    t.check('copy does not write through', t.exact(a.degree(), d))
    c = a.copy()
    a.set_degree(e)
    t.check('copy keeps its value', t.exact(c.degree(), d))


def _set(t, a):
    b = t.L.AngleDeg(1)
    b.set_angle(a)
    return b


# ------------------------------------------------------------------ C02 order

def _two(t):
    """two angles; the second given as AngleDeg or as a plain number possibly outside the normal range"""
    d = nd(t, 'd')
    e = nd(t, 'e')
    kind = t.choice('other', ['angle', 'number', 'wrapped'])
    if kind == 'angle':
        o = t.A(e)
    elif kind == 'number':
        o = e
    else:
        o = e + 360 * t.choice('turns', [-1, 1, 2])
    return d, e, t.A(d), o


@case('C02')
def left_right(t):
    d, e, a, o = _two(t)
    w = turn(t, d, e)              # e lies w degrees clockwise (positive) from d
    left = t.And(0 < w, w < 180)
    right = 180 < w
    t.check('is_left_of', t.Iff(a.is_left_of(o), left))
    t.check('is_right_of', t.Iff(a.is_right_of(o), right))
    t.check('is_left_equal_of', t.Iff(a.is_left_equal_of(o), t.Or(left, t.exact(w, 0))))
    t.check('is_right_equal_of', t.Iff(a.is_right_equal_of(o), t.Or(right, t.exact(w, 0))))
    t.check('unchanged', t.exact(a.degree(), d))


@case('C02')
def order_laws(t):
    d, e = nd(t, 'd'), nd(t, 'e')
    a, b = t.A(d), t.A(e)
    t.check('antisymmetric', t.Not(t.And(a.is_left_of(b), b.is_left_of(a))))
    t.check('mirror', t.Iff(a.is_left_of(b), b.is_right_of(a)))
    t.check('total except opposites', t.Or(a.is_left_of(b), a.is_right_of(b), t.exact(d, e),
                                           t.exact(d - e, 180), t.exact(e - d, 180)))


@case('C02', params=['angle', 'number', 'wrapped'])
def within(t, kind):
    d, l, r = nd(t, 'd'), nd(t, 'l'), nd(t, 'r')
    a = t.A(d)
    if kind == 'angle':
        L, R = t.A(l), t.A(r)
    elif kind == 'number':
        L, R = l, r
    else:
        L, R = l + 360, r - 360
    arc, off = turn(t, l, r), turn(t, l, d)
    t.check('on the arc from left to right', t.Iff(a.is_within(L, R), off <= arc))
    t.check('unchanged', t.And(t.exact(a.degree(), d), *( [t.exact(L.degree(), l), t.exact(R.degree(), r)] if kind == 'angle' else [])))


@case('C02')
def equality(t):
    d, e = nd(t, 'd'), nd(t, 'e')
    a = t.A(d)
    o = t.choice('other', [lambda: t.A(e), lambda: e])()
    t.check('== iff degrees agree to 1e-6', t.Iff(a == o, t.abs(d - e) < 1e-6))
    t.check('!= is the negation', t.Iff(a != o, t.Not(a == o)))
    t.check('reflexive', t.And(a == t.A(d), a == a))
    if not isinstance(o, t.L.AngleDeg):
        return
    t.check('symmetric', t.Iff(a == o, o == a))


# ------------------------------------------------------------------ C03 bisect

@case('C03', params=['angle', 'number', 'wrapped'])
def bisect(t, kind):
    l, r = nd(t, 'l'), nd(t, 'r')
    if kind == 'angle':
        L, R = t.A(l), t.A(r)
    elif kind == 'number':
        L, R = l, r
    else:
        L, R = l + 360, r - 720
    m = t.L.AngleDeg.bisect(L, R)
    t.assume(t.Not(t.exact(l, r)))
    g = m.degree()
    t.check('normal form', t.And(-180 < g, g <= 180))
    # the arc runs from `right` in increasing direction to `left`
    arc = turn(t, r, l)
    off = turn(t, r, g)
    t.check('halves the arc', t.eq(2 * off, arc))
    t.check('on the arc', t.And(off <= arc))
    if kind == 'angle':
        t.check('arguments unchanged', t.And(t.exact(L.degree(), l), t.exact(R.degree(), r), m is not L, m is not R))


@case('C03')
def bisect_swap(t):
    """swapping the arguments gives the opposite bisector"""
    l, r = nd(t, 'l'), nd(t, 'r')
    t.assume(t.Not(t.exact(l, r)))
    a, b = t.L.AngleDeg.bisect(l, r), t.L.AngleDeg.bisect(r, l)
    t.check('opposite', t.is_multiple(a.degree() - b.degree() - 180, 360))


# ------------------------------------------------------------------ C04 trigonometry in degrees

@case('C04')
def conversions(t):
    d = t.real('d')
    A = t.L.AngleDeg
    pi = t.L.mv.PI
    t.check('deg2rad', t.eq(A.deg2rad(d) * 180, d * pi))
    t.check('rad2deg', t.eq(A.rad2deg(d) * pi, d * 180))
    t.check('inverse', t.And(t.eq(A.rad2deg(A.deg2rad(d)), d), t.eq(A.deg2rad(A.rad2deg(d)), d)))


@case('C04')
def sincos(t):
    d = t.real('d', -1000, 1000)
    A = t.L.AngleDeg
    t.check('cos_deg', t.eq(A.cos_deg(d), t.cos(d)))
    t.check('sin_deg', t.eq(A.sin_deg(d), t.sin(d)))
    a = A(d)
    t.check('cos', t.eq(a.cos(), t.cos(d)))
    t.check('sin', t.eq(a.sin(), t.sin(d)))
    t.check('unit', t.eq(a.cos() * a.cos() + a.sin() * a.sin(), 1))


@case('C04')
def tangent(t):
    d = t.real('d', -89.9, 89.9)
    A = t.L.AngleDeg
    k = t.choice('k', [0, 180, -180, 360])
    t.check('tan_deg', t.eq(A.tan_deg(d + k) * t.cos(d), t.sin(d)))
    t.check('tan', t.eq(A(d + k).tan() * t.cos(d), t.sin(d)))


@case('C04')
def quadrants(t):
    d = nd(t, 'd')
    a = t.A(d)
    c, s = a.cos(), a.sin()
    t.check('sign of sin', t.And(t.Implies(t.And(0 < d, d < 180), s > 0), t.Implies(d < 0, s < 0)))
    t.check('sign of cos', t.And(t.Implies(t.And(-90 < d, d < 90), c > 0),
                                 t.Implies(t.Or(d < -90, d > 90), c < 0)))


@case('C04')
def inverse_cos(t):
    x = t.real('x')
    r = t.L.AngleDeg.acos_deg(x)
    t.check('range', t.And(t.le(0, r), t.le(r, 180)))
    t.check('clamped above', t.Implies(x >= 1, t.eq(r, 0)))
    t.check('clamped below', t.Implies(x <= -1, t.eq(r, 180)))
    t.assume(t.And(-1 < x, x < 1))
    t.check('inverse', t.eq(t.cos(r), x))


@case('C04')
def inverse_sin(t):
    x = t.real('x')
    r = t.L.AngleDeg.asin_deg(x)
    t.check('range', t.And(t.le(-90, r), t.le(r, 90)))
    t.check('clamped above', t.Implies(x >= 1, t.eq(r, 90)))
    t.check('clamped below', t.Implies(x <= -1, t.eq(r, -90)))
    t.assume(t.And(-1 < x, x < 1))
    t.check('inverse', t.eq(t.sin(r), x))


@case('C04')
def inverse_tan(t):
    x = t.real('x', -1000, 1000)
    r = t.L.AngleDeg.atan_deg(x)
    t.check('range', t.And(t.lt(-90, r), t.lt(r, 90)))
    t.check('inverse', t.eq(t.sin(r), x * t.cos(r)))


@case('C04')
def inverse_tan2(t):
    x, y = t.real('x'), t.real('y')
    r = t.L.AngleDeg.atan2_deg(y, x)
    t.check('range', t.And(t.le(-180, r), t.le(r, 180)))
    tiny = t.And(t.abs(x) < 1e-6, t.abs(y) < 1e-6)
    t.check('tiny vectors have direction 0', t.Implies(tiny, t.exact(r, 0)))
    t.assume(t.Not(tiny))
    m = t.sqrt(x * x + y * y)
    t.check('direction', t.And(t.eq(m * t.cos(r), x), t.eq(m * t.sin(r), y)))
