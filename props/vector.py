"""C05-C07: Vector2D"""
from sx.ctx import case


def num(t, name, lo=None, hi=None):
    """a real or an int input"""
    return t.choice(name + '_kind', [t.real, t.int])(name, lo, hi)


# ------------------------------------------------------------------ C05 algebra

@case('C05', params=['add', 'sub', 'iadd', 'isub', 'add()', 'sub()', 'add(xy)', 'sub(xy)'])
def addsub(t, op):
    kind = t.choice('kind', ['real', 'int'])
    f = t.real if kind == 'real' else t.int
    ax, ay, bx, by = f('ax'), f('ay'), f('bx'), f('by')
    a, b = t.V(ax, ay), t.V(bx, by)
    r = a
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'iadd':
        r += b
    elif op == 'isub':
        r -= b
    elif op == 'add()':
        a.add(b)
    elif op == 'sub()':
        a.sub(b)
    elif op == 'add(xy)':
        a.add(bx, by)
    else:
        a.sub(bx, by)
    if 'add' in op:
        t.check('componentwise sum', t.eqv(r, ax + bx, ay + by))
    else:
        t.check('componentwise difference', t.eqv(r, ax - bx, ay - by))
    t.check('right operand unchanged', t.And(t.exact(b.x(), bx), t.exact(b.y(), by), r is not b))
    if op in ('add', 'sub'):
        t.check('left operand unchanged', t.And(t.exact(a.x(), ax), t.exact(a.y(), ay), r is not a))
    else:
        t.check('updates its receiver', t.And(t.exact(a.x(), r.x()), t.exact(a.y(), r.y())))


@case('C05')
def self_operand(t):
    ax, ay = t.xy('a')
    op = t.choice('op', ['add', 'sub', 'iadd', 'isub', 'add()', 'sub()'])
    a = t.V(ax, ay)
    r = a
    if op == 'add':
        r = a + a
    elif op == 'sub':
        r = a - a
    elif op == 'iadd':
        a += a
        r = a
    elif op == 'isub':
        a -= a
        r = a
    elif op == 'add()':
        a.add(a)
    else:
        a.sub(a)
    k = 2 if 'add' in op else 0
    t.check('operand used twice', t.eqv(r, k * ax, k * ay))


@case('C05', params=['mul', 'imul', 'scale', 'div', 'idiv'])
def scaling(t, op):
    ax, ay = t.xy('a')
    k = num(t, 'k')
    a = t.V(ax, ay)
    if 'div' in op:
        t.assume(t.Not(t.exact(k, 0)))
    r = a
    if op == 'mul':
        r = a * k
    elif op == 'imul':
        r *= k
    elif op == 'scale':
        a.scale(k)
    elif op == 'div':
        r = a / k
    else:
        r /= k
    if 'div' in op:
        t.check('quotient', t.And(t.eq(r.x() * k, ax), t.eq(r.y() * k, ay)))
    else:
        t.check('product', t.eqv(r, ax * k, ay * k))
    if op in ('mul', 'div'):
        t.check('operand unchanged', t.And(t.exact(a.x(), ax), t.exact(a.y(), ay), r is not a))


@case('C05')
def coordinate_updates(t):
    ax, ay = t.xy('a')
    p, q = t.real('p'), t.real('q')
    a = t.V(ax, ay)
    a.add_x(p)
    t.check('add_x', t.eqv(a, ax + p, ay))
    a.add_y(q)
    t.check('add_y', t.eqv(a, ax + p, ay + q))
    a.sub_x(q)
    t.check('sub_x', t.eqv(a, ax + p - q, ay + q))
    a.sub_y(p)
    t.check('sub_y', t.eqv(a, ax + p - q, ay + q - p))
    a.set_x(q)
    t.check('set_x', t.eqv(a, q, ay + q - p))
    a.set_y(p)
    t.check('set_y', t.eqv(a, q, p))
    a.set_x_y(p, q)
    t.check('set_x_y', t.eqv(a, p, q))
    a.assign(ax, ay)
    t.check('assign', t.eqv(a, ax, ay))
    t.check('readers', t.And(t.exact(a.x(), a.get_x()), t.exact(a.y(), a.get_y())))


@case('C05')
def products(t):
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    a, b = t.V(ax, ay), t.V(bx, by)
    V = t.L.Vector2D
    t.check('inner', t.And(t.eq(a.inner_product(b), ax * bx + ay * by),
                           t.eq(V.inner_product_static(a, b), ax * bx + ay * by)))
    t.check('outer', t.And(t.eq(a.outer_product(b), ax * by - ay * bx),
                           t.eq(V.outer_product_static(a, b), ax * by - ay * bx)))
    t.check('symmetry', t.And(t.eq(a.inner_product(b), b.inner_product(a)),
                              t.eq(a.outer_product(b), -b.outer_product(a))))
    t.check('unchanged', t.And(t.eqv(a, ax, ay), t.eqv(b, bx, by)))


@case('C05')
def reverse_abs(t):
    ax, ay = t.xy('a')
    a = t.V(ax, ay)
    r = a.reverse_vector()
    t.check('reverse_vector', t.And(t.eqv(r, -ax, -ay), t.eqv(a, ax, ay)))
    ab = a.abs()
    t.check('abs', t.And(t.eqv(ab, t.abs(ax), t.abs(ay)), t.eqv(a, ax, ay)))
    t.check('abs_x, abs_y', t.And(t.eq(a.abs_x(), t.abs(ax)), t.eq(a.abs_y(), t.abs(ay))))
    a.reverse()
    t.check('reverse', t.eqv(a, -ax, -ay))


@case('C05')
def laws(t):
    a, b, c = t.vec('a'), t.vec('b'), t.vec('c')
    k = t.real('k')
    t.check('associative', t.veq((a + b) + c, a + (b + c)))
    t.check('commutative', t.veq(a + b, b + a))
    t.check('distributive', t.veq((a + b) * k, a * k + b * k))
    t.check('difference', t.veq((a + b) - b, a))
    t.check('bilinear', t.And(t.eq((a + b).inner_product(c), a.inner_product(c) + b.inner_product(c)),
                              t.eq((a * k).outer_product(c), k * a.outer_product(c))))


# ------------------------------------------------------------------ C06 length, direction, rotation

@case('C06')
def length(t):
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    a, b = t.V(ax, ay), t.V(bx, by)
    t.check('r2', t.And(t.eq(a.r2(), ax * ax + ay * ay), t.eq(a.length2(), ax * ax + ay * ay)))
    r = a.r()
    t.check('r', t.And(t.le(0, r), t.eq(r * r, ax * ax + ay * ay), t.eq(a.length(), r)))
    d = a.dist(b)
    t.check('dist', t.And(t.le(0, d), t.eq(d * d, (ax - bx) * (ax - bx) + (ay - by) * (ay - by))))
    t.check('dist2', t.eq(a.dist2(b), (ax - bx) * (ax - bx) + (ay - by) * (ay - by)))
    t.check('symmetric', t.eq(d, b.dist(a)))
    t.check('zero only for equal points', t.Iff(t.exact(a.dist2(b), 0), t.And(t.exact(ax, bx), t.exact(ay, by))))
    t.check('unchanged', t.And(t.eqv(a, ax, ay), t.eqv(b, bx, by)))


@case('C06')
def triangle_inequality(t):
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    a, b, o = t.V(ax, ay), t.V(bx, by), t.V(0, 0)
    t.check('triangle inequality', t.le(a.dist(b), a.dist(o) + o.dist(b)))


@case('C06')
def set_length(t):
    ax, ay = t.xy('a')
    l = num(t, 'l')
    how = t.choice('how', ['set_length', 'set_length_vector', 'normalize', 'normalize_vector'])
    a = t.V(ax, ay)
    if 'normalize' in how:
        l = 1
    if how == 'set_length':
        a.set_length(l)
        r = a
    elif how == 'set_length_vector':
        r = a.set_length_vector(l)
    elif how == 'normalize':
        a.normalize()
        r = a
    else:
        r = a.normalize_vector()
    if how.endswith('vector'):
        t.check('receiver unchanged', t.And(t.exact(a.x(), ax), t.exact(a.y(), ay), r is not a))
    n2 = ax * ax + ay * ay
    if t.split(n2 <= 0.9e-12):
        t.check('vectors shorter than 1e-6 are left alone', t.eqv(r, ax, ay))
        return
    t.assume(n2 >= 1.1e-12)
    t.check('length', t.eq(r.r2(), l * l))
    t.check('same line', t.eq(r.x() * ay, r.y() * ax))
    t.check('same sense', t.Or(t.exact(l, 0), t.And(l > 0, r.x() * ax + r.y() * ay > 0),
                               t.And(l < 0, r.x() * ax + r.y() * ay < 0)))


@case('C06')
def rotation(t):
    ax, ay = t.xy('a')
    d = t.real('d', -180, 180)
    t.assume(-180 < d)
    ang = t.choice('arg', [lambda: d, lambda: t.A(d)])()
    inplace = t.choice('inplace', [True, False])
    a = t.V(ax, ay)
    if inplace:
        r = a.rotate(ang)
        t.check('returns its receiver', r is a)
    else:
        r = a.rotated_vector(ang)
        t.check('receiver unchanged', t.And(t.exact(a.x(), ax), t.exact(a.y(), ay)))
    c, s = t.cos(d), t.sin(d)
    t.check('rotated by d', t.eqv(r, ax * c - ay * s, ax * s + ay * c))
    t.check('length kept', t.eq(r.r2(), ax * ax + ay * ay))


@case('C06')
def rotation_any(t):
    """angles outside (-180, 180] and int angles"""
    ax, ay = t.xy('a')
    d = num(t, 'd')
    a = t.V(ax, ay)
    a.rotate(d)
    c, s = t.cos(d), t.sin(d)
    t.check('rotated by d', t.eqv(a, ax * c - ay * s, ax * s + ay * c))


@case('C06', quad=False)
def rotation_group(t):
    ax, ay = t.xy('a')
    d, e = t.real('d'), t.real('e')
    a = t.V(ax, ay)
    t.check('additive', t.veq(a.rotated_vector(d).rotated_vector(e), a.rotated_vector(d + e)))
    t.check('inverse', t.veq(a.rotated_vector(d).rotated_vector(-d), a))
    bx, by = t.xy('b')
    b = t.V(bx, by)
    t.check('isometry', t.And(t.eq(a.rotated_vector(d).inner_product(b.rotated_vector(d)), a.inner_product(b)),
                              t.eq(a.rotated_vector(d).outer_product(b.rotated_vector(d)), a.outer_product(b))))


@case('C06')
def polar(t):
    r = num(t, 'r')
    d = t.real('d', -500, 500)
    V = t.L.Vector2D
    arg = t.choice('arg', [lambda: d, lambda: t.A(d)])()
    how = t.choice('how', ['from_polar', 'polar2vector', 'set_polar', 'kwargs'])
    if how == 'from_polar':
        v = V.from_polar(r, arg)
    elif how == 'polar2vector':
        v = V.polar2vector(r, arg)
    elif how == 'set_polar':
        v = V(3.0, 4.0)
        v.set_polar(r, arg)
    else:
        v = V(r=r, a=arg)
    t.check('polar coordinates', t.eqv(v, r * t.cos(d), r * t.sin(d)))
    t.check('length', t.eq(v.r2(), r * r))
    t.check('valid', v.is_valid())


@case('C06')
def direction(t):
    ax, ay = t.xy('a')
    a = t.V(ax, ay)
    g = a.th().degree()
    t.check('normal form', t.And(-180 < g, g <= 180))
    t.check('dir is th', t.exact(a.dir().degree(), g))
    tiny = t.And(t.abs(ax) < 1e-6, t.abs(ay) < 1e-6)
    t.check('tiny vectors point to 0', t.Implies(tiny, t.exact(g, 0)))
    t.check('unchanged', t.And(t.exact(a.x(), ax), t.exact(a.y(), ay)))
    t.assume(t.Not(tiny))
    m = t.sqrt(ax * ax + ay * ay)
    t.check('direction', t.And(t.eq(m * t.cos(g), ax), t.eq(m * t.sin(g), ay)))


@case('C06')
def polar_roundtrip(t):
    ax, ay = t.xy('a')
    a = t.V(ax, ay)
    t.assume(t.Or(t.abs(ax) >= 1e-6, t.abs(ay) >= 1e-6))
    b = t.L.Vector2D.from_polar(a.r(), a.th())
    t.check('polar round trip', t.eqv(b, ax, ay))


@case('C06')
def polar_roundtrip_deg(t):
    r = t.real('r', 0.001, 1000)
    d = t.real('d', -180, 180)
    t.assume(-180 < d)
    v = t.L.Vector2D.from_polar(r, d)
    t.check('r', t.eq(v.r(), r))
    t.check('th', t.eq(v.th().degree(), d))


@case('C06')
def set_dir(t):
    ax, ay = t.xy('a')
    d = t.real('d', -500, 500)
    a = t.V(ax, ay)
    a.set_dir(t.choice('arg', [lambda: d, lambda: t.A(d)])())
    m = t.sqrt(ax * ax + ay * ay)
    t.check('keeps length, takes direction', t.eqv(a, m * t.cos(d), m * t.sin(d)))


# ------------------------------------------------------------------ C07 value semantics

@case('C07')
def construct(t):
    V = t.L.Vector2D
    x, y = num(t, 'x'), num(t, 'y')
    how = t.choice('how', ['xy', 'kw', 'copy', 'default'])
    if how == 'default':
        v = V()
        t.check('origin', t.And(t.exact(v.x(), 0), t.exact(v.y(), 0), v.is_valid()))
        return
    if how == 'xy':
        v = V(x, y)
    elif how == 'kw':
        v = V(x=x, y=y)
    else:
        v = V(V(x, y))
    t.check('coordinates', t.And(t.exact(v.x(), x), t.exact(v.y(), y), v.is_valid()))


@case('C07')
def bad_arguments(t):
    V = t.L.Vector2D
    x = t.real('x')
    t.check('one number rejected', t.raises(lambda: V(x)))
    t.check('three numbers rejected', t.raises(lambda: V(x, x, x)))
    t.check('strings rejected', t.raises(lambda: V('1', '2')))
    t.check('unknown keywords rejected', t.raises(lambda: V(x=x, z=x)))


def _copies(t, a):
    b = t.L.Vector2D(5, 6)
    b.set_vector(a)
    return [t.L.Vector2D(a), a.copy(), a.get_copy(), b]


@case('C07')
def copies(t):
    x, y, p, q = t.real('x'), t.real('y'), t.real('p'), t.real('q')
    a = t.V(x, y)
    bad = t.choice('invalid', [False, True])
    if bad:
        a.invalidate()
    for i, b in enumerate(_copies(t, a)):
        t.check('same value', t.And(t.exact(b.x(), x), t.exact(b.y(), y), b is not a))
        t.check('same validity', b.is_valid() is (not bad))
        b.assign(p, q)
        t.check('writing a copy leaves the original', t.And(t.exact(a.x(), x), t.exact(a.y(), y)))
    cs = _copies(t, a)
    a.assign(p, q)
    a.validate()
    for b in cs:
        t.check('writing the original leaves the copy', t.And(t.exact(b.x(), x), t.exact(b.y(), y),
                                                              b.is_valid() is (not bad)))


@case('C07')
def validity(t):
    x, y = t.xy('a')
    v = t.L.Vector2D.invalid()
    t.check('invalid() is invalid', v.is_valid() is False)
    w = t.V(x, y)
    t.check('fresh vectors are valid', w.is_valid() is True)
    t.check('invalid() is not shared', t.L.Vector2D.invalid() is not v)
    v.validate()
    t.check('validate', v.is_valid() is True)
    t.check('others stay invalid', t.L.Vector2D.invalid().is_valid() is False)
    w.invalidate()
    t.check('invalidate', t.And(w.is_valid() is False, t.exact(w.x(), x), t.exact(w.y(), y)))
    w.set_vector(t.V(y, x))
    t.check('set_vector takes the validity over', w.is_valid() is True)


@case('C07')
def equality(t):
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    a, b = t.V(ax, ay), t.V(bx, by)
    same = t.And(t.exact(ax, bx), t.exact(ay, by))
    t.check('==', t.Iff(a == b, same))
    t.check('!=', t.Iff(a != b, t.Not(same)))
    t.check('equals', t.Iff(a.equals(b), same))
    near = t.And(t.abs(ax - bx) < 1e-6, t.abs(ay - by) < 1e-6)
    t.check('equals_weakly', t.Iff(a.equals_weakly(b), near))
    t.check('reflexive', t.And(a == a, a == t.V(ax, ay), a.equals_weakly(t.V(ax, ay))))
    t.check('symmetric', t.And(t.Iff(a == b, b == a), t.Iff(a.equals_weakly(b), b.equals_weakly(a))))
    t.check('not equal to other things', t.And(t.Not(a == (ax, ay)), t.Not(a == 1), t.Not(a == None), a != 'x'))   # noqa: E711


@case('C07')
def hashing(t):
    ax, ay = t.xy('a')
    bx, by = t.xy('b')
    a, b = t.V(ax, ay), t.V(bx, by)
    t.assume(t.And(t.exact(ax, bx), t.exact(ay, by)))
    t.check('equal vectors hash alike', t.hash_eq(t.hash(a), t.hash(b)))
    a.invalidate()
    t.check('equal vectors hash alike whatever their validity', t.Implies(a == b, t.hash_eq(t.hash(a), t.hash(b))))


@case('C07')
def hashing_whole_numbers(t):
    """a vector of ints equals the vector of the same floats, so the two hash alike"""
    n, m = t.int('n', -1000, 1000), t.int('m', -1000, 1000)
    a, b = t.V(n, m), t.V(n * 1.0, m * 1.0)
    c = t.V(n, m * 1.0)
    for p, q in ((a, b), (a, c), (b, c)):
        t.check('whole numbers of either kind are equal', t.And(p == q, q == p))
        t.check('whole numbers of either kind hash alike', t.Implies(p == q, t.hash_eq(t.hash(p), t.hash(q))))
