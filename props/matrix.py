"""C29: Matrix2D"""
from sx.ctx import case
from .vector import num


def mat(t, n=''):
    m = [t.real(n + k, -1000, 1000) for k in ('a', 'b', 'c', 'd', 'x', 'y')]
    return t.L.Matrix2D(*m), m


def is_mat(t, M, m, f=None):
    f = f or t.exact
    return t.And(f(M.m11(), m[0]), f(M.m12(), m[1]), f(M.m21(), m[2]), f(M.m22(), m[3]), f(M.dxtf(), m[4]), f(M.dytf(), m[5]))


def app(m, x, y):
    return m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]


@case('C29', params=['init', 'assign'])
def construct(t, how):
    m = [num(t, 'a')] + [t.real(k) for k in ('b', 'c', 'd', 'x', 'y')]
    if how == 'init':
        M = t.L.Matrix2D(*m)
    else:
        M = t.L.Matrix2D(1, 2, 3, 4, 5, 6)
        M.assign(*m)
    t.check('entries', is_mat(t, M, m))
    M.reset()
    t.check('reset gives the identity', is_mat(t, M, (1, 0, 0, 1, 0, 0)))
    t.check('default is the identity', is_mat(t, t.L.Matrix2D(), (1, 0, 0, 1, 0, 0)))


@case('C29', params=['point', 'numbers', 'operator', 'in place'])
def transform(t, how):
    M, m = mat(t)
    x, y = t.xy('p')
    p = t.V(x, y)
    if how == 'point':
        r = M.transform(p)
    elif how == 'numbers':
        r = M.transform(x, y)
    elif how == 'operator':
        r = M * p
    else:
        r = M.transform_vec(p)
        t.check('returns its argument', r is p)
    t.check('image point', t.eqv(r, *app(m, x, y)))
    if how != 'in place':
        t.check('argument unchanged', t.And(t.exact(p.x(), x), t.exact(p.y(), y), r is not p))
    t.check('matrix unchanged', is_mat(t, M, m))


@case('C29')
def transform_rejects(t):
    M, m = mat(t)
    t.check('no arguments', t.raises(lambda: M.transform()))
    t.check('three numbers', t.raises(lambda: M.transform(1, 2, 3)))


@case('C29')
def determinant(t):
    M, m = mat(t)
    D = m[0] * m[3] - m[1] * m[2]
    t.check('det', t.eq(M.det(), D))
    i = M.invertible()
    t.check('invertible', t.And(t.Implies(t.abs(D) > 1.01e-6, i), t.Implies(t.abs(D) < 0.99e-6, t.Not(i))))
    t.check('matrix unchanged', is_mat(t, M, m))


@case('C29')
def inverse(t):
    M, m = mat(t)
    D = m[0] * m[3] - m[1] * m[2]
    t.assume(t.abs(D) > 1.01e-6)
    I = M.inverted()
    x, y = t.xy('p', -1000, 1000)
    p = t.V(x, y)
    q = I.transform(M.transform(p))
    t.check('undoes the transformation', t.eqv(q, x, y))
    q = M.transform(I.transform(p))
    t.check('is undone by it', t.eqv(q, x, y))
    t.check('matrix unchanged', t.And(is_mat(t, M, m), I is not M))
    e = [1, 0, 0, 1, 0, 0]
    t.check('product is the identity', t.And(is_mat(t, I * M, e, t.eq), is_mat(t, M * I, e, t.eq)))
    t.check('operands unchanged', is_mat(t, M, m))


@case('C29')
def inverse_singular(t):
    """no inverse: the identity is returned"""
    a, b, k = t.real('a'), t.real('b'), t.choice('k', [0, 1, -2, 3])
    x, y = t.xy('d')
    M = t.L.Matrix2D(a, b, k * a, k * b, x, y)
    t.check('singular: identity', is_mat(t, M.inverted(), (1, 0, 0, 1, 0, 0)))
    t.check('not invertible', t.Not(M.invertible()))
    t.check('matrix unchanged', is_mat(t, M, (a, b, k * a, k * b, x, y)))


@case('C29', params=['translate', 'scale', 'rotate'])
def update(t, what):
    """each in-place update acts after the transformation the matrix already was"""
    M, m = mat(t)
    x, y = t.xy('p', -1000, 1000)
    u, v = app(m, x, y)
    k, l = t.real('k', -100, 100), t.real('l', -100, 100)
    if what == 'rotate':
        d = t.real('ang', -400, 400)
        A = t.A(d)
        g = A.degree()
        M.rotate(A)
        c, s = t.cos(d), t.sin(d)
        w = (c * u - s * v, s * u + c * v)
        t.check('angle unchanged', t.exact(A.degree(), g))
        N = t.L.Matrix2D.make_rotation(A)
        n = (c * x - s * y, s * x + c * y)
    elif what == 'scale':
        M.scale(k, l)
        w = (k * u, l * v)
        N = t.L.Matrix2D.make_scaling(k, l)
        n = (k * x, l * y)
    else:
        M.translate(k, l)
        w = (u + k, v + l)
        N = t.L.Matrix2D.make_translation(k, l)
        n = (x + k, y + l)
    t.check('then ' + what, t.eqv(M.transform(x, y), *w))
    t.check('make_ builds it alone', t.eqv(N.transform(x, y), *n))
    t.check('same as the product', is_mat(t, N * t.L.Matrix2D(*m), [M.m11(), M.m12(), M.m21(), M.m22(), M.dxtf(), M.dytf()], t.eq))


@case('C29', params=['mul', 'imul'])
def product(t, op):
    M, m = mat(t)
    N, n = mat(t, 'n')
    x, y = t.xy('p', -1000, 1000)
    want = app(m, *app(n, x, y))
    if op == 'mul':
        R = M * N
        t.check('left operand unchanged', t.And(R is not M, is_mat(t, M, m)))
    else:
        R = M
        R *= N
        t.check('in place', R is M)
    t.check('right first, then left', t.eqv(R.transform(x, y), *want))
    t.check('right operand unchanged', t.And(R is not N, is_mat(t, N, n)))
    t.check('determinant multiplies', t.eq(R.det(), (m[0] * m[3] - m[1] * m[2]) * (n[0] * n[3] - n[1] * n[2])))


@case('C29')
def square(t):
    """one object as both factors"""
    M, m = mat(t)
    x, y = t.xy('p', -1000, 1000)
    want = app(m, *app(m, x, y))
    how = t.choice('op', ['mul', 'imul'])
    if how == 'mul':
        R = M * M
        t.check('operand unchanged', is_mat(t, M, m))
    else:
        R = M
        R *= M
    t.check('applied twice', t.eqv(R.transform(x, y), *want))


@case('C29')
def associative(t):
    M, _ = mat(t)
    N, _ = mat(t, 'n')
    K, _ = mat(t, 'k')
    L, R = (M * N) * K, M * (N * K)
    t.check('associative', is_mat(t, L, [R.m11(), R.m12(), R.m21(), R.m22(), R.dxtf(), R.dytf()], t.eq))


@case('C29', quad=False)
def sequence(t):
    """two updates in a row"""
    M, m = mat(t)
    x, y = t.xy('p', -1000, 1000)
    u, v = app(m, x, y)
    for i in (1, 2):
        what = t.choice('u%d' % i, ['t', 's', 'r', 'i'])
        k, l = t.real('k%d' % i, -100, 100), t.real('l%d' % i, -100, 100)
        if what == 't':
            M.translate(k, l)
            u, v = u + k, v + l
        elif what == 's':
            M.scale(k, l)
            u, v = u * k, v * l
        elif what == 'r':
            d = t.real('ang%d' % i, -180, 180)
            M.rotate(t.A(d))
            c, s = t.cos(d), t.sin(d)
            u, v = c * u - s * v, s * u + c * v
        else:
            I = M.inverted()
            M.transform(k, l)
            I.translate(3, 4)
    t.check('updates apply in order', t.eqv(M.transform(x, y), u, v))


@case('C29')
def equality(t):
    M, m = mat(t)
    N, n = mat(t, 'n')
    same = t.And(*[t.exact(p, q) for p, q in zip(m, n)])
    t.check('== iff all entries agree', t.Iff(M == N, same))
    t.check('a copy is equal', M == t.L.Matrix2D(*m))
