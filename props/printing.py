"""C35: the printed form of an object shows its current numbers and changes nothing"""
from sx.ctx import case
from .history import KINDS, V, CTX
from .stale import POLY, HULL


def shown(o):
    """the numbers an object is made of, in the order they are printed"""
    if hasattr(o, 'degree'):
        return [o.degree()]
    if hasattr(o, 'inner_product'):
        return [o.x(), o.y()]
    if hasattr(o, 'perpendicular'):
        return [o.a(), o.b(), o.c(), 0]
    if hasattr(o, 'diagonal'):
        return [o.length(), o.width()]
    if hasattr(o, 'a_'):
        return shown(o.a()) + shown(o.b()) + shown(o.c())
    if hasattr(o, 'terminal_'):
        return shown(o.origin()) + shown(o.terminal())
    if hasattr(o, 'dir_'):
        return shown(o.origin()) + shown(o.dir())
    if hasattr(o, 'size_'):
        return [o.left(), o.top(), o.size().length(), o.size().width()]
    if hasattr(o, 'angle_left_start_'):
        return shown(o.center()) + shown(o.angle_left_start()) + shown(o.angle_right_end()) + [o.radius_min(), o.radius_max()]
    if hasattr(o, 'center_'):
        return shown(o.center()) + [o.radius()]
    if hasattr(o, 'compute'):
        return [z for v in o.vertices() for z in shown(v)] + [z for e in o.edges() for z in shown(e)]
    if hasattr(o, 'vertices'):
        return [z for v in o.vertices() for z in shown(v)]
    return [o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf()]


def prints(t, label, o, rel=None):
    want = shown(o)
    for text in (repr(o), str(o), f'{o}'):
        got = t.numbers(text)
        if len(want) == 4 and hasattr(o, 'perpendicular') and len(got) == 3:
            # a line through the origin is shown without its constant
            t.check(label, t.And(t.exact(got[0], want[0]), t.exact(got[1], want[1]), t.exact(want[2], 0), t.exact(got[2], 0)))
            continue
        t.check(label, t.And(len(got) == len(want), *[t.exact(a, b) for a, b in zip(got, want)]))
    t.check('unchanged', t.And(*[t.exact(a, b) for a, b in zip(shown(o), want)]))


ALL = dict(KINDS, polygon=POLY, hull=HULL)


@case('C35', params=list(ALL))
def printed(t, k):
    """an object in a symbolic state"""
    K = ALL[k]
    s = K.start
    if k == 'sector':
        s = t.xy('c', -1e6, 1e6) + (t.real('r', 0, 1e6),)
        s += (s[2] + t.real('w', 0.25, 1e6), t.real('s', -500, 500), t.real('e', -500, 500))
    elif k == 'ray':
        s = t.xy('o', -1e6, 1e6) + (t.real('d', -500, 500),)
    elif k == 'angle':
        s = (t.real('d', -1000, 1000),)
    elif k in ('circle', 'size', 'rect'):
        s = tuple(t.real('s%d' % i, *((-1e6, 1e6) if i < 2 and k != 'size' else (0, 1e6))) for i in range(len(s)))
    elif k != 'hull':
        s = tuple(t.real('s%d' % i, -1e6, 1e6) for i in range(len(s)))
    prints(t, 'shows its numbers', K.fresh(t, s))


@case('C35')
def printed_line(t):
    """also through the origin"""
    a, b = t.real('a'), t.real('b')
    c = t.choice('c', [0, 1]) * t.real('c')
    prints(t, 'shows its numbers', t.L.Line2D(a, b, c))


@case('C35')
def printed_signs(t):
    """negative numbers, and angles over the seam"""
    x, y = t.xy('p', -1e7, 1e7)
    prints(t, 'vector', t.V(x, y))
    prints(t, 'vector of whole numbers', t.V(t.int('n', -50000, 50000), y))
    d = t.real('d', -500, 500)
    prints(t, 'angle', t.A(d))
    prints(t, 'circle', t.L.Circle2D(t.V(x, y), t.real('r', -5, 5)))
    v = t.V(x, y)
    v.invalidate()
    prints(t, 'invalid vector', v)


@case('C35', params=[(k, m) for k in ALL for m in ALL[k].change])
def printed_after(t, k, m):
    """after a change the new numbers are shown"""
    K = ALL[k]
    CTX[0] = t
    o = K.fresh(t, K.start)
    if k == 'hull':
        o.compute()
    repr(o)
    n, do, st = K.change[m]
    do(t, o, [t.real('a%d' % i, *((1, 9) if k in ('circle', 'hull') else (-60, 60))) for i in range(n)])
    if k == 'hull':
        o.compute()
    prints(t, 'shows its new numbers', o)


TEXT = {'circle': ('circle', lambda o: [o.center().x(), o.center().y(), o.radius()]), 'segment': ('line', shown), 'triangle': ('tri', shown),
        'rect': ('rect', lambda o: [o.left(), o.top(), o.right(), o.bottom()])}


@case('C35', params=list(TEXT))
def to_str(t, k):
    """the text given comes first, then the shape with its numbers rounded to three decimals"""
    K = KINDS[k]
    i = t.choice('free', list(range(len(K.start))))
    base = (-3.1415, 20.70061, 12.34567, 33.3335, 5.00049, -7.9996)
    s = base[:i] + (t.real('s', *((-1000, 1000) if i < 2 or k in ('segment', 'triangle') else (0.25, 1000))),) + base[i + 1:len(K.start)]
    o = K.fresh(t, s)
    tag, numbers = TEXT[k]
    want = numbers(o)
    for before in (t.choice('before', ['', 'log: ', '(rect)']),):
        text = o.to_str(before)
        t.check('appended to the text', isinstance(text, str) and text.startswith(before) and text[len(before):].strip().startswith('(' + tag + ' ') and text.endswith(')'))
        got = t.numbers(text[len(before):]) if isinstance(text, str) else []
        t.check('rounded numbers', t.And(len(got) == len(want), *[t.abs(a - b) <= 0.000501 for a, b in zip(got, want)]))
    t.check('unchanged', t.And(*[t.exact(a, b) for a, b in zip(numbers(o), want)]))
