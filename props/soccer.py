"""C31-C33: soccer_math"""
import math
from sx.ctx import case
from .vector import num

N = list(range(0, 9))


# ------------------------------------------------------------------ C31 inertia, geometric series

@case('C31', params=N + [14])
def travel(t, n):
    """n steps of: move by the velocity, then decay it"""
    sm = t.L.sm
    d = t.real('decay', 0, 0.999)
    x, y = t.xy('p', -1000, 1000)
    u, v = t.xy('v', -100, 100)
    P, V = t.V(x, y), t.V(u, v)
    f, k = 0, 1
    for _ in range(n):
        f, k = f + k, k * d
    t.check('travel', t.eqv(sm.inertia_n_step_travel(V, n, d), u * f, v * f))
    t.check('point', t.eqv(sm.inertia_n_step_point(P, V, n, d), x + u * f, y + v * f))
    s = t.real('s', -100, 100)
    t.check('distance', t.eq(sm.inertia_n_step_distance(s, n, d), s * f))
    t.check('arguments unchanged', t.And(t.exact(P.x(), x), t.exact(P.y(), y), t.exact(V.x(), u), t.exact(V.y(), v)))


@case('C31')
def travel_any(t):
    """any number of steps: one step more is the first step and the rest at the decayed velocity; the closed form"""
    sm = t.L.sm
    reach = t.choice('decay', [(0.1, 2000), (0.98, 150)])
    n = t.int('n', 1, reach[1])
    d = t.real('decay', reach[0], 0.999)
    u, v = t.xy('v', -100, 100)
    x, y = t.xy('p', -1000, 1000)
    F, G = sm.inertia_n_step_travel(t.V(u, v), n + 1, d), sm.inertia_n_step_travel(t.V(u * d, v * d), n, d)
    t.check('travel', t.eqv(F, u + G.x(), v + G.y()))
    t.check('point', t.eqv(sm.inertia_n_step_point(t.V(x, y), t.V(u, v), n, d), x + sm.inertia_n_step_travel(t.V(u, v), n, d).x(), y + sm.inertia_n_step_travel(t.V(u, v), n, d).y()))
    s = t.real('s', -100, 100)
    t.check('distance', t.eq(sm.inertia_n_step_distance(s, n + 1, d), s + sm.inertia_n_step_distance(s * d, n, d)))
    t.check('closed form', t.eq(sm.inertia_n_step_distance(s, n, d) * (1 - d), s * (1 - d ** n)))


@case('C31')
def first_term_any(t):
    """any number of terms"""
    n = t.int('n', 1, 2000)
    r = t.choice('side', [lambda: t.real('r', 0.1, 0.99), lambda: t.real('r', 1.01, 1.2)])()
    s = t.real('sum', -100, 100)
    a = t.L.sm.calc_first_term_geom_series(s, r, n)
    t.check('adds up', t.eq(a * (1 - r ** n), s * (1 - r)))


@case('C31')
def final(t):
    sm = t.L.sm
    d = t.real('decay', 0, 0.999)
    x, y = t.xy('p', -1000, 1000)
    u, v = t.xy('v', -100, 100)
    P, V = t.V(x, y), t.V(u, v)
    F = sm.inertia_final_travel(V, d)
    # one step, then the rest of the way at the decayed velocity
    G = sm.inertia_final_travel(t.V(u * d, v * d), d)
    t.check('travel', t.And(t.eqv(F, u + G.x(), v + G.y()), t.eq(F.x() * (1 - d), u), t.eq(F.y() * (1 - d), v)))
    Q = sm.inertia_final_point(P, V, d)
    t.check('point', t.eqv(Q, x + F.x(), y + F.y()))
    s = t.real('s', -100, 100)
    D = sm.inertia_final_distance(s, d)
    t.check('distance', t.eq(D * (1 - d), s))
    t.check('arguments unchanged', t.And(t.exact(P.x(), x), t.exact(P.y(), y), t.exact(V.x(), u), t.exact(V.y(), v)))
    Q.assign(1, 2)
    F.assign(3, 4)
    t.check('results are independent', t.And(t.exact(P.x(), x), t.exact(V.x(), u)))


@case('C31', params=N[:7])
def final_split(t, n):
    """n steps and then the final travel of what is left"""
    sm = t.L.sm
    d = t.real('decay', 0, 0.999)
    s = t.real('s', -100, 100)
    k = 1
    for _ in range(n):
        k = k * d
    t.check('n steps, then the rest', t.eq(sm.inertia_n_step_distance(s, n, d) + sm.inertia_final_distance(s * k, d), sm.inertia_final_distance(s, d)))


@case('C31', params=N[1:])
def first_term(t, n):
    """the terms add up to the sum"""
    r = t.choice('side', [lambda: t.real('r', 0, 0.99), lambda: t.real('r', 1.01, 5)])()
    s = t.real('sum', -100, 100)
    a = t.L.sm.calc_first_term_geom_series(s, r, n)
    f, k = 0, 1
    for _ in range(n):
        f, k = f + k, k * r
    t.check('adds up', t.eq(a * f, s))


@case('C31')
def series_length(t):
    """the number of terms after which the series reaches the sum"""
    g = t.real('g', -2, 1)
    t.assume(t.abs(g) >= 0.01)
    r = t.exp(g)
    t.assume(r >= 0.1)
    a, s = t.real('a', 0.001, 100), t.real('sum', 0.001, 100)
    n = t.L.sm.calc_length_geom_series(a, s, r)
    k = 1 + s * (r - 1) / a
    t.check('out of reach', t.Implies(k <= 0, t.exact(n, -1)))
    t.assume(k >= 1e-6)
    t.check('within reach', n >= 0)
    t.check('terms add up to the sum', t.eq(t.exp(n * g), k))


@case('C31')
def series_reach(t):
    """a sum below the limit of the series is reached, one beyond it is not"""
    r = t.real('r', 0.01, 3)
    t.assume(t.abs(r - 1) >= 0.001)
    a, s = t.real('a', 0.001, 100), t.real('sum', 0.001, 100)
    n = t.L.sm.calc_length_geom_series(a, s, r)
    k = 1 + s * (r - 1) / a
    t.check('out of reach', t.Implies(k <= 0, t.exact(n, -1)))
    t.check('within reach', t.Implies(k >= 1e-6, n > 0))


@case('C31', params=[1, 2, 3, 5])
def series_round_trip(t, m):
    """the sum of m terms has length m"""
    r = t.real('r', 0.2, 2)
    t.assume(t.abs(r - 1) >= 0.01)
    a = t.real('a', 0.01, 100)
    n = t.L.sm.calc_length_geom_series(a, a * sum(r ** i for i in range(m)), r)
    t.check('length', t.eq(n, m))


@case('C31')
def series_length_edge(t):
    L = t.L.sm.calc_length_geom_series
    a, s, r = t.real('a', -10, 10), t.real('sum', -10, 10), t.real('r', -3, 3)
    t.assume(t.abs(r - 1) > 0.01)
    bad = t.Or(a <= 0, s < 0, r <= 0)
    good = t.And(a > 1.01e-10, r > 1.01e-10)
    n = L(a, s, r)
    t.check('no such series', t.Implies(bad, t.exact(n, -1)))
    t.check('empty series', t.Implies(t.And(good, t.exact(s, 0)), t.exact(n, 0)))


# ------------------------------------------------------------------ C32 rounding, quantisation, clamping, ranges

@case('C32')
def rounding(t):
    x = num(t, 'x', -1e12, 1e12)
    r = t.L.sm.r_int(x)
    t.check('nearest integer', t.And(t.le(r - x, 0.5), t.le(x - r, 0.5), t.is_multiple(r, 1)))
    if not t.symbolic:
        t.check('an int', isinstance(r, int))


@case('C32', params=['range', 'multiple'])
def quantising(t, what):
    x = t.real('x', -1e6, 1e6)
    q = t.choice('q', [lambda: t.real('q', 0.01, 10), lambda: 0.1, lambda: 0.5, lambda: 1])()
    v = t.L.sm.quantize(x, q)
    if what == 'range':
        t.check('at most half a step away', t.And(t.le(v - x, q / 2), t.le(x - v, q / 2)))
    else:
        t.check('a whole number of steps', t.eq(v, q * t.floor(v / q + 0.5)))


@case('C32')
def unquantising(t):
    """the true value lies between the bounds recovered from its quantised value"""
    sm = t.L.sm
    x = t.real('x', -1e6, 1e6)
    q = t.choice('q', [lambda: t.real('q', 0.01, 10), lambda: 0.5, lambda: 1])()
    v = sm.quantize(x, q)
    lo, hi = sm.unquantize_min(v, q), sm.unquantize_max(v, q)
    t.check('bounds enclose the value', t.And(t.le(lo, x), t.le(x, hi)))
    t.check('one step apart', t.eq(hi - lo, q))
    t.check('centred', t.eq(hi + lo, 2 * v))


@case('C32')
def quantised_distance(t):
    """logarithmic quantisation: relative error below half a step, then rounding to 0.1"""
    s, q = t.real('s', -2, 6), t.choice('q', [lambda: t.real('q', 0.01, 1), lambda: 0.5])()
    d = t.exp(s) - 1e-10
    v = t.L.sm.quantize_dist(d, q)
    t.check('not too large', t.le(v, t.exp(s + q / 2) + 0.05))
    t.check('not too small', t.le(t.exp(s - q / 2) - 0.05, v))
    t.check('in tenths', t.eq(v, t.floor(v / 0.1 + 0.5) * 0.1))


@case('C32', budget=240)
def quantisation_error(t):
    """distances seen as the same value differ by at most the reported error"""
    sm = t.L.sm
    q = t.choice('q', [0.5, 0.125])
    a, b = t.real('a', -0.5, 0.5), t.real('b', -0.5, 0.5)
    at = t.choice('at', ['any', 0, -2, -4, 3, 6, 11])
    if at == 'any':
        i, j, m = t.int('i', -8, 40), t.int('j', -8, 40), t.int('m', 1, 1000)
    else:
        i = j = at
        m = int(math.exp(i * q) * 10 + 0.5)
    see = m * 0.1
    E = t.exp(i * q)
    F = t.exp(j * q)
    # both observed as `see`
    t.assume(t.And(E >= see - 0.0499, E <= see + 0.0499, F >= see - 0.0499, F <= see + 0.0499))
    d, e = t.exp((i + a) * q), t.exp((j + b) * q)
    err = sm.unquantize_error(see, q)
    t.check('error bounds the difference', t.And(t.le(d - e, err + 1e-9), t.le(e - d, err + 1e-9)))


@case('C32', params=['bound', 'min_max'])
def clamping(t, what):
    lo, x, hi = num(t, 'lo'), num(t, 'x'), t.real('hi')
    t.assume(lo <= hi)
    r = getattr(t.L.sm, what)(lo, x, hi)
    t.check('clamped', t.And(t.Implies(x <= lo, t.exact(r, lo)), t.Implies(x >= hi, t.exact(r, hi)),
                             t.Implies(t.And(lo <= x, x <= hi), t.exact(r, x))))


@case('C32', params=['up', 'down', 'unit', 'stop'])
def ranges(t, how):
    """start, start + step, ... strictly before stop"""
    R = t.L.sm.f_range
    a, s = 0, 1
    if how in ('up', 'down'):
        a, s = num(t, 'a', -1000, 1000), t.real('s', 0.001, 1000)
        if how == 'down':
            s = -s
        k = t.real('k', -2, 40)
        b = a + k * s
        got = list(R(a, b, s))
    elif how == 'unit':
        a = t.real('a', -1000, 1000)
        k = t.real('k', -2, 40)
        b = a + k
        got = list(R(a, b))
    else:
        k = b = t.real('k', -2, 40)
        got = list(R(b))
    t.check('progression', t.And(True, *[t.eq(v, a + i * s) for i, v in enumerate(got)]))
    n = len(got)
    t.check('all before stop', t.Implies(n > 0, n - 1 < k + 1e-9))
    t.check('nothing left out', n >= k - 1e-9)
    t.check('empty when there is nothing', t.Implies(k < -1e-9, n == 0))


@case('C32', params=['up', 'down', 'unit', 'stop'])
def ranges_whole(t, how):
    """numbers of eighths, which floats hold exactly, so that the stop is met exactly"""
    R = t.L.sm.f_range
    k = t.int('k', -3, 20)
    a, s = t.int('a', -8000, 8000) / 8, 1
    if how in ('up', 'down'):
        s = t.int('s', 1, 800) / (8 if how == 'up' else -8)
        got = list(R(a, a + k * s, s))
    elif how == 'unit':
        got = list(R(a, a + k))
    else:
        a = 0
        got = list(R(k))
    t.check('progression', t.And(True, *[t.eq(v, a + i * s) for i, v in enumerate(got)]))
    t.check('up to but not including the stop', t.And(t.Implies(k >= 0, len(got) == k), t.Implies(k < 0, len(got) == 0)))


# ------------------------------------------------------------------ C33 kick, dash, turn, wind

@case('C33')
def kick(t):
    sm = t.L.sm
    p, b, z, m = t.real('power', 0, 10), t.real('ball', 0, 10), t.real('player', 0, 10), t.real('margin', 0.1, 100)
    gap, d = t.real('gap', -2, 100), t.real('dir', -180, 180)
    k = sm.kick_rate(b + z + gap, d, p, b, z, m)
    t.check('the documented rate', t.eq(k * 4 * m * 180, p * (4 * m * 180 - t.abs(d) * m - gap * 180)))
    t.check('left and right alike', t.eq(k, sm.kick_rate(b + z + gap, -d, p, b, z, m)))
    t.assume(t.And(gap >= 0, gap <= m))
    t.check('between half and full power', t.And(t.le(p / 2, k), t.le(k, p)))
    e = t.real('dir2', -180, 180)
    t.assume(t.abs(e) >= t.abs(d))
    t.check('never better when further off', t.le(sm.kick_rate(b + z + gap, e, p, b, z, m), k))


@case('C33')
def dash_direction(t):
    sm = t.L.sm
    back, side, d = t.real('back', 0, 10), t.real('side', 0, 10), t.real('d', -180, 180)
    r = sm.dir_rate(d, back, side)
    t.check('mirror', t.eq(r, sm.dir_rate(-d, back, side)))
    w = t.abs(d)
    t.check('linear between forward and side', t.Implies(w <= 90, t.eq(r * 90, (90 - w) + side * w)))
    t.check('linear between side and back', t.Implies(w >= 90, t.eq(r * 90, side * (180 - w) + back * (w - 90))))
    t.check('forward, side, back', t.And(t.eq(sm.dir_rate(0, back, side), 1), t.eq(sm.dir_rate(90, back, side), side),
                                         t.eq(sm.dir_rate(-90, back, side), side), t.eq(sm.dir_rate(180, back, side), back),
                                         t.eq(sm.dir_rate(-180, back, side), back)))


@case('C33')
def turning(t):
    m, v, i = t.real('moment', -1000, 1000), t.real('speed', 0, 1000), t.real('inertia', 0, 1000)
    r = t.L.sm.effective_turn(m, v, i)
    t.check('reduced by speed and inertia', t.eq(r * (1 + i * v), m))
    t.check('standing: the whole moment', t.eq(t.L.sm.effective_turn(m, 0, i), m))


@case('C33')
def speed_limit(t):
    sm = t.L.sm
    p, r, e, d = t.real('power', -1000, 1000), t.real('rate', 0, 10), t.real('effort', 0, 10), t.real('decay', 0, 0.99)
    f = sm.final_speed(p, r, e, d)
    t.check('speed that dashing keeps up', t.And(t.le(0, f), t.eq(f * d + t.abs(p) * r * e, f)))
    m = t.real('max', 0, 1000)
    o = sm.can_over_speed_max(p, r, e, d, m)
    t.check('over the limit', t.And(t.Implies(f > m + 1e-6, o), t.Implies(f < m - 1e-6, t.Not(o))))


@case('C33', params=['error', 'none'])
def wind(t, how):
    v, w, f = t.real('speed', 0, 100), t.real('weight', 0.1, 1000), t.real('force', 0, 1000)
    d, ww, rnd = t.real('dir', -400, 400), t.real('wweight', 0.1, 20000), t.real('rand', 0, 1)
    err = t.V(3, 4) if how == 'error' else None
    r = t.L.sm.wind_effect(v, w, f, d, ww, rnd, err)
    k = v * f / (w * ww)
    t.check('wind push', t.eqv(r, k * t.cos(d), k * t.sin(d)))
    if err is not None:
        t.check('random part', t.And(err is not r, t.eqv(err, k * rnd * t.cos(d), k * rnd * t.sin(d))))
