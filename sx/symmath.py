"""Stand-in for the `math` module during symbolic execution.

Every function falls through to the real `math` when its arguments are concrete.
Real semantics: sqrt, trigonometry, exp/log are exact real functions; the solver
sees them through defining equations (a square root y has y >= 0 and y*y = p,
a cosine/sine pair has c*c + s*s = 1, angle sums are expanded algebraically).
"""
from __future__ import annotations
import math as _m
import types
from fractions import Fraction

import z3

from . import core
from .core import (Sym, SymFloat, SymInt, Unsupported, b_and, b_or, b_not, compare,
                   do_abs, do_div, floor_of, trunc_of, lift, do_pow, lcm_den, is_nn, mark_nn)
from .poly import Poly, Rat, P0, P1, Blowup

pi, e, tau, inf, nan = _m.pi, _m.e, _m.tau, _m.inf, _m.nan


def _sym(*xs):
    return any(isinstance(x, Sym) for x in xs)


def _num(x):
    if isinstance(x, (Sym, int, float, Fraction)):
        return x
    f = getattr(type(x), '__float__', None)
    if f is None:
        raise TypeError('must be real number, not ' + type(x).__name__)
    r = f(x)
    return r


def _R(x):
    r = lift(x)
    if r is None:
        raise Unsupported('inf/nan mixed with symbolic values')
    return r


def _c(q):
    return SymFloat(Rat(Poly.const(q)))


def _v(v):
    return SymFloat(Rat(Poly.var(v.vid)))


# ------------------------------------------------------------------ roots

def _perfect(p: Poly):
    """q with q*q == p (plain polynomials), or None"""
    eng = core.ENG
    if p.is_const():
        c = p.const_value()
        if c < 0:
            return None
        a, b = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Poly.const(Fraction(a, b))
        return None
    f = eng.ring.factors.get(p)
    cands = []
    if f is not None:
        cands.append(f[1])
    if len(p.t) == 1:
        (m, _), = p.t.items()
        if all(x % 2 == 0 for _, x in m):
            cands.append(Poly({tuple((v, x // 2) for v, x in m): Fraction(1)}))
    for q in cands:
        sq = eng.ring.mul(q, q)
        if sq.t and len(sq.t) == len(p.t):
            l = sq.lead()
            if l in p.t:
                k = p.t[l] / sq.t[l]
                kk = _perfect(Poly.const(k))
                if kk is not None and sq.scale(k) == p:
                    return q.scale(kk.const_value())
    # k * f1^2 * f2^2 ...
    k, fac = eng.split(p)
    if all(x % 2 == 0 for x in fac.values()):
        kk = _perfect(Poly.const(k))
        if kk is not None:
            r = kk
            for g, x in fac.items():
                for _ in range(x // 2):
                    r = eng.ring.mul(r, g)
            return r
    return None


def sqrt(x):
    x = _num(x)
    if not _sym(x):
        return _m.sqrt(x)
    eng = core.ENG
    r = eng.drop_pi(x.r)
    x = SymFloat(r)
    if not r.num.t:
        return _c(0)
    if not is_nn(x):
        if not bool(compare(x, 0, '>=')):
            raise ValueError('math domain error')
    # N/D with square part of D split off: sqrt(N*Dodd)/ |Dall|
    num = r.num
    den = {}
    for f, e_ in r.den.items():
        if e_ % 2:
            num = eng.ring.mul(num, f)
            e_ += 1
        den[f] = e_ // 2
    q = _perfect(num)
    if q is not None:
        w = q.single_var()
        if w is not None and w in eng.defined and ('sqrt', eng.defined[w]) in eng.bykey:
            _root_bounds(w, eng.defined[w])
        top = do_abs(SymFloat(Rat(q)))
    else:
        top = _root(num)
    if not den:
        return top
    bot = SymFloat(Rat(P1))
    for f, e_ in den.items():
        for _ in range(e_):
            bot = bot * SymFloat(Rat(f))
    bot = do_abs(bot)
    return SymFloat(eng.div(top.r, bot.r))


def _root_bounds(vid, base):
    eng = core.ENG
    if vid not in eng.path.bounds:
        iv = eng.path.interval(base)
        if iv is not None:
            K = 10 ** 6
            lo, hi = max(iv[0], 0) * K * K, max(iv[1], 0) * K * K
            eng.path.bounds[vid] = (Fraction(_m.isqrt(int(lo)), K), Fraction(_m.isqrt(int(hi)) + 2, K))


def _root(p: Poly):
    """sqrt of a polynomial known >= 0 on this path"""
    eng = core.ENG
    c, s, lc = p.canon()
    scale = abs(lc)
    ks = _perfect(Poly.const(scale))
    if ks is None:
        # keep the coefficient inside so that the variable stays rational
        base, out = (p, Fraction(1))
    else:
        base, out = (c if s > 0 else -c), ks.const_value()
    v, fresh = eng.new_var(('sqrt', base), f'sqrt{len(eng.vars)}')
    if fresh:
        eng.ring.red[v.vid] = base
        d = lcm_den(base)
        z = eng.zpoly(base)
        v.axioms = [v.z >= 0, (v.z * v.z if d == 1 else d * (v.z * v.z)) == z]
        eng._nnvars = eng._nnvars | {v.vid}
        eng.nn.add(Poly.var(v.vid))
        eng.defined[v.vid] = base
    eng.use(v)
    _root_bounds(v.vid, base)
    return SymFloat(Rat(Poly.var(v.vid).scale(out)))


def hypot(*xs):
    xs = [_num(x) for x in xs]
    if not _sym(*xs):
        return _m.hypot(*xs)
    t = _c(0)
    for x in xs:
        sq = x * x
        if isinstance(sq, Sym):
            mark_nn(sq)
        t = t + sq
    mark_nn(t)
    return sqrt(t)


def dist(p, q):
    return hypot(*[a - b for a, b in zip(p, q)])


def isqrt(x):
    if not _sym(x):
        return _m.isqrt(x)
    raise Unsupported('isqrt')


def cbrt(x):
    if not _sym(x):
        return _m.cbrt(x)
    raise Unsupported('cbrt')


# ------------------------------------------------------------------ simple real functions

def _isfin(x):
    return True


def fabs(x):
    x = _num(x)
    if not _sym(x):
        return _m.fabs(x)
    y = do_abs(x)
    if y.isint:
        z = SymFloat(y.r)
        z.absof = y.absof
        return z
    return y


def floor(x):
    if hasattr(type(x), '__floor__') and not isinstance(x, (float, int)):
        return type(x).__floor__(x)
    return _m.floor(x)


def ceil(x):
    if isinstance(x, Sym):
        return -floor_of(-x)
    return _m.ceil(x)


def trunc(x):
    if isinstance(x, Sym):
        return trunc_of(x)
    return _m.trunc(x)


def fmod(x, y):
    x, y = _num(x), _num(y)
    if not _sym(x, y):
        return _m.fmod(x, y)
    if isinstance(y, float) and _m.isinf(y):
        return SymFloat(x.r)
    if bool(compare(y, 0, '==') if _sym(y) else y == 0):
        raise ValueError('math domain error')
    n = trunc_of(do_div(x, y))
    return SymFloat(lift(x - n * y))


def remainder(x, y):
    x, y = _num(x), _num(y)
    if not _sym(x, y):
        return _m.remainder(x, y)
    if bool(compare(y, 0, '==') if _sym(y) else y == 0):
        raise ValueError('math domain error')
    n = core.round_half_even(do_div(x, y))
    return SymFloat(lift(x - n * y))


def modf(x):
    if not _sym(x):
        return _m.modf(x)
    n = trunc_of(x)
    return (SymFloat(lift(x - n)), SymFloat(lift(n)))


def copysign(x, y):
    if not _sym(x, y):
        return _m.copysign(x, y)
    a = fabs(x)
    # the sign of a zero is not modelled: 0 counts as +0
    if bool(y >= 0 if not _sym(y) else compare(y, 0, '>=')):
        return a
    return -a


def radians(x):
    x = _num(x)
    if not _sym(x):
        return _m.radians(x)
    return SymFloat(core.ENG.mul(x.r, Rat(Poly.const(Fraction(1, 180)), None, 1)))


def degrees(x):
    x = _num(x)
    if not _sym(x):
        return _m.degrees(x)
    return SymFloat(core.ENG.mul(x.r, Rat(Poly.const(180), None, -1)))


def isfinite(x):
    return True if _sym(x) else _m.isfinite(x)


def isinf(x):
    return False if _sym(x) else _m.isinf(x)


def isnan(x):
    return False if _sym(x) else _m.isnan(x)


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not _sym(a, b, rel_tol, abs_tol):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = fabs(a - b)
    r1, r2 = rel_tol * fabs(a), rel_tol * fabs(b)
    return bool(b_or(d <= r1, d <= r2, d <= abs_tol))


def fsum(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def prod(xs, *, start=1):
    t = start
    for x in xs:
        t = t * x
    return t


def sumprod(p, q):
    t = 0
    for a, b in zip(p, q):
        t = t + a * b
    return t


def pow(b, e_):
    b, e_ = _num(b), _num(e_)
    if not _sym(b, e_):
        return _m.pow(b, e_)
    r = do_pow(b, e_, lambda msg: ValueError('math domain error'))
    if isinstance(r, Sym) and r.isint:
        return SymFloat(r.r)
    return float(r) if not isinstance(r, Sym) else r


# ------------------------------------------------------------------ exp / log

def exp(x):
    x = _num(x)
    if not _sym(x):
        y = _m.exp(x)
        if core.ENG is not None and core.ENG.path is not None and 0 < y < 1e100:
            p = core.ENG.path
            p.__dict__.setdefault('cexps', []).append((x, y))
            for (x2, V2) in p.__dict__.get('exps', []):
                _cexp(p, x, y, x2, V2)
        return y
    eng = core.ENG
    r = eng.drop_pi(x.r)
    if not r.num.t:
        return _c(1)
    lg = eng.__dict__.setdefault('log_of', {})
    if r.key() in lg:
        return lg[r.key()]
    # exp(q*log(y)) = y^q
    for k, y in lg.items():
        base = eng.__dict__['log_rat'][k]
        if not base.den and not r.den and len(base.num.t) == len(r.num.t):
            l = base.num.lead()
            if l in r.num.t:
                q = r.num.t[l] / base.num.t[l]
                if base.num.scale(q) == r.num and q.denominator == 1:
                    return do_pow(y, int(q), ZeroDivisionError)
    v, fresh = eng.new_var(('exp', r.key()), f'exp{len(eng.vars)}')
    x = SymFloat(r)
    V = _v(v)
    if fresh:
        eng._nnvars = eng._nnvars | {v.vid}
        eng.nn.add(Poly.var(v.vid))
        eng.__dict__.setdefault('exp_of', {})[v.vid] = x
    if v.vid not in eng.path.used:
        eng.path.used.add(v.vid)
        p = eng.path
        p.assume(V > 0)
        p.assume(b_and(core.b_iff(x > 0, V > 1), core.b_iff(x < 0, V < 1)))
        p.assume(V >= x + 1)
        for (x2, V2) in p.__dict__.setdefault('exps', []):
            p.assume(b_and(core.b_iff(x < x2, V < V2), core.b_iff(x > x2, V > V2)))
        p.exps.append((x, V))
        for (x2, V2) in p.__dict__.get('logs_', []):
            p.assume(b_and(core.b_iff(x < V2, V < x2), core.b_iff(x > V2, V > x2)))
        for (c, y) in p.__dict__.get('cexps', []):
            _cexp(p, c, y, x, V)
    return V


def _cexp(p, c, y, x, V):
    """y is exp(c) up to rounding; V = exp(x)"""
    p.assume(core.b_or(x > c, V <= y * (1 + 1e-15)))
    p.assume(core.b_or(x < c, V >= y * (1 - 1e-15)))


def log(x, base=None):
    if base is not None:
        if not _sym(x, base):
            return _m.log(x, base)
        return do_div(log(x), log(base))
    x = _num(x)
    if not _sym(x):
        return _m.log(x)
    eng = core.ENG
    if not bool(compare(x, 0, '>')):
        raise ValueError('math domain error')
    r = eng.drop_pi(x.r)
    sv = r.num.single_var() if not r.den else None
    if sv is not None and sv in eng.__dict__.get('exp_of', {}):
        return eng.exp_of[sv]
    if r.is_const() and r.num.const_value() == 1:
        return _c(0)
    if not r.den and len(r.num.t) == 1:
        (mono, c), = r.num.t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] > 1:
            base = SymFloat(Rat(Poly.var(mono[0][0])))
            m = mono[0][1]
            if m % 2 == 0 and bool(compare(base, 0, '<')):
                base = -base
            return m * log(base)
    v, fresh = eng.new_var(('log', r.key()), f'log{len(eng.vars)}')
    x = SymFloat(r)
    V = _v(v)
    eng.__dict__.setdefault('log_of', {})[V.r.key()] = x
    eng.__dict__.setdefault('log_rat', {})[V.r.key()] = V.r
    if v.vid not in eng.path.used:
        eng.path.used.add(v.vid)
        p = eng.path
        p.assume(b_and(core.b_iff(x > 1, V > 0), core.b_iff(x < 1, V < 0)))
        p.assume(V <= x - 1)
        for (x2, V2) in p.__dict__.setdefault('logs_', []):
            p.assume(b_and(core.b_iff(x < x2, V < V2), core.b_iff(x > x2, V > V2)))
        p.logs_.append((x, V))
        for (x2, V2) in p.__dict__.get('exps', []):
            p.assume(b_and(core.b_iff(x < V2, V < x2), core.b_iff(x > V2, V > x2)))
    return V


def expm1(x):
    return _m.expm1(x) if not _sym(x) else exp(x) - 1.0


def log1p(x):
    return _m.log1p(x) if not _sym(x) else log(x + 1.0)


def log2(x):
    return _m.log2(x) if not _sym(x) else do_div(log(x), _m.log(2))


def log10(x):
    return _m.log10(x) if not _sym(x) else do_div(log(x), _m.log(10))


def exp2(x):
    return _m.exp2(x) if not _sym(x) else pow(2.0, x)


# ------------------------------------------------------------------ trigonometry (in degrees)

def _deg(x):
    """degrees Rat of a radian value"""
    eng = core.ENG
    r = eng.mul(_R(x), Rat(Poly.const(180), None, -1))
    return r


def _cmul(a, b):
    """(c,s) of a sum of two angles"""
    return (a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1])


def _cpow(a, n):
    if n < 0:
        c, s = _cpow(a, -n)
        return (c, -s)
    r = None
    for _ in range(n):
        r = a if r is None else _cmul(r, a)
    return r if r is not None else (_c(1), _c(0))


def _const_cs(q: Fraction):
    """cos, sin of q degrees"""
    q = q % 360
    k, rem = divmod(q, 90)
    k = int(k)
    if rem == 0:
        cs = (_c(1), _c(0))
    elif rem == 30:
        cs = (sqrt(_c(3)) / 2, _c(Fraction(1, 2)))
    elif rem == 60:
        cs = (_c(Fraction(1, 2)), sqrt(_c(3)) / 2)
    elif rem == 45:
        h = sqrt(_c(2)) / 2
        cs = (h, h)
    else:
        eng = core.ENG
        cv, fresh = eng.new_var(('cc', rem), f'cosc{len(eng.vars)}')
        sv, _ = eng.new_var(('sc', rem), f'sinc{len(eng.vars)}')
        if fresh:
            f = float(rem) * _m.pi / 180
            C, S = Fraction(_m.cos(f)), Fraction(_m.sin(f))
            w = Fraction(1, 10 ** 13)
            cv.axioms = [cv.z >= z3.Q((C - w).numerator, (C - w).denominator),
                         cv.z <= z3.Q((C + w).numerator, (C + w).denominator)]
            sv.axioms = [sv.z >= z3.Q((S - w).numerator, (S - w).denominator),
                         sv.z <= z3.Q((S + w).numerator, (S + w).denominator),
                         cv.z * cv.z + sv.z * sv.z == 1]
            eng.ring.red[sv.vid] = P1 - eng.ring.mul(Poly.var(cv.vid), Poly.var(cv.vid))
            eng._nnvars = eng._nnvars | {cv.vid, sv.vid}
        eng.use(cv)
        eng.use(sv)
        cs = (_v(cv), _v(sv))
    for _ in range(k):
        cs = (-cs[1], cs[0])
    return cs


def _base_cs(m, d):
    """cos, sin of mono/d degrees"""
    eng = core.ENG
    known = eng.path.__dict__.setdefault('trig_known', {})     # mono -> (cRat, sRat)
    if d == 1 and m in known:
        c, s = known[m]
        return (SymFloat(c), SymFloat(s))
    key = (m, d)
    cv, fresh = eng.new_var(('cos',) + key, f'cos{len(eng.vars)}')
    sv, _ = eng.new_var(('sin',) + key, f'sin{len(eng.vars)}')
    if fresh:
        eng.ring.red[sv.vid] = P1 - eng.ring.mul(Poly.var(cv.vid), Poly.var(cv.vid))
        sv.axioms = [cv.z * cv.z + sv.z * sv.z == 1]
        eng.__dict__.setdefault('trig_vars', []).append((key, cv, sv))
    cs = (_v(cv), _v(sv))
    if cv.vid not in eng.path.used:
        eng.use(cv)
        eng.use(sv)
        bases = eng.path.__dict__.setdefault('bases', {}).setdefault(m, {})
        # link with other denominators already in use on this path
        if m in known:
            bases.setdefault(1, tuple(SymFloat(t) for t in known[m]))
        for d2, cs2 in list(bases.items()):
            if d % d2 == 0:
                a = _cpow(cs, d // d2)
                b = cs2
            elif d2 % d == 0:
                a = cs
                b = _cpow(cs2, d2 // d)
            else:
                g = _m.lcm(d, d2)
                a = _cpow(cs, d2)      # d2*mono/d ... equal multiples
                b = _cpow(cs2, d)
                del g
            eng.path.assume(compare(a[0], b[0], '=='))
            eng.path.assume(compare(a[1], b[1], '=='))
        bases[d] = cs
        th = SymFloat(Rat(Poly({m: Fraction(1, d)})))
        if eng.opts.get('quad', True):
            link_quadrant(th, cs, eng.opts.get('quad_turns', 1))
    return cs


def link_quadrant(th, cs, turns=1):
    """relate the value of an angle in (-180-360*turns', ...] to the signs of its cosine and sine"""
    p = core.ENG.path
    c, s = cs
    rng = range(-turns, turns + 1) if turns else (0,)
    imp = lambda a, b: p.assume(b_or(b_not(a), b))
    for k in rng:
        o = 360 * k
        imp(b_and(th > o, th < o + 180), s > 0)
        imp(b_and(th > o - 180, th < o), s < 0)
        imp(b_and(th > o - 90, th < o + 90), c > 0)
        imp(b_and(th > o + 90, th < o + 270), c < 0)
        imp(compare(th, o, '=='), b_and(compare(c, 1, '=='), compare(s, 0, '==')))
        imp(compare(th, o + 90, '=='), b_and(compare(c, 0, '=='), compare(s, 1, '==')))
        imp(compare(th, o - 90, '=='), b_and(compare(c, 0, '=='), compare(s, -1, '==')))
        imp(compare(th, o + 180, '=='), b_and(compare(c, -1, '=='), compare(s, 0, '==')))


def cs_deg(r):
    """(cos, sin) of a Rat in degrees"""
    eng = core.ENG
    if r.pik:
        r = eng.drop_pi(r)
    if r.den:
        v, fresh = eng.new_var(('angle', r.key()), f'ang{len(eng.vars)}')
        if v.vid not in eng.path.used:
            eng.path.used.add(v.vid)
            eng.path.assume(compare(_v(v), SymFloat(r), '=='))
        return _base_cs(((v.vid, 1),), 1)
    acc = None
    const = Fraction(0)
    for m, q in sorted(r.num.t.items()):
        if m == ():
            const += q
            continue
        if len(m) == 1 and m[0][1] == 1 and eng.vars[m[0][0]].kind == 'int' and (q / 360).denominator <= 24:
            if (q / 360).denominator == 1:
                continue
            # a fraction of a turn times an unknown integer: one path per value
            n = core.SymInt(core.Rat(Poly.var(m[0][0])))
            for k in range(9):
                if bool(compare(n, k, '==')):
                    break
                if k and bool(compare(n, -k, '==')):
                    k = -k
                    break
            else:
                raise Unsupported('turn fractions times an unbounded integer')
            const += q * k
            continue
        d = q.denominator
        if abs(q.numerator) > 24:
            # many turns of an input: no multiple-angle expansion, an angle of its own
            part = Rat(Poly({m: q}))
            v, fresh = eng.new_var(('angle', part.key()), f'ang{len(eng.vars)}')
            if v.vid not in eng.path.used:
                eng.path.used.add(v.vid)
                eng.path.assume(compare(_v(v), SymFloat(part), '=='))
            cs = _base_cs(((v.vid, 1),), 1)
        else:
            cs = _cpow(_base_cs(m, d), int(q.numerator))
        acc = cs if acc is None else _cmul(acc, cs)
    k = _const_cs(const)
    if acc is None:
        return k
    if const % 360 == 0:
        return acc
    return _cmul(acc, k)


def cos(x):
    x = _num(x)
    if not _sym(x):
        return _m.cos(x)
    return cs_deg(_deg(x))[0]


def sin(x):
    x = _num(x)
    if not _sym(x):
        return _m.sin(x)
    return cs_deg(_deg(x))[1]


def tan(x):
    x = _num(x)
    if not _sym(x):
        return _m.tan(x)
    c, s = cs_deg(_deg(x))
    if bool(compare(c, 0, '==')):
        # the double nearest to a right angle has a huge finite tangent
        raise Unsupported('tangent at a right angle')
    return do_div(s, c)


def _rad(v):
    """radian value of the degree variable v"""
    return SymFloat(Rat(Poly.var(v.vid).scale(Fraction(1, 180)), None, 1))


def _angle_var(key, name, c, s):
    """new degree variable whose cosine and sine are the given values"""
    eng = core.ENG
    v, fresh = eng.new_var(key, f'{name}{len(eng.vars)}')
    m = ((v.vid, 1),)
    known = eng.path.__dict__.setdefault('trig_known', {})
    known.setdefault(m, (c.r, s.r))
    return v


def _cs_key(c, s):
    """Rat key of an angle from its cosine"""
    return (c.r.key(), s.r.key())


def _link_inverse(v, c, s, lo, hi):
    """v is the angle of (c,s) in the given range; axioms on the current path"""
    eng = core.ENG
    p = eng.path
    if v.vid in p.used:
        return
    p.used.add(v.vid)
    th = _v(v)
    if not eng.opts.get('invtrig', True):
        p.assume(b_and(th >= lo, th <= hi))
        return
    iff = lambda a, b: p.assume(core.b_iff(a, b))
    if lo >= -180:
        p.assume(b_and(th >= lo, th <= hi))
        if lo == -180:
            p.assume(th > -180)
    # order-preserving facts
    if lo < 0:
        iff(s > 0, b_and(th > 0, th < 180))
        iff(s < 0, th < 0)
    else:
        iff(s > 0, b_and(th > 0, th < 180))
    iff(c > 0, b_and(th > -90, th < 90))
    iff(c < 0, b_or(th > 90, th < -90))
    p.assume(b_or(b_not(compare(th, 0, '==')), c > 0))
    # compare with the other inverse-trigonometric angles of this path
    mates = p.__dict__.setdefault('inv_angles', [])
    if eng.opts.get('inv_pairs', True):
        for (th2, c2, s2) in mates:
            d = th - th2
            cd, sd = c * c2 + s * s2, s * c2 - c * s2
            imp = lambda a, b: p.assume(b_or(b_not(a), b))
            imp(b_and(d > 0, d < 180), sd > 0)
            imp(b_and(d < 0, d > -180), sd < 0)
            imp(d > 180, sd < 0)
            imp(d < -180, sd > 0)
            imp(compare(d, 0, '=='), b_and(compare(sd, 0, '=='), cd > 0))
            imp(b_or(compare(d, 180, '=='), compare(d, -180, '==')), b_and(compare(sd, 0, '=='), cd < 0))
    mates.append((th, c, s))
    # other angle variables with the same direction are handled by the pair facts
    if eng.opts.get('inv_base', True):
        for m, ds in list(p.__dict__.get('bases', {}).items()):
            if 1 in ds and len(m) == 1:
                th2 = SymFloat(Rat(Poly({m: Fraction(1)})))
                c2, s2 = ds[1]
                d = th - th2
                cd, sd = c * c2 + s * s2, s * c2 - c * s2
                imp = lambda a, b: p.assume(b_or(b_not(a), b))
                imp(b_and(d > 0, d < 180), sd > 0)
                imp(b_and(d < 0, d > -180), sd < 0)
                imp(b_and(d > 180, d < 360), sd < 0)
                imp(b_and(d < -180, d > -360), sd > 0)
                imp(compare(d, 0, '=='), b_and(compare(sd, 0, '=='), cd > 0))
                imp(b_or(compare(d, 180, '=='), compare(d, -180, '==')), b_and(compare(sd, 0, '=='), cd < 0))
                imp(b_or(compare(d, 360, '=='), compare(d, -360, '==')), b_and(compare(sd, 0, '=='), cd > 0))


def _known_direction(c, s):
    """the angle in (-180, 180] of (c, s) when that is the direction of an angle already in use, or its opposite"""
    p = core.ENG.path
    for m, ds in p.__dict__.get('bases', {}).items():
        if 1 not in ds:
            continue
        c2, s2 = ds[1]
        for k, (c3, s3) in ((0, (c2, s2)), (180, (-c2, -s2))):
            if c.r.key() == c3.r.key() and s.r.key() == s3.r.key():
                th = SymFloat(Rat(Poly({m: Fraction(1)})))
                if k and bool(th > 0):
                    th = th - 180
                elif k:
                    th = th + 180
                if bool(b_and(th > -180, th <= 180)):
                    return th
                return th + 360 * floor_of(do_div(180 - th, 360))
    return None


def atan2(y, x):
    y, x = _num(y), _num(x)
    if not _sym(x, y):
        return _m.atan2(y, x)
    X, Y = SymFloat(_R(x)), SymFloat(_R(y))
    r2 = X * X + Y * Y
    mark_nn(r2)
    r = sqrt(r2)
    if bool(compare(r2, 0, '==')):
        return _c(0)            # signed zeros are not modelled
    # special directions give exact values
    zs = compare(Y, 0, '==')
    zk = zs if isinstance(zs, bool) else core.ENG.path.fact(zs.at)
    if zk is True:
        if bool(X > 0):
            return _c(0)
        return SymFloat(Rat(P1, None, 1))
    if r.absof is not None:
        q = r.absof
        r = q if bool(q >= 0) else -q
    c = SymFloat(core.ENG.div(X.r, r.r))
    s = SymFloat(core.ENG.div(Y.r, r.r))
    th = _known_direction(c, s)
    if th is not None:
        return SymFloat(core.ENG.mul(th.r, Rat(Poly.const(Fraction(1, 180)), None, 1)))
    v = _angle_var(('atan2', X.r.key(), Y.r.key()), 'at', c, s)
    _link_inverse(v, c, s, -180, 180)
    return _rad(v)


def atan(x):
    x = _num(x)
    if not _sym(x):
        return _m.atan(x)
    X = SymFloat(_R(x))
    return atan2(X, SymFloat(Rat(P1)))


def acos(x):
    x = _num(x)
    if not _sym(x):
        return _m.acos(x)
    X = SymFloat(core.ENG.drop_pi(x.r))
    if not bool(b_and(X >= -1, X <= 1)):
        raise ValueError('math domain error')
    q = 1 - X * X
    s = _sqrt_nonneg(q)
    v = _angle_var(('acos', X.r.key()), 'ac', X, s)
    _link_inverse(v, X, s, 0, 180)
    return _rad(v)


def asin(x):
    x = _num(x)
    if not _sym(x):
        return _m.asin(x)
    X = SymFloat(core.ENG.drop_pi(x.r))
    if not bool(b_and(X >= -1, X <= 1)):
        raise ValueError('math domain error')
    c = _sqrt_nonneg(1 - X * X)
    v = _angle_var(('asin', X.r.key()), 'as', c, X)
    _link_inverse(v, c, X, -90, 90)
    return _rad(v)


def _sqrt_nonneg(q):
    """sqrt of a value that is >= 0 by a condition already on the path"""
    eng = core.ENG
    r = q.r
    if not r.num.t:
        return _c(0)
    k = compare(q, 0, '>=')
    if isinstance(k, core.SymBool):
        eng.path.assume(k)
    return sqrt(q)


def _hyper(name):
    def f(x):
        if not _sym(x):
            return getattr(_m, name)(x)
        raise Unsupported('math.' + name)
    return f


def module():
    m = types.ModuleType('math')
    for n in dir(_m):
        if n.startswith('__'):
            continue
        g = globals().get(n)
        if g is not None and (callable(g) or isinstance(g, float)):
            setattr(m, n, g)
        else:
            o = getattr(_m, n)
            if callable(o):
                def wrap(*a, _o=o, _n=n, **k):
                    if _sym(*a):
                        raise Unsupported('math.' + _n)
                    return _o(*a, **k)
                setattr(m, n, wrap)
            else:
                setattr(m, n, o)
    return m
