"""Solver portfolio: each strategy runs in a forked child that is killed on time-out."""
from __future__ import annotations
import multiprocessing as mp
import os
import time
from fractions import Fraction

import z3

STATS = dict(portfolio_calls=0, portfolio_time=0.0, wins={})


def model_val(m, z, digits=30):
    """Fraction approximating the model's value of z (exact when rational)"""
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        a = v.approx(digits)
        return a.as_fraction()
    return Fraction(0)


def _z3_nlsat(fs, ms):
    s = z3.Then('simplify', 'propagate-values', 'purify-arith', 'qfnra-nlsat').solver()
    s.set('timeout', ms)
    s.add(*fs)
    return s


def _z3_default(fs, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*fs)
    return s


def _z3_solveeqs(fs, ms):
    s = z3.Then('simplify', 'solve-eqs', 'elim-uncnstr', 'simplify', 'qfnra-nlsat').solver()
    s.set('timeout', ms)
    s.add(*fs)
    return s


def _run_z3(kind, fs, ms, names):
    s = {'z3-nlsat': _z3_nlsat, 'z3-default': _z3_default, 'z3-solveeqs': _z3_solveeqs}[kind](fs, ms)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        return 'sat', {n: str(model_val(m, z)) for n, z in names.items()}
    return 'unknown', None


def _run_cvc5(fs, ms, names, cov):
    import cvc5
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption('tlimit', str(ms))
    slv.setOption('produce-models', 'true')
    if cov:
        slv.setOption('nl-cov', 'true')
        slv.setOption('nl-ext', 'none')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', ''), 'q')
    sm = p.getSymbolManager()
    res = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        out = c.invoke(slv, sm)
        t = str(out).strip()
        if 'error' in t:
            return 'unknown', None
        if t in ('sat', 'unsat', 'unknown'):
            res = t
            break
    if res == 'unsat':
        return 'unsat', None
    return 'unknown', None          # cvc5 models are not used


def _child(kind, fs, ms, names, conn):
    try:
        if kind.startswith('z3'):
            r = _run_z3(kind, fs, ms, names)
        else:
            r = _run_cvc5(fs, ms, names, kind == 'cvc5-cov')
    except BaseException as e:                  # noqa
        r = ('unknown', None)
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def portfolio(fs, seconds, names, kinds=('z3-nlsat', 'z3-default', 'cvc5-cov', 'z3-solveeqs')):
    """first definite verdict of several solvers on the conjunction of fs"""
    t0 = time.time()
    STATS['portfolio_calls'] += 1
    ctx = mp.get_context('fork')
    procs = []
    for k in kinds:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(k, fs, int(seconds * 1000), names, b), daemon=True)
        p.start()
        b.close()
        procs.append((k, p, a))
    res = ('unknown', None)
    live = list(procs)
    try:
        while live and time.time() - t0 < seconds + 1:
            for it in list(live):
                k, p, a = it
                if a.poll(0.005):
                    try:
                        r = a.recv()
                    except EOFError:
                        r = ('unknown', None)
                    live.remove(it)
                    if r[0] in ('sat', 'unsat'):
                        res = r
                        STATS['wins'][k] = STATS['wins'].get(k, 0) + 1
                        return res
                elif not p.is_alive():
                    live.remove(it)
            time.sleep(0.005)
        return res
    finally:
        for k, p, a in procs:
            if p.is_alive():
                p.kill()
            p.join()
            a.close()
        STATS['portfolio_time'] += time.time() - t0
