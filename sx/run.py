"""Path exploration of one case and the solver verdicts on its assertions."""
from __future__ import annotations
import json
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core, loader, solve, symmath
from .core import (Engine, Path, EngineStop, Infeasible, Unsupported, Budget, Violated, SymBool,
                   quick_solve, sneg)
from .ctx import SymCtx, ConcCtx, ReplayStop, CASES


class Alarm(core.EngineStop):
    pass


def _on_alarm(sig, frm):
    raise Alarm('path time limit')


class FnTracer:
    """names of the library functions the symbolic runs executed"""

    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(loader.SRC):
                self.seen.add(os.path.basename(co.co_filename)[:-3] + '.' + co.co_qualname)
        return None


class Run:
    def __init__(self, case, tier, seed, known=()):
        self.case = case
        self.tier = tier
        self.seed = seed
        self.known = known
        o = dict(case.opts)
        self.opts = o
        self.budget = o.get('budget', 150 if tier == 'quick' else 900)
        self.margin = o.get('margin', 1e-3)
        self.qms = o.get('qms', 2500 if tier == 'quick' else 6000)
        self.hard_s = o.get('hard_s', 25 if tier == 'quick' else 120)
        self.used_inputs = set()
        self.choices = {}
        self.labels = {}
        self.paths = 0
        self.complete = 0
        self.infeasible = 0
        self.inconclusive = []
        self.spurious = []
        self.violation = None
        self.known_hits = []
        self.q = dict(total=0, trivial=0, unsat=0, sat=0, unknown=0, time=0.0)
        self.witnesses = []
        self.wit_bad = []
        self.tr = FnTracer()

    # ------------------------------------------------------------ exploration
    def explore(self):
        eng = Engine(self.opts)
        core.ENG = eng
        t0 = time.time()
        eng.deadline = t0 + self.budget
        self.eng = eng
        work = [[]]
        signal.signal(signal.SIGALRM, _on_alarm)
        max_paths = self.opts.get('max_paths', 200000)
        while work and self.violation is None:
            if time.time() > eng.deadline or self.paths >= max_paths:
                self.inconclusive.append(dict(what='exploration budget', left=len(work)))
                break
            prefix = work.pop()
            p = Path(eng, prefix)
            eng.path = p
            eng.nn = set()          # what is known >= 0 is known on this path only
            self.choices = {}
            self.paths += 1
            ctx = SymCtx(self)
            exc = None
            lim = self.opts.get('path_s', 60 if self.tier == 'quick' else 240)
            signal.setitimer(signal.ITIMER_REAL, lim)
            try:
                if self.paths <= 40 or self.paths % 25 == 0:
                    sys.setprofile(self.tr)
                try:
                    self.case.fn(ctx)
                    self.complete += 1
                finally:
                    sys.setprofile(None)
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Infeasible:
                self.infeasible += 1
            except Violated:
                pass
            except Alarm as e:
                self.on_hang(e)
            except EngineStop as e:
                self.inconclusive.append(dict(what=type(e).__name__ + ': ' + str(e)))
            except z3.Z3Exception as e:
                self.inconclusive.append(dict(what='z3: ' + str(e)[:80]))
            except RecursionError:
                self.inconclusive.append(dict(what='recursion'))
            except Exception as e:
                exc = e
            if exc is not None:
                try:
                    self.on_exception(exc)
                except Violated:
                    pass
                except EngineStop:
                    pass
            work += p.alts
        self.wall = time.time() - t0
        return self.result()

    # ------------------------------------------------------------ verdicts
    def names(self):
        return {n: v.z for n, v in self.eng.inputs.items()}

    def solve_neg(self, cons, neg):
        """verdict of cons & neg"""
        t = time.time()
        self.q['total'] += 1
        # a subset without the far-away constraints is enough for unsat
        r, m = quick_solve(cons + [neg], self.qms)
        vals = None
        if r == 'unknown':
            signal.setitimer(signal.ITIMER_REAL, 0)
            left = max(3.0, min(self.hard_s, self.eng.deadline - time.time()))
            rel = relevant(cons, neg)
            r = 'unknown'
            if rel is not None and len(rel) < len(cons):
                r, _ = solve.portfolio(rel + [neg], left / 3, {})
                if r == 'sat':
                    r = 'unknown'
            if r == 'unknown':
                r, vals = solve.portfolio(cons + [neg], left, self.names())
        self.q[r] += 1
        self.q['time'] += time.time() - t
        if m is not None:
            vals = self.model_vals(m)
        elif vals is not None:
            vals = {k: Fraction(v) for k, v in vals.items()}
        return r, vals

    def model_vals(self, m):
        return {n: solve.model_val(m, v.z) for n, v in self.eng.inputs.items()}

    def on_check(self, ctx, label, cond):
        rec = self.labels.setdefault(label, dict(held=0, trivial=0, unknown=0, witness=0, spurious=0))
        path = self.eng.path
        if cond is True:
            rec['held'] += 1
            rec['trivial'] += 1
            self.q['total'] += 1
            self.q['trivial'] += 1
            self.witness(label, rec, path)
            return
        if cond is False:
            neg = z3.BoolVal(True)
            sn = None
        else:
            k = path.fact(cond.at)
            if k is True:
                rec['held'] += 1
                rec['trivial'] += 1
                self.q['total'] += 1
                self.q['trivial'] += 1
                self.witness(label, rec, path)
                return
            neg = z3.Not(cond.f)
            sn = cond.sn
        r, vals = self.solve_neg(path.cons, neg)
        if r == 'unsat':
            rec['held'] += 1
            if isinstance(cond, SymBool):
                path.learn(cond.at)
            self.witness(label, rec, path)
            return
        if r == 'sat':
            if self.counterexample(label, path.cons, neg, sn, vals):
                raise Violated()
            rec['spurious'] += 1
            self.spurious.append(dict(label=label, inputs={k: str(float(v)) for k, v in (vals or {}).items()},
                                      choices=dict(self.choices)))
            if cond is False:
                raise Infeasible()
            return
        # undecided: a concrete counterexample may still be found on slices of the input space
        if self.slices(label, path.cons, neg, sn):
            raise Violated()
        rec['unknown'] += 1
        self.inconclusive.append(dict(what='unknown', label=label, choices=dict(self.choices)))

    def on_exception(self, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f for f in tb if f.filename.startswith(loader.SRC)]
        label = f'no-exception({type(exc).__name__})'
        rec = self.labels.setdefault(label, dict(held=0, trivial=0, unknown=0, witness=0, spurious=0))
        self.last_exc = (repr(exc), f'{where[-1].filename}:{where[-1].lineno}' if where else
                         f'{tb[-1].filename}:{tb[-1].lineno}' if tb else '')
        path = self.eng.path
        r, vals = self.solve_neg(path.cons, z3.BoolVal(True))
        if r == 'unsat':
            self.infeasible += 1
            return
        if r == 'sat' and self.counterexample(label, path.cons, z3.BoolVal(True), None, vals):
            return
        if r == 'unknown' and self.slices(label, path.cons, z3.BoolVal(True), None):
            return
        rec['spurious'] += 1
        self.spurious.append(dict(label=label, exc=self.last_exc, choices=dict(self.choices),
                                  inputs={k: str(float(v)) for k, v in (vals or {}).items()}))

    def on_hang(self, e):
        """the path did not finish in its time: a real hang shows on replay too"""
        path = self.eng.path
        label = 'terminates'
        self.labels.setdefault(label, dict(held=0, trivial=0, unknown=0, witness=0, spurious=0))
        try:
            signal.setitimer(signal.ITIMER_REAL, 60)
            r, vals = self.solve_neg(path.cons, z3.BoolVal(True))
            if r == 'sat' and self.counterexample(label, path.cons, z3.BoolVal(True), None, vals):
                return
        except (EngineStop, z3.Z3Exception):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.inconclusive.append(dict(what='path time limit'))

    # ------------------------------------------------------------ counterexamples
    def counterexample(self, label, cons, neg, sn, vals):
        """find replayable inputs for a satisfiable violation; True if one reproduces"""
        signal.setitimer(signal.ITIMER_REAL, 0)
        tried = set()
        t_end = time.time() + self.opts.get('cex_s', 40)
        ins = self.eng.inputs
        box = []
        for n, v in ins.items():
            if n in self.used_inputs:
                box.append(z3.And(v.z >= -50, v.z <= 50))
        trig = self.trig_grid()
        goals = []
        for g in ([sn] if sn is not None else []) + [neg]:
            for extra in ([trig] if trig is not None else []) + [None]:
                for b in (box, []):
                    goals.append([g] + ([extra] if extra is not None else []) + b)
        if vals is not None:
            if self.try_vals(label, vals, tried):
                return True
        for g in goals:
            if time.time() > t_end:
                break
            q = cons + g
            r, m = quick_solve(q, 3000)
            if r != 'sat':
                if r == 'unknown' and time.time() < t_end - 6:
                    r, vs = solve.portfolio(q, 6, self.names())
                    if r == 'sat':
                        if self.try_vals(label, {k: Fraction(v) for k, v in vs.items()}, tried):
                            return True
                continue
            for vs in self.nice(q, m, t_end):
                if self.try_vals(label, vs, tried):
                    return True
        return self.spread(label, cons, sn if sn is not None else neg, tried, t_end)

    def spread(self, label, cons, g, tried, t_end):
        """the models found do not reproduce: ask for models in other parts of the input ranges"""
        import random
        rnd = random.Random(self.seed)
        rs = self.eng.ranges
        ins = [n for n in sorted(self.used_inputs) if n in self.eng.inputs and None not in rs.get(n, (None,))]
        for k in range(24):
            if not ins or time.time() > t_end:
                return False
            box = []
            for n in rnd.sample(ins, min(len(ins), rnd.choice([1, 2, 3, 99]))):
                lo, hi = (Fraction(b) for b in rs[n])
                parts = rnd.choice([2, 4])
                j = rnd.randrange(parts)
                a, b = lo + (hi - lo) * j / parts, lo + (hi - lo) * (j + 1) / parts
                z = self.eng.inputs[n].z
                box += [z >= z3.Q(a.numerator, a.denominator), z <= z3.Q(b.numerator, b.denominator)]
            r, m = quick_solve(cons + [g] + box, 1000)
            if r == 'sat' and self.try_vals(label, self.model_vals(m), tried):
                return True
        return False

    def nice(self, q, m, t_end):
        """models of q with short input values, best first"""
        ins = {n: v for n, v in self.eng.inputs.items() if n in self.used_inputs}
        v0 = self.model_vals(m)
        for g in (1, 2, 4, 16, 256, 65536):
            vs = dict(v0)
            eqs = []
            for n, v in ins.items():
                x = Fraction(round(v0[n] * g), g)
                vs[n] = x
                eqs.append(v.z == (z3.IntVal(int(x)) if v.kind == 'int' else z3.Q(x.numerator, x.denominator)))
            r, _ = quick_solve(q + eqs, 1000)
            if r == 'sat':
                yield vs
            if time.time() > t_end:
                return
        # one variable at a time
        cur = list(q)
        vs = dict(v0)
        mm = m
        for n, v in ins.items():
            base = solve.model_val(mm, v.z)
            done = False
            for g in (1, 2, 8, 1024):
                x = Fraction(round(base * g), g)
                e = v.z == (z3.IntVal(int(x)) if v.kind == 'int' else z3.Q(x.numerator, x.denominator))
                r, m2 = quick_solve(cur + [e], 700)
                if r == 'sat':
                    cur.append(e)
                    mm = m2
                    vs[n] = x
                    done = True
                    break
                if time.time() > t_end:
                    break
            if not done:
                vs[n] = solve.model_val(mm, v.z)
        for n, v in ins.items():
            vs[n] = solve.model_val(mm, v.z)
        yield vs
        yield v0

    def trig_grid(self):
        """inputs used as angles are put on directions with exact sines and cosines"""
        tv = [t for t in self.eng.__dict__.get('trig_vars', []) if t[1].vid in self.eng.path.used]
        if not tv:
            return None
        r2, r3 = z3.Real('rt2'), z3.Real('rt3')
        out = [r2 > 0, r2 * r2 == 2, r3 > 0, r3 * r3 == 3]
        q = z3.Q
        base = {0: (z3.RealVal(1), z3.RealVal(0)), 30: (r3 / 2, q(1, 2)), 45: (r2 / 2, r2 / 2), 60: (q(1, 2), r3 / 2)}
        for (m, d), cv, sv in tv:
            if len(m) != 1 or m[0][1] != 1:
                continue
            v = self.eng.vars[m[0][0]]
            alts = []
            for k in range(-8, 8):
                for a, (c, s) in base.items():
                    deg = a + 90 * k
                    cs = (c, s)
                    for _ in range(k % 4):
                        cs = (-cs[1], cs[0])
                    alts.append(z3.And(v.zr == deg * d, cv.z == cs[0], sv.z == cs[1]))
            out.append(z3.Or(*alts))
        return z3.And(*out)

    def slices(self, label, cons, neg, sn):
        """the full query was undecided: fix some inputs and ask again"""
        ins = [n for n in sorted(self.used_inputs) if n in self.eng.inputs]
        if not ins or time.time() > self.eng.deadline:
            return False
        import random
        rnd = random.Random(self.seed)
        tried = set()
        t_end = min(self.eng.deadline, time.time() + self.opts.get('slice_s', 12))
        g = sn if sn is not None else neg
        k = 0
        while time.time() < t_end and k < 40:
            k += 1
            fix = rnd.sample(ins, max(1, len(ins) - rnd.choice([1, 2, 2, 3])))
            eqs = []
            for n in fix:
                v = self.eng.inputs[n]
                x = rnd.choice([-3, -2, -1, 0, 1, 2, 3, 5, 10])
                eqs.append(v.z == x)
            r, m = quick_solve(cons + [g] + eqs, 700)
            if r == 'sat':
                for vs in self.nice(cons + [g] + eqs, m, t_end):
                    if self.try_vals(label, vs, tried):
                        return True
        return False

    def try_vals(self, label, vals, tried):
        key = tuple(sorted((n, float(v)) for n, v in vals.items()))
        if key in tried:
            return False
        tried.add(key)
        vs = {n: (int(v) if self.eng.inputs[n].kind == 'int' else float(v)) for n, v in vals.items()
              if n in self.eng.inputs}
        out = concrete(self.case, vs, dict(self.choices), 10)
        if out['bad']:
            hit = dict(case=self.case.name, label=label, inputs=out['used'], raw={k: (v if isinstance(v, int) else float(v).hex()) for k, v in vs.items()},
                       choices=dict(self.choices), failed=out['failed'], exc=out.get('exc'))
            for kn in self.known:
                if kn.get('case') == self.case.name and kn.get('label') in (label, *out['failed']):
                    self.known_hits.append((kn, hit))
                    return True
            self.violation = hit
            return True
        return False

    # ------------------------------------------------------------ vacuity
    def witness(self, label, rec, path):
        if rec['witness'] >= self.opts.get('wit', 2):
            return
        rec.setdefault('wtry', 0)
        if rec['wtry'] >= 6:
            return
        rec['wtry'] += 1
        trig = self.trig_grid()
        box = [z3.And(v.z >= -50, v.z <= 50) for n, v in self.eng.inputs.items() if n in self.used_inputs]
        for extra in (box + ([trig] if trig is not None else []), [trig] if trig is not None else [], box, []):
            r, m = quick_solve(path.cons + extra, 1500)
            if r == 'sat':
                break
        else:
            return
        for vs in self.nice(path.cons + extra, m, time.time() + 5):
            v2 = {n: (int(v) if self.eng.inputs[n].kind == 'int' else float(v)) for n, v in vs.items()}
            out = concrete(self.case, v2, dict(self.choices), 10)
            if out['stop']:
                continue
            if out['bad']:
                if label in out['failed'] or out.get('exc'):
                    self.wit_bad.append(dict(label=label, inputs=out['used'], failed=out['failed'], exc=out.get('exc'),
                                             choices=dict(self.choices)))
                    continue
            if label in out['reached']:
                rec['witness'] += 1
                self.witnesses.append(dict(label=label, inputs=out['used']))
                return

    def result(self):
        e = self.eng.stats
        return dict(case=self.case.name, paths=self.paths, complete=self.complete, infeasible=self.infeasible,
                    labels=self.labels, queries=self.q, stats=e, inconclusive=self.inconclusive,
                    spurious=self.spurious, violation=self.violation,
                    known=[k for k, _ in self.known_hits], witnesses=self.witnesses, wit_bad=self.wit_bad,
                    functions=sorted(self.tr.seen), wall=self.wall, portfolio=solve.STATS,
                    inputs=sorted(self.used_inputs), ranges=self.eng.ranges)


def relevant(cons, neg):
    """constraints connected to neg through shared variables, one hop"""
    def vs(f, cache={}):
        seen, out, st = set(), set(), [f]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            st += e.children()
        return out
    cur = vs(neg)
    if not cur:
        return None
    return [c for c in cons if vs(c) <= cur]


class HangError(BaseException):
    pass


def concrete(case, vals, choices, seconds, lib=None):
    """run the harness on concrete inputs against a plain copy of the library"""
    eng = core.ENG
    old = signal.getsignal(signal.SIGALRM)

    def h(s, f):
        raise HangError()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    c = None
    out = dict(bad=False, stop=False, failed=[], reached=[], used={})
    try:
        c = ConcCtx(vals, choices, lib if lib is not None else loader.Lib(symbolic=False))
        case.fn(c)
    except ReplayStop:
        out['stop'] = True
    except HangError:
        out['bad'] = True
        out['exc'] = 'did not return within %d s' % seconds
    except EngineStop as e:
        out['stop'] = True
    except Exception as e:
        out['bad'] = True
        tb = traceback.extract_tb(e.__traceback__)
        out['exc'] = f'{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        core.ENG = eng
    if c is not None:
        out['failed'] = c.failed
        out['reached'] = c.reached
        out['used'] = c.used
        if c.failed and not out['stop']:
            out['bad'] = True
        if c.failed and out['stop']:
            out['bad'] = True       # the assertion failed before a later assumption cut the run
    return out
