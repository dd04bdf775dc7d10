"""Obligations, their discharge, evidence and the command line of the checks.

A check is a list of harnesses.  A harness drives the abstract interpreter
over /repo's current source (never importing or executing it), obtains value
graphs and states obligations about them.  An obligation is discharged

  proved    the two value graphs have the same value number (GVN), or the
            boolean obligation's diagram is the constant true
  sampled   value numbers differ but random interpretation of the two graphs
            found no robust difference at any sampled point
  violated  random interpretation found a robust difference, or a structural
            rule (effect, store, raise, shape) does not hold
  undecided the analysis met a construct it has no abstraction for
"""
from __future__ import annotations
import json, os, signal, sys, time, traceback, warnings
import numpy as np
from . import terms as T
from .terms import S
from .values import *
from .interp import Interp, TooManyPaths, Infeasible, NativeMethod, same_value
from . import interp as _interp

REPO = os.environ.get('SA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'quick'


class Undecided(Exception):
    pass


class Timeout(Exception):
    pass


class Reject(Exception):
    """a structural violation found by a harness"""


def budget(tier=None):
    return (4, 512) if (tier or TIER) == 'quick' else (24, 1024)


def aslist(v):
    if isinstance(v, Arr):
        return [norm_scalar(x) for x in v.a.reshape(-1)]
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += aslist(x)
        return out
    if isinstance(v, (bool, np.bool_)):
        return [T.boolean(bool(v))]
    if isinstance(v, S):
        return [v]
    if v is None or isinstance(v, (str, Opaque, Obj, dict)):
        raise Reject(f'a number was expected, found {type_name(v)}')
    return [T.to_num(v)]


def shape(v):
    if isinstance(v, Arr):
        return v.a.shape
    if isinstance(v, (list, tuple)):
        return (len(v),) + (shape(v[0]) if v else ())
    return ()


def robust(R, bad, vals, g, tol=1e-6):
    """the points of `bad` whose values do not hang on rounding: evaluated in
    extended precision they come out the same and the premise still holds"""
    Q = R.twin()
    bad = bad & np.asarray(Q.val(g), bool)
    for v, x in vals:
        with np.errstate(all='ignore'):
            z = np.asarray(Q.val(v))
            if z.dtype == bool:
                bad = bad & (z == x)
            else:
                z = z.astype(float)
                near = np.abs(z - x) <= 0.1 * tol * (1 + np.abs(x))
                bad = bad & (near | (np.isnan(x) & np.isnan(z)) | (~np.isfinite(x) & ~np.isfinite(z)))
    return bad & ~Q.fragile


class Ob:
    """obligations stated on one trace"""

    def __init__(self, I, fix=None, regions=None):
        self.I = I
        self.res = []
        self.fix = fix
        self.given = None
        self.prefix = ''

    # -- results
    def put(self, name, rule, status, **kw):
        self.res.append(dict(name=self.prefix + name, rule=rule, status=status, **kw))

    def fail(self, name, detail, rule='structure', where=None):
        pc = self.I.pc
        if pc is not T.TRUE:
            hit = False
            for R in self.samplers():
                m = R.val(S(pc, True))
                if (np.asarray(m, bool) & ~R.fragile).any():
                    hit = True
                    break
            if not hit:
                self.put(name, rule, 'undecided', detail='path not reached by any sample: ' + detail)
                return
        self.put(name, rule, 'violated', detail=detail, where=where or self.I.where())

    def ok(self, name, rule='structure', detail=''):
        self.put(name, rule, 'proved', detail=detail)

    def check(self, cond, name, detail, rule='structure', where=None):
        if cond:
            self.ok(name, rule)
        else:
            self.fail(name, detail, rule, where)
        return cond

    # -- values
    def samplers(self):
        k, n = budget()
        for j in range(k):
            fx = self.fix(j, n) if callable(self.fix) else self.fix
            yield T.RI(n, SEED * 7919 + j, fx)

    def guard(self, given):
        g = T.S(self.I.pc, True)
        for x in (self.given, given):
            if x is not None:
                g = T.band(g, x)
        return g

    def eq(self, name, got, want, given=None, rule='equal', tol=1e-6, where=None):
        """got and want are the same value for every input (under `given`)"""
        if shape(got) != shape(want):
            self.fail(name, f'shape {shape(got)} instead of {shape(want)}', rule, where)
            return
        G, W = aslist(got), aslist(want)
        todo = [(k, a, b) for k, (a, b) in enumerate(zip(G, W)) if not T.to_num(a).d is T.to_num(b).d]
        g = self.guard(given)
        if g.const() is False:
            self.put(name, rule, 'proved', detail='vacuous: premise is false', n=len(G))
            return
        if not todo:
            self.put(name, rule, 'proved', n=len(G))
            return
        pts = 0
        for R in self.samplers():
            m = np.asarray(R.val(g), bool)
            for k, a, b in todo:
                with np.errstate(all='ignore'):
                    x, y = np.asarray(R.val(T.to_num(a)), float), np.asarray(R.val(T.to_num(b)), float)
                    bad = np.abs(x - y) > tol * (1 + np.maximum(np.abs(x), np.abs(y)))
                    bad |= np.isnan(x) != np.isnan(y)
                bad &= m & ~R.fragile & np.isfinite(y)
                if bad.any():
                    bad = robust(R, bad, [(T.to_num(a), x), (T.to_num(b), y)], g, tol)
                if bad.any():
                    i = int(np.argmax(bad))
                    self.put(name, rule, 'violated', where=where,
                             detail=f'element {k} of {len(G)}: {x[i]:.6g} where the property requires {y[i]:.6g}',
                             witness=self.witness(R, i, [a, b, g]), got=T.show_dec(T.to_num(a).d, 300), want=T.show_dec(T.to_num(b).d, 300))
                    return
            pts += int((m & ~R.fragile).sum())
        if pts == 0:
            self.put(name, rule, 'undecided', detail='premise not met by any sample')
        else:
            self.put(name, rule, 'sampled', points=pts, n=len(G))

    def iff(self, name, got, want, given=None, rule='same condition', where=None):
        if shape(got) != shape(want):
            self.fail(name, f'shape {shape(got)} instead of {shape(want)}', rule, where)
            return
        for x, y in zip(aslist(got), aslist(want)):
            self._bool(name, T.bnot(T.bxor(T.to_bool(x), T.to_bool(y))), given, rule, where,
                       lambda R, i, x=x, y=y: f'reported {bool(R.val(T.to_bool(x))[i])}, required {bool(R.val(T.to_bool(y))[i])}',
                       both=T.to_bool(y))

    def holds(self, name, cond, given=None, rule='always holds', where=None, detail=''):
        for c in aslist(cond):
            self._bool(name, T.to_bool(c), given, rule, where, lambda R, i: detail or 'does not hold')

    def _bool(self, name, cond, given, rule, where, say, both=None):
        g = self.guard(given)
        c = T.bor(T.bnot(g), cond)
        if c.const() is True:
            self.put(name, rule, 'proved')
            return
        pts = 0
        t = f = 0
        for R in self.samplers():
            m = np.asarray(R.val(g), bool)
            v = np.asarray(R.val(cond), bool)
            w = np.asarray(R.val(both), bool) if both is not None else None
            ok = m & ~R.fragile
            bad = ok & ~v
            if bad.any():
                bad = robust(R, bad, [(cond, v)], g)
            if bad.any():
                i = int(np.argmax(bad))
                self.put(name, rule, 'violated', where=where, detail=say(R, i),
                         witness=self.witness(R, i, [cond, g]))
                return
            pts += int(ok.sum())
            if w is not None:
                t += int((ok & w).sum())
                f += int((ok & ~w).sum())
        if pts == 0:
            self.put(name, rule, 'undecided', detail='premise not met by any sample')
        else:
            self.put(name, rule, 'sampled', points=pts, **({'true': t, 'false': f} if both is not None else {}))

    def le(self, name, a, b, given=None, rule='bounded', tol=1e-7, where=None):
        """a <= b (+ rounding)"""
        for x, y in zip(aslist(a), aslist(b)):
            d = T.sub(x, y)
            lo, hi = T.interval(d.d.val) if d.d.var is None else T.dec_interval(d.d)
            if hi <= 0 and self.guard(given).const() is True:
                self.put(name, rule, 'proved', detail=f'interval [{lo:.3g}, {hi:.3g}]')
                continue
            slack = T.add(T.flt(tol), T.mul(T.flt(tol), T.add(T.absv(x), T.absv(y))))
            self._bool(name, T.le(d, slack), given, rule, where,
                       lambda R, i, x=x, y=y: f'{float(R.val(x)[i]):.6g} exceeds {float(R.val(y)[i]):.6g}')

    def independent(self, name, v, names, given=None, rule='does not depend', where=None):
        """no path of the value graph reads the named inputs"""
        sup = T.support([T.to_num(x).d if not x.b else x.d for x in aslist(v)])
        hit = sorted({a.args[0] for a in sup.values() if a.args and isinstance(a.args[0], str) and any(a.args[0].startswith(n) for n in names)})
        if not hit:
            self.put(name, rule, 'proved', detail=f'{len(sup)} inputs read, none of {names}')
            return
        # syntactic dependence: look for a semantic one
        for R in self.samplers():
            fx = dict(R.fix)
            rr = np.random.RandomState(R.seed)
            R2 = T.RI(R.n, R.seed, {**fx, **{h: R.sample(h, 'real', -10, 10) * 0.37 + rr.uniform(-1, 1, R.n) for h in hit}})
            m = np.asarray(R.val(self.guard(given)), bool)
            for x in aslist(v):
                a, b = np.asarray(R.val(x), float), np.asarray(R2.val(x), float)
                bad = (np.abs(a - b) > 1e-6 * (1 + np.abs(a))) & m & ~R.fragile & ~R2.fragile
                if bad.any():
                    bad = robust(R, bad, [(x, a)], self.guard(given)) & robust(R2, bad, [(x, b)], self.guard(given))
                if bad.any():
                    i = int(np.argmax(bad))
                    self.put(name, rule, 'violated', where=where, detail=f'changes with {hit[:4]}: {a[i]:.6g} / {b[i]:.6g}',
                             witness=self.witness(R, i, [x]))
                    return
        self.put(name, rule, 'sampled', detail='mentions ' + ', '.join(hit[:4]))

    def witness(self, R, i, vals):
        out = {}
        for a in T.support([v.d for v in vals]).values():
            if a.op in ('sym', 'bsym') and len(out) < 40:
                out[a.args[0]] = float(np.asarray(R.atom(a), float)[i])
        return out


def run_harness(fn, args=(), limit=48, fix=None, seconds=400):
    """all traces of one harness -> (obligations, stats)"""
    res, stats = [], dict(paths=0, functions={}, calls=0, steps=0, stale=[])
    work = [[]]
    t0 = time.time()

    def alarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(seconds))
    try:
        while work:
            prefix = work.pop()
            I = Interp(REPO, prefix)
            ob = Ob(I, fix)
            try:
                fn(I, ob, *args)
            except Infeasible:
                continue
            except PyRaise as e:
                ob.fail('raises', f'the analysed program raises {e}', 'no exception', where=e.where)
            except Reject as e:
                ob.fail('structure', str(e))
            except (Unmodelled, Undecided, T.Overflow) as e:
                ob.put('analysis', 'abstraction', 'undecided', detail=f'{type(e).__name__}: {e}')
            for i in range(len(prefix), len(I.taken)):
                work.append([t[1] for t in I.taken[:i]] + [not I.taken[i][1]])
            res += ob.res
            stats['paths'] += 1
            stats['steps'] += I.steps
            stats['functions'].update(I.visited)
            if any(r['status'] == 'violated' for r in ob.res):
                break
            if stats['paths'] + len(work) > limit:
                ob.put('paths', 'trace partitioning', 'undecided', detail=f'more than {limit} traces; branches at ' + '; '.join(sorted({str(t[2]) for t in I.taken})[:6]))
                res.append(ob.res[-1])
                break
    except Timeout:
        res.append(dict(name='analysis', rule='time', status='undecided', detail=f'time limit of {seconds} s'))
    except (RecursionError, MemoryError) as e:
        res.append(dict(name='analysis', rule='abstraction', status='undecided', detail=repr(e)[:200]))
    except Exception as e:   # a gap of the analyser, not of the program
        res.append(dict(name='analysis', rule='abstraction', status='undecided', detail='analyser: ' + ''.join(traceback.format_exception(e))[-1500:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    stats['wall'] = round(time.time() - t0, 2)
    return res, stats


def _task(t):
    global TIER
    i, title, fn, args, kw, TIER = t
    warnings.simplefilter('ignore')
    T.reset()
    res, stats = run_harness(fn, args, **kw)
    return i, title, res, stats


class Check:
    def __init__(self, prop, title, rules, level='other', assumptions=(), notes=''):
        self.prop, self.title, self.rules, self.level = prop, title, rules, level
        self.assumptions = list(assumptions)
        self.tasks = []
        self.notes = notes

    def add(self, title, fn, *args, tier='quick', **kw):
        self.tasks.append((title, fn, args, kw, tier))
        return self

    def run(self, tier, only=None, jobs=8, verbose=False):
        t0 = time.time()
        tasks = [(i, t[0], t[1], t[2], t[3], tier) for i, t in enumerate(self.tasks)
                 if (tier == 'thorough' or t[4] == 'quick') and (not only or only in t[0])]
        out = []
        if jobs > 1 and len(tasks) > 1:
            import multiprocessing as mp
            with mp.get_context('fork').Pool(min(jobs, len(tasks)), maxtasksperchild=4) as pool:
                for r in pool.imap_unordered(_task, tasks, 1):
                    out.append(r)
        else:
            out = [_task(t) for t in tasks]
        out.sort(key=lambda r: r[0])
        return self.report(out, tier, time.time() - t0, verbose, only)

    def report(self, out, tier, wall, verbose=False, only=None):
        known = load_known(self.prop)
        cnt = dict(proved=0, sampled=0, violated=0, undecided=0)
        fns, viol, und, knownhit, pts, paths, steps = {}, [], [], [], 0, 0, 0
        per = []
        for i, title, res, stats in out:
            paths += stats['paths']
            steps += stats['steps']
            fns.update(stats['functions'])
            c = dict(proved=0, sampled=0, violated=0, undecided=0)
            for r in res:
                if r['status'] == 'violated':
                    k = next((k for k in known if k['harness'] == title and k['obligation'] == r['name']), None)
                    if k is not None:
                        knownhit.append((k, r))
                        continue
                    viol.append((title, r, stats))
                elif r['status'] == 'undecided':
                    und.append((title, r))
                pts += r.get('points', 0)
                cnt[r['status']] += 1
                c[r['status']] += 1
            per.append(dict(harness=title, wall_s=stats['wall'], traces=stats['paths'], **c))
            if verbose:
                print(f'  {title}: {c} {stats["wall"]}s traces={stats["paths"]}')
                for r in res:
                    if r['status'] in ('violated', 'undecided') or verbose > 1:
                        print('     ', r['status'], r['name'], r.get('detail', '')[:1500], r.get('points', ''), {k: r[k] for k in ('true', 'false') if k in r})
        total = sum(cnt.values())
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=tier, seed=SEED, level=self.level, wall_s=round(wall, 2), violations=len(viol),
                  assumptions=self.assumptions,
                  coverage=dict(
                      explanation=f'{self.title}. ' + self.notes,
                      rules=self.rules, harnesses=len(out), obligations=total, discharged=cnt['proved'] + cnt['sampled'],
                      proved_by_value_numbering=cnt['proved'], by_random_interpretation=cnt['sampled'], sample_points=pts,
                      undecided=cnt['undecided'], undecided_detail=[f'{t}: {r["name"]}: {r.get("detail","")[:300]}' for t, r in und][:20],
                      traces_analysed=paths, statements_interpreted=steps, functions_analysed=len(fns),
                      functions=[f'{k} ({v})' for k, v in sorted(fns.items()) if not k.startswith('spec')][:120],
                      known_findings=[k['what'] for k, _ in knownhit], samples=per[:60]))
        path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop} [{tier}] {self.title}: {len(out)} harnesses, {total} obligations: {cnt["proved"]} proved, '
              f'{cnt["sampled"]} by random interpretation ({pts} points), {cnt["undecided"]} undecided; '
              f'{len(fns)} functions, {paths} traces, {wall:.1f} s')
        for k in {k['what']: k for k, _ in knownhit}.values():
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        for t, r in und[:10]:
            print(f'UNDECIDED {t}: {r["name"]}: {r.get("detail", "")[:300]}')
        if viol:
            rp = os.path.join(VERIF, 'evidence', f'{self.prop}.violation.json')
            with open(rp, 'w') as f:
                json.dump([dict(harness=t, analysed=sorted(f'{k} ({v})' for k, v in s['functions'].items() if not k.startswith('spec')), **r) for t, r, s in viol[:20]], f, indent=1, default=str)
            for t, r, s in viol[:8]:
                print(f'  broken: {t}: {r["name"]} [{r["rule"]}]: {r.get("detail", "")[:400]}' + (f'  at {r["where"]}' if r.get('where') else ''))
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        if not out or total == 0 or cnt['proved'] + cnt['sampled'] < 1 or (cnt['undecided'] * 2 > total and not only):
            print(f'ANALYSIS-BROKEN property={self.prop}: {cnt["undecided"]} of {total} obligations undecided')
            return 2
        return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == prop]
