"""Projection of controls onto the safe set: C27."""
from __future__ import annotations
from sa import terms as T
from sa.lab import *
from sa.values import *
from sa.drive import *

KINDS = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1))


def solved(I, ob, R, q, u, tag=''):
    """the problem handed to the solver"""
    at = len(I.minimize_log)
    out = R('project_control_to_safe_set', q, u)
    log = I.minimize_log[at:]
    ob.check(len(log) == 1, tag + 'one problem is solved', f'{len(log)} problems', rule='projection problem')
    return out, (log[0] if len(log) == 1 else None)


def conditions(I, ob, log, v):
    """what the solver is asked to keep, at control v"""
    cons = log['constraints']
    many = list(cons) if isinstance(cons, (list, tuple)) else [cons]
    ok = T.boolean(True)
    for c in many:
        if isinstance(c, dict):
            f, kind, args = c['fun'], c['type'], c.get('args', ())
            vals = aslist(mkarr(I.call(f, [v] + list(args))))
            for x in vals:
                ok = T.band(ok, T.ge(x, 0) if kind == 'ineq' else T.eq(x, 0))
        else:
            a, k = c.d['args'], c.d['kwargs']
            f, lo, hi = [a[i] if len(a) > i else k.get(n, d) for i, (n, d) in enumerate((('fun', None), ('lb', float('-inf')), ('ub', float('inf'))))]
            vals = aslist(mkarr(I.call(f, [v])))
            for x, l, h in zip(vals, *[aslist(b) if isinstance(b, (Arr, list)) else [b] * len(vals) for b in (lo, hi)]):
                for cond, bound in ((T.ge, l), (T.le, h)):
                    b = T.to_num(bound)
                    if b.const() is not None:
                        ok = T.band(ok, cond(x, b))
    return ok


def problem(I, ob, name, n, nc, nr):
    R = Rig(I, name, n=n, enable_projection=True)
    cs, rs = R.obstacles(nc, nr)
    q, u = R.q(), R.u()
    _, log = solved(I, ob, R, q, u)
    if log is None:
        return
    a, b = [mkarr([T.sym(f'{t}.0', -1, 1), T.sym(f'{t}.1', -1, 1)], True) for t in 'ab']
    d2 = lambda v: T.add(*[T.mul(T.sub(x, y), T.sub(x, y)) for x, y in zip(aslist(v), aslist(u))])
    f = lambda v: T.to_num(unwrap0(I.call(log['fun'], [v] + list(log['args']))))
    ob.iff('of two controls the one nearer to the request is preferred', T.lt(f(a), f(b)), T.lt(d2(a), d2(b)), rule='projection problem')
    bounds = log['bounds']
    if isinstance(bounds, tuple) and len(bounds) == 3 and bounds[0] == 'bounds':
        lo, hi = mkarr(bounds[1]).a.reshape(-1), mkarr(bounds[2]).a.reshape(-1)
        lim = [(lo[i % lo.size], hi[i % hi.size]) for i in range(2)]
    else:
        lim = [tuple(I.iterate(x)) for x in I.iterate(bounds)] if bounds is not None else []
    ob.check([tuple(T.to_num(x).const() for x in p) for p in lim] == [(-1, 1)] * 2, 'controls are searched within the actuator range', f'{lim}', rule='projection problem')
    sp = specs(I)
    nxt = sp('move', R.P, name, n, q, a)
    safe = T.bnot(sp('collides', R.P, name, n, R.kin(nxt), cs, rs))
    if name != 'kinematic_bicycle2d':
        safe = T.band(safe, T.bnot(sp('jackknifed', R.P, name, n, R.kin(nxt))))
    ob.iff('the controls allowed are those whose next state is safe', conditions(I, ob, log, a), safe, rule='projection problem')
    ob.le('the search starts within the actuator range', ew(T.absv, mkarr(log['x0'])), mkarr([T.num(1)] * 2), rule='projection problem')


def result(I, ob, name, n, broken):
    R = Rig(I, name, n=n, enable_projection=True)
    R.obstacles(1, 1)
    q, u = R.q(), R.u()
    if broken:
        def fail(*a, **k):
            raise PyRaise(RuntimeError('solver'), I.where())
        I.libs['scipy'].d['optimize'].d['minimize'] = fail
        ob.eq('a failing solver leaves the request', R('project_control_to_safe_set', q, u), u, rule='projection result')
        return
    out, log = solved(I, ob, R, q, u)
    ok = T.bsym(f"solver-success:{log['n']}")
    ob.eq('the solution is used exactly when there is one', out, mkarr([T.ite(ok, x, y) for x, y in zip(aslist(log['x']), aslist(u))]), rule='projection result')


def off(I, ob, name, n):
    R = Rig(I, name, n=n)
    R.obstacles(1, 1)
    q, u = R.q(), R.u()
    ob.eq('nothing is projected unless asked for', R('project_control_to_safe_set', q, u), u, rule='projection result')
    R.step(q, u)
    ob.check(not I.minimize_log, 'no problem is solved unless asked for', '', rule='projection result')


def stepped(I, ob, name, n):
    """a projected step solves the problem of its own state and request, and moves by what came out"""
    R = Rig(I, name, n=n, enable_projection=True)
    R.obstacles(1, 0)
    q, u = R.q(), mkarr([T.sym('w.0', -2, 2), T.sym('w.1', -2, 2)])
    seen = []
    out = mkarr([T.sym('safe.0', -1, 1), T.sym('safe.1', -1, 1)])
    R.attr('project_control_to_safe_set')
    R.env.attrs['project_control_to_safe_set'] = lambda a, b: (seen.append((a, b)), out)[1]
    s = R.step(q, u)
    ob.check(len(seen) == 1, 'one projection per step', f'{len(seen)}', rule='projected step')
    for a, b in seen:
        ob.eq('projected at the current state', a, q, rule='projected step')
        ob.eq('the request limited to its range is projected', b, mkarr([T.maximum(-1, T.minimum(x, 1)) for x in aslist(u)]), rule='projected step')
    ob.eq('the step applies the projected control', s.attrs['applied_action'], out, rule='projected step')
    ob.eq('the step moves by the projected control', s.attrs['pipeline_state'], specs(I)('move', R.P, name, n, q, out), rule='projected step')


def c27():
    c = Check('C27', 'Projection picks the nearest control whose next state is safe', [
        'projection problem: objective orders controls by distance to the request; constraint >= 0 <=> reference motion ends without collision and within the articulation limit; bounds == actuator range',
        'projection result: solution on success, request otherwise; nothing when off',
        'projected step: solved for the current state and limited request; applied control and motion are those of the solution'])
    for name, n in KINDS:
        for nc, nr in ((0, 0), (1, 0), (0, 1), (1, 1)):
            c.add(f'{name} {nc} circles, {nr} rectangles', problem, name, n, nc, nr)
        for nc, nr in ((2, 0), (0, 2), (2, 2), (3, 1)):
            c.add(f'{name} {nc} circles, {nr} rectangles', problem, name, n, nc, nr, tier='quick' if nc + nr == 2 else 'thorough')
        c.add(f'{name} result', result, name, n, False)
        c.add(f'{name} failing solver', result, name, n, True)
        c.add(f'{name} off', off, name, n)
        c.add(f'{name} step', stepped, name, n)
    return c
