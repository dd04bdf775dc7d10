"""Guidance: C28."""
from __future__ import annotations
from sa import terms as T
from sa.lab import Check, Undecided
from sa.values import *
from sa.drive import Rig, specs
from .planner import CFG
from .files import GPlan, aslist

PI_ = T.S(T.leaf(T.PI))
KINDS = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2), ('n_trailer2d', 3))


def near(R, tag='q'):
    """a state whose distances to the circles are of the order of the margin"""
    v = [T.sym(tag + '.x', -12, 12), T.sym(tag + '.y', -12, 12)] + [T.sym(f'{tag}.th{k}', -3, 3) for k in range((4 if R.name == 'acc_tt2d' else R.nx) - 2)]
    if R.name == 'acc_tt2d':
        v += [T.sym(tag + '.v', -3, 3), T.sym(tag + '.delta', -1.2, 1.2)]
    return mkarr(v)


def placed(R, nc, nr):
    cs = [[T.sym(f'c{i}.x', -9, 9), T.sym(f'c{i}.y', -9, 9), T.sym(f'c{i}.r', 0, 4)] for i in range(nc)]
    rs = [[T.sym(f'r{i}.x', -9, 9), T.sym(f'r{i}.y', -9, 9), T.sym(f'r{i}.w', 1, 8), T.sym(f'r{i}.h', 1, 8), T.sym(f'r{i}.a', -3, 3)] for i in range(nr)]
    if nc:
        R('set_circle_obs', cs)
    if nr:
        R('set_rectangle_obs', rs, coordinate_mode='center')
    return cs


def descent(I, ob, name, n, nc, nr):
    R = Rig(I, name, n=n, enable_guidance=True)
    cs = placed(R, nc, nr)
    q = near(R)
    got = R('apply_guidance', q)
    ob.eq('guided state', got, specs(I)('guided', R.P, name, n, q, cs, nc + nr), rule='guidance step')


def free(I, ob, name, n, nc, nr):
    """a state clear of the margins of all circles and within the articulation limit is left alone"""
    R = Rig(I, name, n=n, enable_guidance=True)
    cs = placed(R, nc, nr)
    q = near(R)
    got = R('apply_guidance', q)
    pts = [(q.a[0], q.a[1])]
    if name != 'kinematic_bicycle2d':
        a = specs(I)('axle', R.P, name, n, aslist(q), 0)
        pts.append((a.a[0], a.a[1]))
        fold = T.absv(T.sub(q.a[2], q.a[3]))
        ob.given = T.le(fold, T.mul(PI_, T.div(40, 180)))
    else:
        ob.given = T.boolean(True)
    for c in cs:
        for x, y in pts:
            dx, dy = T.sub(x, c[0]), T.sub(y, c[1])
            ob.given = T.band(ob.given, T.gt(T.sqrt(T.add(T.mul(dx, dx), T.mul(dy, dy))), T.add(c[2], 2)))
    ob.eq('a state that needs no guidance is left alone', got, q, rule='guidance step')
    ob.given = None


def off(I, ob, name, n):
    """without guidance nothing is guided and drawing makes no difference"""
    R = Rig(I, name, n=n)
    placed(R, 1, 0)
    q, u = near(R), R.u()
    ob.eq('no guidance unless asked for', R('apply_guidance', q), q, rule='guidance off')
    s = R.state(q)
    a, b = R('_step_internal', s, u, False), R('_step_internal', s, u, True)
    for f in ('pipeline_state', 'reward', 'applied_action'):
        ob.eq(f'{f} does not depend on drawing', a.attrs[f], b.attrs[f], rule='guidance off')


def modes(I, ob, name, n, nr):
    """a step moves as the vehicle does when planning, and to the guided state when showing"""
    R = Rig(I, name, n=n, enable_guidance=True)
    placed(R, 1, nr)
    q, u = near(R), R.u()
    s = R.state(q)
    move = specs(I)('move', R.P, name, n, q, u)
    plan, show = R('_step_internal', s, u, False), R('_step_internal', s, u, True)
    ob.eq('planning follows the motion of the vehicle', plan.attrs['pipeline_state'], move, rule='guidance modes')
    ob.eq('a step is a planning step', R('step', s, u).attrs['pipeline_state'], move, rule='guidance modes')
    ob.eq('showing follows the guided motion', show.attrs['pipeline_state'], R('apply_guidance', move), rule='guidance modes')
    ob.eq('the reward is the same either way', plan.attrs['reward'], show.attrs['reward'], rule='guidance modes')
    ob.eq('the control is applied as it is', plan.attrs['applied_action'], u, rule='guidance modes')


def planned(I, ob, name, n, demo):
    """the states returned follow the guided motion; candidates and reward follow the planning motion"""
    kw = dict(enable_guidance=True)
    R = GPlan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3), **kw)
    R.start()
    out = R.run(enable_demo=demo, **kw)
    ob.eq('states are those of the guided motion under the controls', out['xs'], mkarr(R.follow(aslist2(out['Y']), True, True)), rule='guided plan')
    calls = [x for x in T.support([T.to_num(v).d for v in aslist(out['rew'])] + [T.to_num(v).d for r in aslist2(out['Y']) for v in r]).values() if x.op == 'uf' and 'step.' in str(x.args[0])]
    ob.check(bool(calls), 'rewards come from steps', 'no steps found', rule='guided plan')
    for x in calls:
        vis, gd = [T.S(d).const() for d in x.args[-2:]]
        ob.check(vis == 0, 'candidates and reward follow the planning motion', f'{x.args[0]} with display {vis}', rule='guided plan')
        ob.check(gd == 1, 'candidates and reward are guided', f'{x.args[0]} without guidance', rule='guided plan')
    ob.check(T.to_bool(R.attr('enable_guidance')).const() is True, 'guidance is on again afterwards', '', rule='guided plan')


def aslist2(v):
    return [list(r) for r in mkarr(v).a]


def c28():
    c = Check('C28', 'Guidance only nudges states that need it', [
        'guidance step: value graph of the guided state == three explicit descent steps on margin intrusion and articulation excess (derivatives computed symbolically)',
        'guidance modes: planning step == motion of the vehicle, displayed step == guided motion, same reward and control',
        'guidance off: no effect, no dependence on the display mode',
        'guided plan: returned states == guided motion under the returned controls; rewards from planning steps with guidance on'])
    for name, n in KINDS:
        for nc, nr in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1)):
            if nc < 2 or name != 'n_trailer2d':
                c.add(f'{name}{n} {nc} circles, {nr} rectangles', descent, name, n, nc, nr)
        c.add(f'{name}{n} free', free, name, n, 1, 1)
        c.add(f'{name}{n} free, two circles', free, name, n, 2, 0, tier='thorough')
        c.add(f'{name}{n} off', off, name, n)
        c.add(f'{name}{n} modes', modes, name, n, 0)
        c.add(f'{name}{n} modes with a rectangle', modes, name, n, 1, tier='thorough')
    c.add('tt2d 3 circles', descent, 'tt2d', 1, 3, 0, tier='thorough')
    for name, n in KINDS[:4]:
        c.add(f'{name}{n} planned', planned, name, n, False)
    c.add('tt2d planned with a demonstration', planned, 'tt2d', 1, True)
    return c
