"""Step semantics: shielding, fallback, motion, actuator limits, penalties, rewards."""
from sa.lab import *
from sa.drive import *
from sa import terms as T

ALL = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2))
KIN = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2), ('n_trailer2d', 3))
FLAGS = ((True, True), (True, False), (False, True), (False, False))
OFF = dict(enable_shielded_rollout_collision=False, enable_shielded_rollout_hitch=False)


def flags(ec, eh):
    return dict(enable_shielded_rollout_collision=ec, enable_shielded_rollout_hitch=eh)


def pair(I, name, n, ec, eh, nc=1, nr=1, **kw):
    """the same vehicle with the shields as given and with both off"""
    A = Rig(I, name, n=n, **flags(ec, eh), **kw)
    B = Rig(I, name, n=n, **OFF, **kw)
    A.obstacles(nc, nr)
    B.obstacles(nc, nr)
    return A, B


def F(st, k):
    return st.attrs[k]


# ---------------------------------------------------------------- C01
def shield_kin(I, ob, name, n, ec, eh):
    A, B = pair(I, name, n, ec, eh)
    q, u, b = A.q(), A.u('u', -1.5, 1.5), T.bsym('backup')
    free = F(B.step(q, u, b), 'pipeline_state')
    s = A.step(q, u, b)
    new = F(s, 'pipeline_state')
    rej = T.boolean(False)
    if ec:
        rej = T.bor(rej, A.hit(free))
    if eh:
        rej = T.bor(rej, A.hitch(free))
    want = ew(lambda x, y: T.ite(rej, x, y), q, free)
    ob.eq(f'next state is the free successor unless it violates, else the previous state', new, want, rule='shield')
    ob.eq('observation is the state', F(s, 'obs'), new)
    if ec:
        ob.holds('no collision is entered', T.bor(A.hit(q), T.bnot(A.hit(new))), rule='invariant')
    if eh and name != 'kinematic_bicycle2d':
        ob.holds('no jack-knife is entered', T.bor(A.hitch(q), T.bnot(A.hitch(new))), rule='invariant')


def c01():
    c = Check('C01', 'Kinematic shield keeps safe states safe', [
        'shield: step(shielded) == ite(enabled violation of step(unshielded), previous state, step(unshielded)), as value graphs',
        'invariant: not violated(q) implies not violated(step(q)) for the enabled predicates'])
    for name, n in KIN:
        for ec, eh in FLAGS:
            c.add(f'{name}{n} shields {ec},{eh}', shield_kin, name, n, ec, eh)
    return c


# ---------------------------------------------------------------- C02
def acc_reject(A, sp, free, K, ec, eh):
    """enabled violations along the candidate and its braking manoeuvre"""
    hc, hh = A.hit(free), A.hitch(free)
    for q in sp('brake_path', A.P, free, K):
        hc, hh = T.bor(hc, A.hit(q)), T.bor(hh, A.hitch(q))
    rej = T.boolean(False)
    if ec:
        rej = T.bor(rej, hc)
    if eh:
        rej = T.bor(rej, hh)
    return rej, hc, hh


def shield_acc(I, ob, ec, eh, vmax, amax, nc, nr):
    A, B = pair(I, 'acc_tt2d', 1, ec, eh, nc, nr, v_max=vmax, a_max=amax)
    sp = specs(I)
    q, u = A.q(), A.u('u', -1.5, 1.5)
    v = I.getitem(q, 4)
    free = F(B.step(q, u), 'pipeline_state')
    ob.given = T.le(T.absv(T.mul(v, 1)), vmax)
    # predicted manoeuvre always ends within K one-second steps
    K = int(-(-(vmax + amax * 0.5) // amax)) + 1
    rej, hc, hh = acc_reject(A, sp, free, K, ec, eh)
    brk = F(B.step(q, mkarr([T.div(sp('brake', A.P, q), A.P['a_max']), T.num(0)])), 'pipeline_state')
    s = A.step(q, u)
    ob.eq('accepts the candidate iff the candidate and its braking manoeuvre are free of enabled violations',
          F(s, 'pipeline_state'), ew(lambda x, y: T.ite(rej, x, y), brk, free), rule='predictive shield')


def c02():
    c = Check('C02', 'Acceleration shield admits only states it can brake from', [
        'predictive shield: step == ite(enabled violation at the candidate or at any 1 s point of its braking manoeuvre, braking step, candidate)'],
        assumptions=['initial speed within the speed limit', 'manoeuvre checked at the one-second points the implementation documents'])
    for ec, eh in FLAGS:
        for nc, nr in ((1, 0), (0, 1)):
            c.add(f'shields {ec},{eh} circles {nc} rects {nr} K=2', shield_acc, ec, eh, 2.5, 1.7, nc, nr)
    c.add('shields True,True K=4', shield_acc, True, True, 3.0, 0.9, 1, 0)
    c.add('shields True,True K=1', shield_acc, True, True, 1.0, 2.5, 1, 1)
    c.add('shields True,False K=3 both', shield_acc, True, False, 3.0, 1.1, 1, 1, tier='thorough')
    c.add('shields True,True K=6 both', shield_acc, True, True, 3.0, 0.55, 1, 1, tier='thorough')
    return c


# ---------------------------------------------------------------- C03
def fallback_kin(I, ob, name, n, ec, eh):
    A, B = pair(I, name, n, ec, eh)
    q, u, b = A.q(), A.u('u', -1.5, 1.5), T.bsym('backup')
    free = F(B.step(q, u, b), 'pipeline_state')
    s = A.step(q, u, b)
    rej = T.boolean(False)
    if ec:
        rej = T.bor(rej, A.hit(free))
    if eh:
        rej = T.bor(rej, A.hitch(free))
    fb = T.bor(b, rej)
    uc = ew(lambda x: T.maximum(T.minimum(x, 1), -1), u)
    ob.eq('reported control is zero iff the step fell back', F(s, 'applied_action'), ew(lambda x: T.ite(fb, T.num(0), x), uc), rule='fallback')
    ob.eq('the vehicle holds still', F(s, 'pipeline_state'), q, given=fb, rule='hold')
    ob.iff('backup mode persists', F(s, 'in_backup_mode'), b, rule='latch')
    ob.eq('never done', F(s, 'done'), T.num(0))


def fallback_acc(I, ob, ec, eh, nc, nr):
    A, B = pair(I, 'acc_tt2d', 1, ec, eh, nc, nr)
    sp = specs(I)
    q, u, b = A.q(), A.u('u', -1.5, 1.5), T.bsym('backup')
    v = I.getitem(q, 4)
    brk = mkarr([T.div(sp('brake', A.P, q), A.P['a_max']), T.num(0)])
    uc = ew(lambda x: T.maximum(T.minimum(x, 1), -1), u)
    eff = ew(lambda x, y: T.ite(b, x, y), brk, uc)
    free = F(B.step(q, eff), 'pipeline_state')
    ob.given = T.le(T.absv(v), A.P['v_max'])
    rej, _, _ = acc_reject(A, sp, free, 3, ec, eh)
    fb = T.bor(b, rej)
    s = A.step(q, u, b)
    new, app = F(s, 'pipeline_state'), F(s, 'applied_action')
    v2 = I.getitem(new, 4)
    moving = T.gt(T.absv(v), T.flt(0.01))
    ob.eq('reported control is the braking control iff the step fell back', app,
          ew(lambda x, y: T.ite(fb, x, y), brk, uc), rule='fallback')
    ob.le('braking never speeds up', T.absv(v2), T.absv(v), given=T.band(fb, moving), rule='brakes')
    ob.holds('braking never reverses', T.ge(T.mul(v, v2), T.flt(-1e-9)), given=fb, rule='brakes')
    ob.le('braking uses the available deceleration', T.absv(v2), T.maximum(T.sub(T.absv(v), T.mul(A.P['a_max'], A.P['dt'])), 0),
          given=T.band(fb, moving), rule='brakes')
    ob.eq('steering is held', I.getitem(new, 5), I.getitem(q, 5), given=fb, rule='hold')
    ob.iff('backup mode persists', F(s, 'in_backup_mode'), b, rule='latch')


def c03():
    c = Check('C03', 'Fallback control holds or brakes and is reported as such', [
        'fallback: applied control == ite(backup mode or enabled violation, fallback control, clipped control)',
        'hold/brakes: under fallback the kinematic state is unchanged; speed shrinks by a_max*dt without reversing, steering unchanged'])
    for name, n in KIN[:3]:
        for ec, eh in FLAGS:
            c.add(f'{name}{n} shields {ec},{eh}', fallback_kin, name, n, ec, eh)
    for ec, eh in FLAGS:
        c.add(f'acc shields {ec},{eh} circle', fallback_acc, ec, eh, 1, 0)
    c.add('acc shields True,True both', fallback_acc, True, True, 1, 1)
    return c


# ---------------------------------------------------------------- C04
def replay(I, ob, name, n, ec, eh, mode):
    kw = {mode: True} if mode else {}
    A = Rig(I, name, n=n, **flags(ec, eh), **kw)
    B = Rig(I, name, n=n, **OFF)
    for R in (A, B):
        R.obstacles(1, 1 if name != 'acc_tt2d' else 0)
    q, u, b = A.q(), A.u('u', -1.5, 1.5), T.bsym('backup')
    s = A.step(q, u, b)
    app = F(s, 'applied_action')
    again = B.step(q, app, False)
    ob.eq('replaying the reported control without a shield gives the same state', F(again, 'pipeline_state'), F(s, 'pipeline_state'), rule='replay')
    ob.le('reported control within the actuator range', ew(T.absv, app), mkarr([T.num(1), T.num(1)]), rule='range')
    if not ec and not eh and not mode:
        uc = ew(lambda x: T.maximum(T.minimum(x, 1), -1), u)
        ob.eq('an unshielded control is applied as given', app, uc, given=T.bnot(b), rule='identity')


def c04():
    c = Check('C04', 'Reported control reproduces the reported motion', [
        'replay: step_unshielded(q, applied control) == next state, as value graphs, in every safety mode',
        'range: |applied control| <= 1', 'identity: without shield the clipped control itself is reported'])
    for name, n in ALL:
        for ec, eh in FLAGS:
            c.add(f'{name}{n} shields {ec},{eh}', replay, name, n, ec, eh, None)
        c.add(f'{name}{n} guidance', replay, name, n, False, False, 'enable_guidance')
        if name != 'n_trailer2d':
            c.add(f'{name}{n} projection', replay, name, n, False, False, 'enable_projection')
    return c


# ---------------------------------------------------------------- C09 / C10
def motion(I, ob, name, n, vis):
    A = Rig(I, name, n=n, **OFF)
    sp = specs(I)
    A.obstacles(1, 0)
    q, u = A.q(), A.u('u', -1.6, 1.6)
    s = A.step(q, u)
    ob.eq('one step is the explicit Euler step of the documented equations', F(s, 'pipeline_state'),
          sp('move', A.P, name, n, q, u), rule='equations of motion')


def slip(I, ob, n):
    """axles roll without sliding sideways"""
    A = Rig(I, 'n_trailer2d', n=n, **OFF)
    sp = specs(I)
    A.obstacles(1, 0)
    q, u = A.q(), A.u('u')
    new = F(A.step(q, u), 'pipeline_state')
    dt = A.P['dt']
    rate = [T.div(T.sub(b, a), dt) for a, b in zip(aslist(q), aslist(new))]
    Q = aslist(q)
    # velocity of each axle by the chain rule on the geometry the collision check uses
    vx, vy = rate[0], rate[1]
    ob.eq('tractor axle does not slip', T.sub(T.mul(vy, T.cos(Q[2])), T.mul(vx, T.sin(Q[2]))), T.num(0), rule='rolling')
    off, th, w = A.P['lh'], Q[2], rate[2]
    for k in range(n):
        vx = T.add(vx, T.mul(T.mul(off, w), T.sin(th)))
        vy = T.sub(vy, T.mul(T.mul(off, w), T.cos(th)))
        th, w = Q[3 + k], rate[3 + k]
        vx = T.add(vx, T.mul(T.mul(A.P['l2'], w), T.sin(th)))
        vy = T.sub(vy, T.mul(T.mul(A.P['l2'], w), T.cos(th)))
        ob.eq(f'axle of trailer {k + 1} does not slip', T.sub(T.mul(vy, T.cos(th)), T.mul(vx, T.sin(th))), T.num(0), rule='rolling')
        off = T.add(A.P['lr'], A.P['lh'])


def c09():
    c = Check('C09', 'Each model moves by its documented equations', [
        'equations of motion: next state == q + dt * f(q, scaled control), as value graphs',
        'rolling: the lateral velocity of every axle, by the chain rule on the collision geometry, is zero'])
    for name, n in ALL + (('n_trailer2d', 3), ('n_trailer2d', 4)):
        c.add(f'{name}{n}', motion, name, n, False)
    for n in (2, 3):
        c.add(f'rolling n={n}', slip, n)
    return c


def limits(I, ob, name, n, ec, eh, mode):
    kw = {mode: True} if mode else {}
    A = Rig(I, name, n=n, **flags(ec, eh), **kw)
    A.obstacles(1, 0)
    q, u = A.q(), A.u('u', -6, 6)
    uc = ew(lambda x: T.maximum(T.minimum(x, 1), -1), u)
    s, sc = A.step(q, u), A.step(q, uc)
    for k in ('pipeline_state', 'applied_action', 'reward'):
        ob.eq(f'controls beyond the range act like the range ends ({k})', F(s, k), F(sc, k), rule='saturation')
    new = aslist(F(s, 'pipeline_state'))
    Q = aslist(q)
    vm, dt = A.P['v_max'], A.P['dt']
    dmax = T.mul(A.P['delta_max_deg'], T.div(_pi(), 180))
    dx, dy = T.sub(new[0], Q[0]), T.sub(new[1], Q[1])
    reach = T.mul(vm, dt)
    ob.le('distance per step is at most v_max*dt', T.sqrt(T.add(T.mul(dx, dx), T.mul(dy, dy))), reach, rule='speed limit')
    turn = T.div(T.mul(reach, T.tan(dmax)), A.P['l1'])
    ob.le('heading change per step is at most v_max*tan(delta_max)/l1*dt', T.absv(T.sub(new[2], Q[2])), turn, rule='steering limit')
    if name == 'acc_tt2d':
        if not (ec or eh or mode):
            v, de = T.sym('fast', -9, 9), T.sym('steered', -1.5, 1.5)
            lim = lambda x, m: T.maximum(T.minimum(x, m), T.neg(m))
            over, at = (F(A.step(mkarr(Q[:4] + [a, b]), u), 'pipeline_state') for a, b in ((v, de), (lim(v, vm), lim(de, dmax))))
            ob.eq('a speed or steering angle beyond its limit moves the rig like the limit', mkarr(aslist(over)[:4]), mkarr(aslist(at)[:4]), rule='saturation')
        ob.le('speed change per step is at most a_max*dt', T.absv(T.sub(new[4], Q[4])), T.mul(A.P['a_max'], dt), rule='acceleration limit')
        ob.le('steering change per step is at most omega_max*dt', T.absv(T.sub(new[5], Q[5])), T.mul(A.P['omega_max'], dt), rule='steering rate limit')


def _pi():
    from sa.libs import build
    from sa.interp import Interp
    I = Interp(REPO)
    m = I.load_source('import jax.numpy as jnp\nPI = jnp.pi', 'pi_')
    return T.to_num(m.ns['PI'])


def c10():
    c = Check('C10', 'Motion respects the actuator limits for any control', [
        'saturation: step(u) == step(clip(u)) as value graphs', 'speed/steering/acceleration/rate limits on the state change of one step'])
    for name, n in ALL:
        for ec, eh in ((True, True), (False, False)):
            c.add(f'{name}{n} shields {ec},{eh}', limits, name, n, ec, eh, None)
        c.add(f'{name}{n} guidance', limits, name, n, False, False, 'enable_guidance')
    for name, n in ALL[:3]:
        c.add(f'{name}{n} projection', saturate_projection, name, n)
    return c


def saturate_projection(I, ob, name, n):
    A = Rig(I, name, n=n, enable_projection=True, **OFF)
    A.obstacles(1, 0)
    q, u = A.q(), A.u('u', -6, 6)
    s = A.step(q, u)
    ob.le('projected control within the actuator range', ew(T.absv, F(s, 'applied_action')), mkarr([T.num(1), T.num(1)]), rule='saturation')


# ---------------------------------------------------------------- C11
def periodic(I, ob, name, n, mp):
    A = Rig(I, name, n=n, motion_preference=mp, **flags(True, True))
    A.obstacles(1, 1 if name != 'acc_tt2d' else 0)
    A.goal()
    q, u = A.q(), A.u()
    nth = 1 if name == 'kinematic_bicycle2d' else (2 if name in ('tt2d', 'acc_tt2d') else 1 + n)
    two_pi = T.mul(_pi(), 2)
    base = A.step(q, u)
    ref = {m: A(m, q) for m in ('get_reward', 'get_terminal_reward')}
    hit, hitch = A.hit(q), A.hitch(q)
    shifts = [[1 if j == k else 0 for j in range(nth)] for k in range(nth)] + [[-1] * nth, [2 - j for j in range(nth)]]
    for sh in shifts:
        Q = aslist(q)
        off = [T.num(0)] * len(Q)
        for j in range(nth):
            off[2 + j] = T.mul(two_pi, sh[j])
        q2 = mkarr([T.add(a, o) for a, o in zip(Q, off)])
        tag = ' shifted by ' + ','.join(f'{2 * x}pi' for x in sh)
        ob.iff('collision' + tag, A.hit(q2), hit, rule='2pi-periodic')
        ob.iff('jack-knife' + tag, A.hitch(q2), hitch, rule='2pi-periodic')
        for m in ref:
            ob.eq(m + tag, A(m, q2), ref[m], rule='2pi-periodic')
        s2 = A.step(q2, u)
        ob.eq('next state' + tag, F(s2, 'pipeline_state'), ew(T.add, F(base, 'pipeline_state'), mkarr(off)), rule='2pi-periodic')
        ob.eq('step reward' + tag, F(s2, 'reward'), F(base, 'reward'), rule='2pi-periodic')
        ob.eq('applied control' + tag, F(s2, 'applied_action'), F(base, 'applied_action'), rule='2pi-periodic')


def periodic_goal(I, ob, name, n, mp):
    """the goal heading too"""
    A = Rig(I, name, n=n, motion_preference=mp)
    B = Rig(I, name, n=n, motion_preference=mp)
    a = A.goal()
    two_pi = T.mul(_pi(), 2)
    b = dict(a)
    for k in ('theta1', 'theta2'):
        if k in b:
            b[k] = T.add(b[k], two_pi)
    B('set_goal_pos', **b)
    q = A.q()
    for m in ('get_reward', 'get_terminal_reward'):
        ob.eq(m + ' with the goal heading shifted', B(m, q), A(m, q), rule='2pi-periodic')


def c11():
    c = Check('C11', 'Headings that differ by full turns behave alike', [
        '2pi-periodic: value graphs of collision, jack-knife, rewards and step are unchanged (headings shifted) under heading shifts by multiples of 2*pi'])
    for name, n in ALL:
        for mp in ((0, 1) if name != 'acc_tt2d' else (0,)):
            c.add(f'{name}{n} preference {mp}', periodic, name, n, mp)
        for mp in (0, -1):
            c.add(f'{name}{n} goal preference {mp}', periodic_goal, name, n, mp)
    return c


# ---------------------------------------------------------------- C12
def rewards(I, ob, name, n, mp):
    A = Rig(I, name, n=n, motion_preference=mp)
    sp = specs(I)
    A.goal()
    g = A.attr('xg')
    q = A.q()
    kin = aslist(q)[:4] if name == 'acc_tt2d' else aslist(q)
    ob.eq('stage reward', A('get_reward', q), sp('stage_reward', A.P, name, n, mp, kin, aslist(g)), rule='reward definition')
    ob.eq('terminal reward', A('get_terminal_reward', q), sp('terminal_reward', A.P, name, n, mp, kin, aslist(g)), rule='reward definition')
    ob.le('terminal reward is at most one', A('get_terminal_reward', q), T.num(1), rule='range')
    ob.le('stage reward is at most one', A('get_reward', q), T.num(1), rule='range',
          given=T.band(T.le(A.P['max_w_theta'], 1), T.le(A.P['heading_reward_weight'], T.flt(0.5))))
    ob.independent('terminal reward ignores headings weights', A('get_terminal_reward', q), ['p.k_switch', 'p.max_w_theta', 'p.hitch_angle_weight', 'p.reward_threshold'], rule='reward definition')


def c12():
    c = Check('C12', 'Stage and terminal rewards follow their definition', [
        'reward definition: value graph of the reward == position hinge, heading term, logistic switch and articulation term as documented',
        'range: rewards are at most 1'])
    for name, n in ALL + (('n_trailer2d', 3),):
        for mp in (0, 1, -1, 2, -2):
            c.add(f'{name}{n} preference {mp}', rewards, name, n, mp)
    return c


# ---------------------------------------------------------------- C13 / C14
def accounting(I, ob, name, n, ec, eh, mp, mode, part):
    kw = {mode: True} if mode else {}
    kw['motion_preference'] = mp
    A = Rig(I, name, n=n, **flags(ec, eh), **kw)
    B = Rig(I, name, n=n, **OFF)
    sp = specs(I)
    for R in (A, B):
        R.obstacles(1, 0 if name == 'acc_tt2d' else 1)
        R.goal()
    q, u, b = A.q(), A.u('u', -1.5, 1.5), T.bsym('backup') if name != 'acc_tt2d' else T.boolean(False)
    if name == 'acc_tt2d':
        ob.given = T.le(T.absv(I.getitem(q, 4)), A.P['v_max'])
    s = A.step(q, u, b)
    new, app = F(s, 'pipeline_state'), F(s, 'applied_action')
    free = F(B.step(q, u, b), 'pipeline_state')
    if mode == 'enable_guidance':
        G = Rig(I, name, n=n, **OFF, **kw)
        G.obstacles(1, 0 if name == 'acc_tt2d' else 1)
        G.goal()
        G.set('visualization_mode', True)
        seen = F(G.step(q, u, b), 'pipeline_state')
        hc, hh = A.hit(seen), A.hitch(seen)
    elif mode == 'enable_projection':
        seen = new
        hc, hh = A.hit(new), A.hitch(new)
    elif name == 'acc_tt2d' and (ec or eh):
        seen = new
        _, hc, hh = acc_reject(A, sp, free, 3, True, True)
    else:
        seen = new
        hc, hh = A.hit(free), A.hitch(free)
    want = A('get_reward', seen)
    want = T.sub(want, T.ite(hc, A.P['collision_penalty'], T.num(0)))
    want = T.sub(want, T.ite(hh, A.P['hitch_penalty'], T.num(0)))
    v = I.getitem(new, 4) if name == 'acc_tt2d' else T.mul(I.getitem(app, 0), A.P['v_max'])
    want = T.sub(want, sp('preference_penalty', A.P, mp, v))
    ob.eq('step reward = stage reward - collision penalty - hitch penalty - preference penalty', F(s, 'reward'), want, rule='penalty accounting')


def c13():
    c = Check('C13', 'Each step is charged exactly the violations it made', [
        'penalty accounting: step reward == R(evaluated state) - [collision]*c - [jack-knife]*h - preference penalty of the applied motion'])
    for name, n in ALL:
        fl = FLAGS if name != 'acc_tt2d' else FLAGS
        for ec, eh in fl:
            for mp in ((0,) if (ec, eh) != (True, True) else (0, 1)):
                c.add(f'{name}{n} shields {ec},{eh} pref {mp}', accounting, name, n, ec, eh, mp, None, 0)
        c.add(f'{name}{n} guidance', accounting, name, n, False, False, 0, 'enable_guidance', 0)
        if name != 'n_trailer2d':
            c.add(f'{name}{n} projection', accounting, name, n, False, False, 0, 'enable_projection', 0)
    return c


def preference(I, ob, name, n, mp):
    A = Rig(I, name, n=n, motion_preference=mp, **flags(True, False))
    B = Rig(I, name, n=n, motion_preference=mp, preference_penalty_weight=0.0, **flags(True, False))
    sp = specs(I)
    for R in (A, B):
        R.obstacles(1, 0)
        R.goal()
    q, u = A.q(), A.u('u', -1.5, 1.5)
    s, s0 = A.step(q, u), B.step(q, u)
    new, app = F(s, 'pipeline_state'), F(s, 'applied_action')
    v = I.getitem(new, 4) if name == 'acc_tt2d' else T.mul(I.getitem(app, 0), A.P['v_max'])
    pen = T.sub(F(s0, 'reward'), F(s, 'reward'))
    ob.eq('penalty is weight * speed against the preferred direction, of the motion actually applied', pen,
          sp('preference_penalty', A.P, mp, v), rule='preference')
    ob.eq('the preference does not change the motion', new, F(s0, 'pipeline_state'), rule='preference')
    ob.eq('the preference does not change the control', app, F(s0, 'applied_action'), rule='preference')


def c14_step(c):
    for name, n in ALL + (('n_trailer2d', 3),):
        for mp in (0, 1, -1, 2, -2):
            c.add(f'{name}{n} preference {mp}', preference, name, n, mp)
    return c
