"""The planning loop: rollouts, denoising update, returned plan, randomness, caching."""
import re
from sa.lab import *
from sa.drive import *
from sa import terms as T

CFG = dict(seed=7, render=False, env_name='tt2d', case='navigation', Nsample=3, Hsample=2, Ndiffuse=3, enable_demo=False,
           save_animation=False, show_animation=False, save_denoising_animation=False, motion_preference=0, dt=0.2)


def spec_of(I, name):
    with open(os.path.join(VERIF, 'specs', name + '.py')) as f:
        m = I.load_source(f.read(), 'spec_' + name)
    return lambda fn, *a, **k: I.call(m.ns[fn], list(a), k)


class Plan(Rig):
    """an environment whose motion and rewards are arbitrary functions, and a planner configuration"""

    def __init__(self, I, name='tt2d', n=1, uf=True, cfg=None, tag='', **kw):
        super().__init__(I, name, n=n, **kw)
        self.cfg = dict(CFG, env_name=name, num_trailers=n)
        self.cfg['temp_sample'] = T.sym('temp', 0.3, 2.0)
        self.cfg['beta0'] = T.sym('beta0', 0.01, 0.1)
        self.cfg['betaT'] = T.sym('betaT', 0.1, 0.4)
        self.cfg.update(cfg or {})
        for k, v in self.P.items():
            if k in RANGES:
                self.cfg[k] = v
        self.steps = []
        self.tag = tag
        if uf:
            self.abstract()

    def abstract(self):
        I = self.I
        nx, tag = self.nx, self.tag

        def step(state, u, *a):
            q = aslist(state.attrs['pipeline_state'])
            uu = aslist(u)
            b = T.ite(T.to_bool(state.attrs['in_backup_mode']), T.num(1), T.num(0))
            args = q + uu + [b]
            new = mkarr([T.uf(tag + f'step.q{k}', args, -20, 20) for k in range(nx)])
            app = mkarr([T.uf(tag + f'step.u{k}', args, -1, 1) for k in range(len(uu))])
            rew = T.uf(tag + 'step.r', args, -1, 1)
            self.steps.append((q, uu))
            return I.replace(state, dict(pipeline_state=new, obs=new, reward=rew, applied_action=app))

        def terminal(q):
            return T.uf(tag + 'terminal', aslist(q), -1, 1)

        def logpd(qs, motion_preference=0):
            return T.uf(tag + 'logpd', aslist(qs) + [T.to_num(motion_preference)], -3, 0)

        def gen_demo(*a, **k):
            self.set('xref', mkarr([[T.num(0)] * nx] * 2))

        def demo_reward(*a, **k):
            self.set('rew_xref', T.sym('rew_xref', -1, 1))
        for nm, f in (('step', step), ('get_terminal_reward', terminal), ('eval_xref_logpd', logpd),
                      ('generate_demonstration_trajectory', gen_demo), ('compute_demonstration_reward', demo_reward)):
            self.I.getattr(self.env, nm)       # must exist
            self.env.attrs[nm] = f

    def start(self, tag='s'):
        a = dict(x=T.sym(f'{tag}.x', kind='pos'), y=T.sym(f'{tag}.y', kind='pos'), theta1=T.sym(f'{tag}.th1', kind='angle'))
        if self.nx > 3:
            a['theta2'] = T.sym(f'{tag}.th2', kind='angle')
        self('set_init_pos', **a)
        return a

    def mod(self, m='mbd.planners.mbd_planner'):
        return self.I.load(m)

    def run(self, **over):
        self.draws0 = len(self.I.events)
        cfg = dict(self.cfg, **over)
        r = self.I.call(self.mod().ns['run_diffusion'], [], dict(args=cfg, env=self.env))
        r = tuple(self.I.iterate(r))
        return dict(rew=r[0], Y=r[1], xs=r[2], info=r[3])

    # reference rollout on the abstract environment
    def rollout(self, state, us):
        I = self.I
        step = self.I.getattr(self.env, 'step')
        rews, qs, ap = [], [], []
        U = mkarr(us).a
        for t in range(U.shape[0]):
            state = I.call(step, [state, mkarr(list(U[t]))], {})
            rews.append(T.to_num(state.attrs['reward']))
            qs.append(aslist(state.attrs['pipeline_state']))
            ap.append(aslist(state.attrs['applied_action']))
        mean = T.num(0)
        for r in rews:
            mean = T.add(mean, r)
        mean = T.div(mean, len(rews))
        tot = T.add(mean, T.mul(self.P['terminal_reward_weight'], self('get_terminal_reward', mkarr(qs[-1]))))
        return tot, mkarr(qs), mkarr(ap)

    def init_state(self):
        return self('reset', Key(('key', 'any')))


def noise_of(I, vals, since=0):
    """normal draws the values depend on, in the order they were drawn"""
    order = {}
    for e in I.events[since:]:
        if e[0] == 'rng' and e[1] == 'normal':
            order.setdefault(key_of(I, e[2]), len(order))
    sup = T.support([T.to_num(v).d for v in vals])
    syms = []
    for a in sup.values():
        if a.op == 'sym' and a.args[0].startswith('normal:'):
            m = re.match(r'normal:(.*):(\d+)$', a.args[0])
            syms.append((order.get(m.group(1), 10**6), m.group(1), int(m.group(2)), a))
    syms.sort(key=lambda s: s[:3])
    return syms


def key_of(I, path):
    from sa.libs import key_name
    return key_name(path)


def blocks(syms, iters, N, H, Nu):
    v = [T.S(T.leaf(T.patom(s[3]))) for s in syms]
    if len(v) != iters * N * H * Nu:
        return None
    arr = np.array(v, object).reshape(iters, N, H, Nu)
    return [Arr(arr[k]) for k in range(iters)]


# ---------------------------------------------------------------- C15
def rollout_def(I, ob, name, n, H, planned=None):
    R = Plan(I, name, n, **({'H': planned} if planned else {}))
    R.start()
    us = mkarr([[T.sym(f'u{t}.{k}', -1, 1) for k in range(2)] for t in range(H)])
    m = I.load('mbd.utils')
    st = R.init_state()
    step = I.getattr(R.env, 'step')
    tot, qs, ap = tuple(I.iterate(I.call(m.ns['rollout_us_with_terminal'], [step, R.env, st, us])))
    w_tot, w_qs, w_ap = R.rollout(R.init_state(), us)
    ob.eq('return is the mean stage reward plus the weighted terminal reward of the last state', tot, w_tot, rule='rollout return')
    ob.eq('states are those the steps produce, in order', qs, w_qs, rule='rollout states')
    ob.eq('controls are those the steps applied, in order', ap, w_ap, rule='rollout controls')
    rs, qs2, ap2 = tuple(I.iterate(I.call(m.ns['rollout_us'], [step, R.init_state(), us])))
    state, want = R.init_state(), []
    for t in range(H):
        state = I.call(step, [state, I.getitem(us, t)], {})
        want.append(T.to_num(state.attrs['reward']))
    ob.eq('per-step rewards', rs, mkarr(want), rule='rollout states')
    ob.eq('plain rollout states', qs2, w_qs, rule='rollout states')
    ob.eq('plain rollout controls', ap2, w_ap, rule='rollout controls')
    ev = I.call(m.ns['eval_us'], [step, R.init_state(), us])
    ob.eq('evaluation yields the same per-step rewards', ev, mkarr(want), rule='rollout states')


def rollout_given(I, ob, name, n):
    """a rollout starts from the state it is given, latch included"""
    R = Plan(I, name, n)
    q = R.q()
    b = T.bsym('latched')
    m = I.load('mbd.utils')
    step = I.getattr(R.env, 'step')
    us = mkarr([[T.sym(f'u{t}.{k}', -1, 1) for k in range(2)] for t in range(2)])
    st = R.state(q, b)
    tot, qs, ap = tuple(I.iterate(I.call(m.ns['rollout_us_with_terminal'], [step, R.env, st, us])))
    w = R.rollout(R.state(q, b), us)
    for nm, g, x in zip(('return', 'states', 'controls'), (tot, qs, ap), w):
        ob.eq(f'{nm} from an arbitrary state', g, x, rule='rollout start')


def rollout_real(I, ob, name, n):
    """composition with the real vehicle: chained steps"""
    R = Rig(I, name, n=n)
    R.obstacles(1, 0)
    R.goal()
    q = R.q()
    m = I.load('mbd.utils')
    us = mkarr([[T.sym(f'u{t}.{k}', -1, 1) for k in range(2)] for t in range(2)])
    step = I.getattr(R.env, 'step')
    tot, qs, ap = tuple(I.iterate(I.call(m.ns['rollout_us_with_terminal'], [step, R.env, R.state(q), us])))
    s, rew, Q, A = R.state(q), [], [], []
    for t in range(2):
        s = R('step', s, I.getitem(us, t))
        rew.append(T.to_num(s.attrs['reward']))
        Q.append(aslist(s.attrs['pipeline_state']))
        A.append(aslist(s.attrs['applied_action']))
    ob.eq('states are chained steps of the vehicle', qs, mkarr(Q), rule='rollout states')
    ob.eq('controls are chained steps of the vehicle', ap, mkarr(A), rule='rollout controls')
    want = T.add(T.div(T.add(*rew), 2), T.mul(R.P['terminal_reward_weight'], R('get_terminal_reward', mkarr(Q[-1]))))
    ob.eq('return of the vehicle rollout', tot, want, rule='rollout return')


def c15():
    c = Check('C15', 'A rollout scores exactly the motion it simulates', [
        'rollout return: total == mean of step rewards + terminal weight * terminal reward(last state), for arbitrary step functions',
        'rollout states/controls: sequences are the chained steps from the given state'])
    for name, n in (('tt2d', 1), ('acc_tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 3)):
        for H in (1, 3):
            c.add(f'{name}{n} horizon {H}', rollout_def, name, n, H)
            c.add(f'{name}{n} horizon {H} of 2', rollout_def, name, n, H, 2)
        c.add(f'{name}{n} horizon 4 of 3', rollout_def, name, n, 4, 3)
        c.add(f'{name}{n} horizon 2 of 2', rollout_def, name, n, 2, 2)
        c.add(f'{name}{n} given state', rollout_given, name, n)
        if name in ('tt2d', 'kinematic_bicycle2d'):
            c.add(f'{name}{n} vehicle', rollout_real, name, n)
        c.add(f'{name}{n} horizon 6', rollout_def, name, n, 6, tier='thorough')
    return c


# ---------------------------------------------------------------- C16 / C17
def expected(I, ob, R, out, demo=False, since=0):
    c = R.cfg
    it, N, H = c['Ndiffuse'] - 1, c['Nsample'], c['Hsample']
    return it, N, H


def update(I, ob, name, n, mp, demo, N, H, D):
    R = Plan(I, name, n, cfg=dict(Nsample=N, Hsample=H, Ndiffuse=D, motion_preference=mp, enable_demo=demo), motion_preference=mp)
    R.start()
    out = R.run()
    syms = noise_of(I, aslist(out['Y']))
    B = blocks(syms, D - 1, N, H, 2)
    if B is None:
        ob.fail('every sample of every denoising step is drawn afresh', f'the plan depends on {len(syms)} normal draws instead of {(D - 1) * N * H * 2}', rule='fresh noise')
        return
    sp = spec_of(I, 'planner')
    abar = sp('schedule', R.cfg['beta0'], R.cfg['betaT'], D)
    roll = lambda us: R.rollout(R.init_state(), us)
    logpd = (lambda qs: R('eval_xref_logpd', qs, motion_preference=mp)) if demo else None
    Y, hist = sp('denoise', mkarr([[T.num(0)] * 2] * H), B, abar, D, mp, R.cfg['temp_sample'], roll, R.P['steering_weight'],
                 T.mul(T.div(R.P['delta_max_deg'], 180), _pi()), logpd, T.sym('rew_xref', -1, 1))
    _, xs, ap = R.rollout(R.init_state(), Y)
    ob.eq('the plan is the reward-weighted average of applied controls, step by step', out['Y'], ap, rule='denoising update')


def _pi():
    from checks.motion import _pi as p
    return p()


def c16():
    c = Check('C16', 'Each denoising step is the reward-weighted average of rollouts', [
        'denoising update: the returned plan == reference update on the recorded noise, for arbitrary step, reward and likelihood functions',
        'fresh noise: every step draws its own independent noise'])
    for name, n in (('tt2d', 1), ('acc_tt2d', 1)):
        for mp in (0, 1, 2, -2):
            c.add(f'{name} preference {mp}', update, name, n, mp, False, 2, 2, 3)
    c.add('tt2d three samples', update, 'tt2d', 1, 0, False, 3, 1, 3)
    c.add('tt2d four steps', update, 'tt2d', 1, 0, False, 2, 1, 4)
    c.add('tt2d demo', update, 'tt2d', 1, 0, True, 2, 2, 3)
    c.add('tt2d demo three samples', update, 'tt2d', 1, 1, True, 3, 1, 2)
    c.add('n_trailer demo', update, 'n_trailer2d', 2, -1, True, 2, 1, 3)
    c.add('bicycle', update, 'kinematic_bicycle2d', 1, 0, False, 2, 2, 2)
    c.add('tt2d larger', update, 'tt2d', 1, 0, False, 4, 3, 4, tier='thorough')
    c.add('tt2d demo larger', update, 'tt2d', 1, 0, True, 4, 2, 4, tier='thorough')
    return c


def returned(I, ob, name, n, mp, H=2, N=2, D=3, demo=False, render=False):
    R = Plan(I, name, n, cfg=dict(Nsample=N, Hsample=H, Ndiffuse=D, motion_preference=mp), motion_preference=mp)
    R.start()
    if render:
        from . import files
        files.quiet(R), files.shown(R), files.fixed_fs(I, R.cfg['env_name'])
    out = R.run(enable_demo=demo, render=render, **({f: True for f in ('show_animation', 'save_animation', 'save_denoising_animation')} if render else {}))
    st = R.init_state()
    ob.eq('first state is the start', I.getitem(out['xs'], 0), st.attrs['pipeline_state'], rule='plan')
    tot, qs, ap = R.rollout(st, out['Y'])
    ob.eq('states are those of the returned controls', I.getitem(out['xs'], slice(1, None)), qs, rule='plan')
    ob.eq('reported reward is that of the returned controls', out['rew'], tot, rule='plan')
    ob.check(shape(out['xs']) == (H + 1, R.nx), 'one state more than controls', f"shape {shape(out['xs'])}", rule='plan')
    ob.check(shape(out['Y']) == (H, 2), 'one control per step', f"shape {shape(out['Y'])}", rule='plan')
    ob.le('controls within the actuator range', ew(T.absv, out['Y']), mkarr([[T.num(1)] * 2] * H), rule='plan')


def guided(I, ob, name, n, demo, mp=0):
    from .files import GPlan
    R = GPlan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3, motion_preference=mp), enable_guidance=True, motion_preference=mp)
    R.start()
    out = R.run(enable_demo=demo, enable_guidance=True)
    Y = [list(r) for r in mkarr(out['Y']).a]
    ob.eq('states are those of the guided motion under the returned controls', out['xs'], mkarr(R.follow(Y, True, True)), rule='plan')
    st, tot = R.init_state(), T.num(0)
    for u in Y:
        st = R.env.attrs['_step_internal'](st, mkarr(u), False)
        tot = T.add(tot, st.attrs['reward'])
    tot = T.add(T.div(tot, len(Y)), T.mul(R.P['terminal_reward_weight'], R('get_terminal_reward', st.attrs['pipeline_state'])))
    ob.eq('reported reward is that of the returned controls', out['rew'], tot, rule='plan')


def c17():
    c = Check('C17', 'Returned states and reward belong to the returned controls', [
        'plan: states[0] == start; states[t+1] == step(states[t], controls[t]); reward == return of the controls'])
    for name, n in (('tt2d', 1), ('acc_tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2)):
        c.add(f'{name}{n}', returned, name, n, 0)
        c.add(f'{name}{n} one step', returned, name, n, 0, 1)
        c.add(f'{name}{n} guided', guided, name, n, False)
        c.add(f'{name}{n} rendered', returned, name, n, 0, 2, 2, 3, False, True)
        c.add(f'{name}{n} three steps', returned, name, n, 0, 3, tier='thorough')
    for mp in (1, -1, 2, -2):
        c.add(f'tt2d preference {mp}', returned, 'tt2d', 1, mp)
        c.add(f'tt2d preference {mp}, demonstration', returned, 'tt2d', 1, mp, 2, 2, 3, True, tier='thorough' if mp != -1 else 'quick')
    c.add('tt2d demonstration', returned, 'tt2d', 1, 0, 2, 2, 3, True)
    c.add('tt2d guided with a demonstration', guided, 'tt2d', 1, True)
    c.add('tt2d larger', returned, 'tt2d', 1, 0, 4, 3, 4, tier='thorough')
    return c


# ---------------------------------------------------------------- C14 (planner side)
def enforced(I, ob, name, n, mp):
    R = Plan(I, name, n, cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3, motion_preference=mp), motion_preference=mp)

    def step(state, u, *a):
        """a vehicle that applies any part of the requested control"""
        q, uu = aslist(state.attrs['pipeline_state']), aslist(u)
        R.steps.append((q, uu))
        new = mkarr([T.uf(f'step.q{k}', q + uu, -20, 20) for k in range(R.nx)])
        part = T.uf('step.part', q + uu, 0, 1)
        app = mkarr([T.mul(part, uu[0]), T.uf('step.u1', q + uu, -1, 1)])
        return I.replace(state, dict(pipeline_state=new, obs=new, reward=T.uf('step.r', q + uu, -1, 1), applied_action=app))
    R.env.attrs['step'] = step
    R.start()
    out = R.run()
    cand = [uu for q, uu in R.steps if noise_of(I, [uu[0]])]
    ob.check(len(cand) >= 2 * 2 * 2, 'candidates are simulated', f'{len(cand)} perturbed steps simulated', rule='strict preference')
    s = T.num(1 if mp > 0 else -1)
    for k, (q, uu) in enumerate(R.steps):
        ob.le(f'simulated control {k} drives in the enforced direction', T.num(0), T.mul(s, uu[0]), rule='strict preference')
        ob.le(f'simulated control {k} is in range', T.absv(uu[0]), T.num(1), rule='strict preference')
    for k in range(2):
        ob.le(f'returned control {k} drives in the enforced direction', T.num(0), T.mul(s, I.getitem(out['Y'], (k, 0))), rule='strict preference')


def unrestricted(I, ob, name, n, mp):
    """without strict preference both directions are tried"""
    R = Plan(I, name, n, cfg=dict(Nsample=2, Hsample=1, Ndiffuse=2, motion_preference=mp), motion_preference=mp)
    R.start()
    R.run()
    cand = [(q, uu) for q, uu in R.steps if noise_of(I, [uu[0]])]
    if len(cand) < 2:
        ob.fail('every candidate is a perturbed control', f'{len(cand)} of the simulated controls depend on noise', rule='strict preference')
        return
    for k, (q, uu) in enumerate(cand[:2]):
        eps = noise_of(I, [uu[0]])
        if len(eps) != 1:
            ob.fail(f'candidate {k} is one perturbed control', f'{len(eps)} draws', rule='strict preference')
            continue
        s = spec_of(I, 'planner')
        abar = s('schedule', R.cfg['beta0'], R.cfg['betaT'], 2)
        y = s('candidate', mkarr([[T.num(0)] * 2]), mkarr([[T.S(T.leaf(T.patom(eps[0][3]))), T.num(0)]]), abar, 1, 0)
        ob.eq(f'candidate {k} is the perturbed plan in the full control range', uu[0], I.getitem(y, (0, 0)), rule='strict preference')


def c14():
    from checks.motion import c14_step
    c = Check('C14', 'Motion preference penalises or forbids the other direction', [
        'preference: penalty == weight * speed against the preferred direction; motion and control unchanged by the penalty',
        'strict preference: every control handed to the step function by the planner has the enforced sign'])
    c14_step(c)
    for name, n in (('tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2), ('acc_tt2d', 1)):
        for mp in (2, -2):
            c.add(f'{name}{n} strict {mp}', enforced, name, n, mp)
        for mp in (0, 1, -1):
            c.add(f'{name}{n} free {mp}', unrestricted, name, n, mp)
    return c


# ---------------------------------------------------------------- C18
def draws_of(I, vals):
    """key paths of the draws the values depend on -> symbols"""
    byname = {}
    for e in I.events:
        if e[0] == 'rng':
            byname.setdefault(key_of(I, e[2]), (e[2], e[3]))
    out = {}
    for a in T.support([T.to_num(v).d for v in vals]).values():
        if a.op in ('sym', 'bsym') and isinstance(a.args[0], str):
            m = re.match(r'(normal|uniform|randint|choice|truncated_normal|bernoulli|laplace):([0-9a-f]{10})', a.args[0])
            if m:
                out.setdefault(byname[m.group(2)], set()).add(a.args[0])
    return out


def all_of(out):
    return aslist(out['Y']) + aslist(out['xs']) + aslist(out['rew'])


def randomness(I, ob, name, n, demo, kw):
    N, H, D = 2, 1, 4
    R = Plan(I, name, n, cfg=dict(Nsample=N, Hsample=H, Ndiffuse=D, enable_demo=demo, **kw), **kw)
    R.start()
    out = R.run()
    d = draws_of(I, all_of(out))
    paths = {p: w for p, w in d}
    for p, w in paths.items():
        ob.check(p[:2] == ('key', 7), f'noise comes from the configured seed', f'key {p[:2]} drawn at {w}', rule='seeded')
    ps = sorted(paths, key=repr)
    bad = [(paths[a], paths[b]) for a in ps for b in ps if a != b and b[:len(a)] == a]
    ob.check(not bad, 'no key is used both for a draw and as the parent of another', f'{bad[:1]}', rule='key hygiene')
    cnt = sum(len(x) for x in d.values())
    ob.check(cnt == (D - 1) * N * H * 2, 'every denoising step, sample and control has its own noise', f'{cnt} independent draws instead of {(D - 1) * N * H * 2}', rule='key hygiene')
    nd = [a.args[0] for a in T.support([T.to_num(v).d for v in all_of(out)]).values()
          if a.op in ('sym', 'bsym') and isinstance(a.args[0], str) and a.args[0].split(':')[0] in ('nondet', 'time', 'now')]
    ob.check(not nd, 'no other source of randomness enters the plan', f'depends on {nd[:3]}', rule='no nondeterminism')
    first = [T.to_num(v) for v in all_of(out)]
    again = R.run()
    ob.eq('planning again with the same seed gives the same plan', all_of(again), first, rule='repeatable')


def seeds(I, ob, name, n, clear, first=None, second=8):
    R = Plan(I, name, n, cfg=dict(Nsample=2, Hsample=1, Ndiffuse=3))
    R.start()
    A = R.run(**({} if first is None else dict(seed=first)))
    if first is not None:
        for p, w in draws_of(I, all_of(A)):
            ob.check(p[:2] == ('key', first), 'noise comes from the configured seed', f'key {p[:2]} drawn at {w}', rule='seeded')
    if clear:
        I.call(R.mod().ns['clear_jit_cache'], [])
    B = R.run(seed=second)
    a, b = draws_of(I, all_of(A)), draws_of(I, all_of(B))
    ob.check(bool(b), 'the second plan is sampled', 'no noise', rule='seeded')
    for p, w in b:
        ob.check(p[:2] == ('key', second), 'noise comes from the configured seed', f'key {p[:2]} drawn at {w}', rule='seeded')
    common = {x for v in a.values() for x in v} & {x for v in b.values() for x in v}
    ob.check(not common, 'different seeds share no noise', f'{len(common)} shared draws', rule='seeded')


def c18():
    c = Check('C18', 'Same seed, same plan', [
        'seeded: every draw the plan depends on derives from the key of the configured seed',
        'key hygiene: the draws of a plan use distinct keys, none an ancestor of another, one draw per step, sample and control',
        'no nondeterminism: the plan reads no clock, global random state or other nondeterministic source',
        'repeatable: a second run in the same process has the same value graph'])
    for name, n in (('tt2d', 1), ('acc_tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2)):
        c.add(f'{name}{n} randomness', randomness, name, n, False, {})
        c.add(f'{name}{n} seeds', seeds, name, n, False)
    c.add('tt2d demo', randomness, 'tt2d', 1, True, {})
    c.add('tt2d forward', randomness, 'tt2d', 1, False, dict(motion_preference=2))
    c.add('tt2d seeds after clearing', seeds, 'tt2d', 1, True)
    for a, b in ((0, 1), (1, 0), (7, 2147483647), (42, 43), (-1, 100)):
        c.add(f'tt2d seed {a} then {b}', seeds, 'tt2d', 1, True, a, b)
    c.add('acc_tt2d seed 0', seeds, 'acc_tt2d', 1, False, 0, 7)
    return c


# ---------------------------------------------------------------- C30
def history(I, ob, name, n, name2, n2, first, second):
    """a run after clearing the cache does not depend on what was planned before"""
    A = Plan(I, name, n, tag='first', conc='*')
    A.start('a')
    A.run(**first)
    I.call(A.mod().ns['clear_jit_cache'], [])
    B = Plan(I, name2, n2, tag='second')
    B.start('b')
    compare(I, ob, B, lambda R: R.run(**second), name2, n2, {})


def compare(I, ob, B, run, name2, n2, kw, what='fresh process'):
    got = run(B)
    J = Interp(REPO, [])
    C = Plan(J, name2, n2, tag='second', **kw)
    C.start('b')
    want = run(C)
    for k, nm in (('Y', 'controls'), ('xs', 'states'), ('rew', 'reward')):
        ob.eq(f'{nm} are those of a {what}', got[k], want[k], rule='history independence')


def same_env(I, ob, name, n, clear, second):
    """planning again from another start (with or without clearing) honours the new start and seed"""
    B = Plan(I, name, n, tag='second')
    B.start('a')
    B.run(**(dict(seed=3) if not clear else dict(Nsample=3, Hsample=1, Ndiffuse=4, seed=3)))
    if clear:
        I.call(B.mod().ns['clear_jit_cache'], [])
    B.start('b')
    compare(I, ob, B, lambda R: R.run(**second), name, n, {})


def config_kept(I, ob, name, n, kw, cfg={}):
    """planning leaves the environment's settings as they were"""
    B = Plan(I, name, n, tag='second', **kw)
    B.start('a')
    keep = {k: v for k, v in B.env.attrs.items()}
    goal = aslist(B.attr('xg'))
    B.run(**kw, **cfg)
    planned = {'xref', 'rew_xref', 'angle_mask'}
    for k, v in keep.items():
        now = B.env.attrs.get(k)
        if k in planned or now is v:
            continue
        ob.check(same_value(now, v), f'setting {k} is unchanged', f'{k} was {v!r:.60} and is {now!r:.60} after planning', rule='configuration kept')
    ob.eq('goal is unchanged', B.attr('xg'), mkarr(goal), rule='configuration kept')
    ob.ok(f'settings of the environment are as before planning', rule='configuration kept')


def c30():
    c = Check('C30', 'A plan does not depend on earlier planning', [
        'history independence: value graph of a run after other runs (cache cleared, or same settings) == value graph of the run in a fresh process',
        'configuration kept: a run leaves every attribute of the environment but its demonstration as it was'])
    D = dict(Nsample=3, Hsample=1, Ndiffuse=4, seed=3)
    E_ = dict(Nsample=2, Hsample=2, Ndiffuse=3)
    for name, n, name2, n2 in (('tt2d', 1, 'tt2d', 1), ('tt2d', 1, 'acc_tt2d', 1), ('kinematic_bicycle2d', 1, 'tt2d', 1), ('n_trailer2d', 3, 'n_trailer2d', 2)):
        c.add(f'{name}{n} then {name2}{n2}', history, name, n, name2, n2, D, E_)
    c.add('demo then plain', history, 'tt2d', 1, 'tt2d', 1, dict(D, enable_demo=True), E_)
    c.add('forward then plain', history, 'tt2d', 1, 'tt2d', 1, dict(D, motion_preference=2), E_)
    for name, n in (('tt2d', 1), ('kinematic_bicycle2d', 1)):
        c.add(f'{name} other start, cleared', same_env, name, n, True, E_)
        c.add(f'{name} other start and seed', same_env, name, n, False, dict(seed=9))
        c.add(f'{name} other samples', same_env, name, n, False, dict(Nsample=2, seed=9))
    for name, n in (('tt2d', 1), ('acc_tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2)):
        c.add(f'{name} settings kept', config_kept, name, n, {})
    c.add('tt2d settings kept, guidance', config_kept, 'tt2d', 1, dict(enable_guidance=True))
    c.add('tt2d settings kept, demo', config_kept, 'tt2d', 1, {}, dict(enable_demo=True))
    return c
