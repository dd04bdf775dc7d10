"""Timing and benchmark reports: C29."""
from __future__ import annotations
from sa import terms as T
from sa.lab import *
from sa.values import *
from .planner import Plan, noise_of

QUANT = ('pure_diffusion_time', 'total_time', 'overhead_time', 'compilation_time')
PARTS = ('demo_generation_time', 'jit_setup_time', 'warmup_time', 'reward_compile_time', 'diffusion_setup_time', 'pure_diffusion_time', 'post_processing_time')


def ticks(v):
    """coefficient of every stretch of the clock in a reported duration; None when it is something else"""
    v = T.to_num(v)
    if v.d.var is not None:
        return None
    out = {}
    for m, c in v.d.val.items():
        if len(m) == 0:
            return None
        a = T.C.atoms[m[0][0]]
        if len(m) != 1 or m[0][1] != 1 or a.op != 'sym' or not str(a.args[0]).startswith('tick:'):
            return None
        out[int(a.args[0][5:])] = c
    return out


def timing(I, ob, name, n, over, repeat):
    R = Plan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3))
    R.start()
    log = []
    inner = {k: R.env.attrs[k] for k in ('step', 'generate_demonstration_trajectory', 'compute_demonstration_reward')}

    def step(state, u, *a):
        log.append(('step', len([e for e in I.events if e[0] == 'clock']), aslist(u)))
        return inner['step'](state, u, *a)
    R.env.attrs['step'] = step
    for k in ('generate_demonstration_trajectory', 'compute_demonstration_reward'):
        R.env.attrs[k] = (lambda k: lambda *a, **kw: (log.append((k, len([e for e in I.events if e[0] == 'clock']), None)), inner[k](*a, **kw))[1])(k)
    if over.get('enable_guidance'):
        R.attr('_step_internal')
        R.env.attrs['_step_internal'] = lambda s, u, vis=False: (log.append(('shown step', len([e for e in I.events if e[0] == 'clock']), aslist(u))), inner['step'](s, u))[1]
    if over.get('render'):
        from . import files
        files.quiet(R), files.shown(R), files.fixed_fs(I, R.cfg['env_name'])
    if repeat:
        R.run(**over)
        log.clear()
    out = R.run(**over)
    info, r = out['info'], 'timing report'
    got = {}
    for k in PARTS + ('total_time', 'overhead_time', 'compilation_time'):
        ob.check(k in info, f'{k} is reported', f'reported: {sorted(info)}', rule=r)
        if k in info:
            got[k] = ticks(info[k])
            ob.check(got[k] is not None, f'{k} is a length of time', f'{info[k]!r:.80}', rule=r)
            if got[k] is not None:
                ob.check(all(c == 1 for c in got[k].values()), f'{k} counts each moment once', f'{got[k]}', rule=r)
    if len(got) < len(PARTS) + 3 or None in got.values():
        return
    sets = {k: set(v) for k, v in got.items()}
    every = {s[3].id for s in noise_of(I, aslist(out['Y']))}
    for kind, at, u in log:
        if kind == 'step':
            mine = {s[3].id for s in noise_of(I, u)}
            if mine and mine < every:
                ob.check(at in sets['pure_diffusion_time'], 'denoising is in the pure diffusion time', 'a candidate is simulated outside of it', rule=r)
            elif mine - every:
                ob.check(at not in sets['pure_diffusion_time'], 'no compilation in the pure diffusion time', 'a warm-up step is inside of it', rule=r)
        elif kind == 'shown step':
            ob.check(at not in sets['pure_diffusion_time'], 'no post-processing in the pure diffusion time', 'the displayed motion is computed inside of it', rule=r)
        else:
            ob.check(at not in sets['pure_diffusion_time'], 'no demonstration in the pure diffusion time', f'{kind} is inside of it', rule=r)
            k = 'demo_generation_time' if kind.startswith('gen') else 'reward_compile_time'
            ob.check(at in sets[k], f'{k} covers its work', f'{kind} is outside of it', rule=r)
    cand = [1 for kind, at, u in log if kind == 'step' and 0 < len(noise_of(I, u)) < len(every)]
    ob.check(len(cand) >= 2, 'denoising steps were seen', f'{len(cand)}', rule=r)
    for i, a in enumerate(PARTS):
        ob.check(sets[a] <= sets['total_time'], f'{a} is part of the total', f'{sorted(sets[a] - sets["total_time"])}', rule=r)
        for b in PARTS[:i]:
            ob.check(not sets[a] & sets[b], f'{a} and {b} do not overlap', f'both count {sorted(sets[a] & sets[b])}', rule=r)
    ob.eq('overhead is everything but diffusion', info['overhead_time'], T.sub(info['total_time'], info['pure_diffusion_time']), rule=r)
    ob.eq('compilation is set-up, warm-up and reward compilation', info['compilation_time'], T.add(T.add(info['jit_setup_time'], info['warmup_time']), info['reward_compile_time']), rule=r)
    drawn = [i for i, e in enumerate(I.events) if e[0] == 'call' and (e[1].endswith('.save') or 'savefig' in e[1] or '.pause' in e[1])]
    seen = -1
    clock = {}
    for i, e in enumerate(I.events):
        if e[0] == 'clock':
            seen += 1
        clock[i] = seen + 1
    for i in drawn:
        ob.check(clock[i] not in sets['total_time'] and clock[i] not in sets['pure_diffusion_time'], 'rendering is not timed', f'{I.events[i][1]} at {I.events[i][4]}', rule=r)


class Runs:
    """stands for the planner: every run returns its own reward and timings"""

    def __init__(self, I, m):
        self.I, self.calls = I, []
        if 'run_diffusion' not in m.ns:
            raise Reject('the benchmark has no planner')
        m.ns['run_diffusion'] = self.run

    def run(self, *a, **k):
        args = k.get('args', a[0] if a else None)
        env = k.get('env', a[1] if len(a) > 1 else None)
        i = len(self.calls)
        info = {q: T.sym(f'{q}:{i}', 0, 100) for q in PARTS + QUANT}
        rew = T.sym(f'rew:{i}', -2, 2)
        self.calls.append((args, env, rew, info))
        return (rew, Opaque('controls'), Opaque('states'), info)


def load(I):
    m = I.load('mbd.scripts.benchmark_diffusion')
    return m, Runs(I, m)


def stats(vals):
    n = len(vals)
    tot = T.num(0)
    for v in vals:
        tot = T.add(tot, v)
    mean = T.div(tot, n)
    var = T.num(0)
    for v in vals:
        d = T.sub(v, mean)
        var = T.add(var, T.mul(d, d))
    srt = list(vals)
    for i in range(n):
        for j in range(n - 1 - i):
            srt[j], srt[j + 1] = T.minimum(srt[j], srt[j + 1]), T.maximum(srt[j], srt[j + 1])
    med = srt[n // 2] if n % 2 else T.div(T.add(srt[n // 2 - 1], srt[n // 2]), 2)
    return dict(mean=mean, std=T.sqrt(T.div(var, n)), min=srt[0], max=srt[-1], median=med)


def reported(ob, res, runs, label):
    r = 'benchmark statistics'
    for q in QUANT + ('rewards',):
        vals = [c[2] if q == 'rewards' else c[3][q] for c in runs]
        ob.check(q in res, f'{label}{q} is reported', f'{sorted(res)}', rule=r)
        for k, w in stats(vals).items():
            if q in res:
                ob.check(k in res[q], f'{label}{k} of {q} is reported', f'{sorted(res[q])}', rule=r)
                if k in res[q]:
                    ob.eq(f'{label}{k} of {q}', res[q][k], w, rule=r)
    ob.check(res.get('num_trials') == len(runs) or (isinstance(res.get('num_trials'), T.S) and res['num_trials'].const() == len(runs)), f'{label}number of trials', f"{res.get('num_trials')}", rule=r)
    raw, rr = list(res.get('all_timing_info', [])), list(res.get('all_rewards', []))
    ob.check(len(raw) == len(runs) and all(a is c[3] or a == c[3] for a, c in zip(raw, runs)), f'{label}timings of every measured trial in order', f'{len(raw)} timings', rule=r)
    ob.check(len(rr) == len(runs) and all(T.to_num(a).d is c[2].d for a, c in zip(rr, runs)), f'{label}rewards of every measured trial in order', f'{len(rr)} rewards', rule=r)


def benchmark(I, ob, trials, warm):
    m, R = load(I)
    planner = I.load('mbd.planners.mbd_planner')
    cfg = I.call(planner.ns['MBDConfig'], [], dict(Nsample=3, Hsample=2, Ndiffuse=3))
    env = Opaque('vehicle')
    kw = {} if (trials, warm) == (5, 1) else dict(num_trials=trials, warmup_trials=warm)
    res = I.call(m.ns['benchmark_diffusion'], [], dict(args=cfg, env=env, **kw))
    ob.check(len(R.calls) == trials + warm, 'as many runs as warm-up and measured trials', f'{len(R.calls)} runs for {warm} + {trials}', rule='benchmark runs')
    ob.check(all(c[0] is cfg and c[1] is env for c in R.calls), 'every run has the configuration and vehicle given', '', rule='benchmark runs')
    reported(ob, res, R.calls[warm:], '')


def scenario(I, ob):
    m, R = load(I)
    if 'benchmark_parking_scenario' not in m.ns:
        raise Reject('the parking benchmark is gone')
    res = I.call(m.ns['benchmark_parking_scenario'], [])
    want = {'Small (Fast)': (5000, 30, 100), 'Medium': (10000, 40, 120), 'Large (Original)': (20000, 50, 150)}
    ob.check(set(res) == set(want), 'the three configurations are reported', f'{sorted(res)}', rule='benchmark comparison')
    for name, size in want.items():
        if name not in res:
            continue
        raw = list(res[name]['all_timing_info'])
        mine = [c for c in R.calls if any(c[3] is t for t in raw)]
        ob.check(len(mine) == len(raw) > 0, f'{name}: trials are its own', f'{len(mine)} of {len(raw)}', rule='benchmark comparison')
        for c in mine:
            got = tuple(int(T.to_num(I.getattr(c[0], k)).const()) for k in ('Nsample', 'Hsample', 'Ndiffuse'))
            ob.check(got == size, f'{name}: planned with its sizes', f'{got} instead of {size}', rule='benchmark comparison')
            ob.check(I.truth(I.getattr(c[0], 'render')) is False, f'{name}: not rendered', '', rule='benchmark comparison')
        same = [c for c in R.calls if mine and c[1] is mine[0][1] and c[0] is mine[0][0]]
        ob.check(len(same) == len(mine) + 1, f'{name}: warmed up once with the same configuration', f'{len(same)} runs, {len(mine)} measured', rule='benchmark comparison')
        reported(ob, res[name], mine, name + ': ')


def c29():
    c = Check('C29', 'Timing and benchmark reports describe the measured runs', [
        'timing report: durations as sums of clock stretches; denoising steps inside the pure diffusion time, warm-up, demonstration, display and rendering outside; phases disjoint and within the total',
        'benchmark runs: calls of the planner == warm-up + measured trials with the given configuration and vehicle',
        'benchmark statistics: value graphs of every reported statistic == definition over the measured trials',
        'benchmark comparison: each configuration is measured with its sizes'])
    for name, n in (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2)):
        c.add(f'{name}{n} timing', timing, name, n, {}, False)
    c.add('timing of a second run', timing, 'tt2d', 1, {}, True)
    for k in ('enable_demo', 'enable_guidance'):
        c.add(f'timing with {k}', timing, 'tt2d', 1, {k: True}, False)
    c.add('timing of a second run with a demonstration', timing, 'tt2d', 1, {'enable_demo': True}, True)
    c.add('timing of a rendered run', timing, 'tt2d', 1, dict(render=True, show_animation=True, save_animation=True), False)
    for t, w in ((5, 1), (1, 0), (2, 2), (3, 1)):
        c.add(f'{t} trials after {w}', benchmark, t, w)
    c.add('7 trials after 3', benchmark, 7, 3, tier='thorough')
    c.add('parking comparison', scenario)
    return c
