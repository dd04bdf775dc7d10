"""The demonstration: the path it offers, the likelihood and reward it gives."""
import math
from sa.lab import *
from sa.drive import *
from sa import terms as T
from checks.geometry import _pi

DEMO = [('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1)]


# ---------------------------------------------------------------- C26
def density(I, ob, name, n, mp, H, default):
    kw = {'motion_preference': mp} if default else {}
    R = Rig(I, name, n=n, **kw)
    s = lambda k: mkarr([T.sym(f'{k}.x', kind='pos'), T.sym(f'{k}.y', kind='pos'), T.sym(f'{k}.a', kind='angle')] + ([] if name == 'kinematic_bicycle2d' else [T.sym(f'{k}.b', kind='angle')]))
    xs = [R.q(f'q{t}') for t in range(H)]
    xref = [s(f'ref{t}') for t in range(H)]
    mask = [T.lt(T.num(0), T.sym(f'mask{t}', -1, 1)) for t in range(H)]
    R.set('xref', mkarr([aslist(x) for x in xref]))
    R.set('angle_mask', mkarr(mask))
    X = mkarr([aslist(x) for x in xs])
    got = R('eval_xref_logpd', X) if default else R('eval_xref_logpd', X, motion_preference=mp)
    want = specs(I)('demo_density', R.P, name, n, mp, xs, xref, mask)
    ob.eq('closeness to the demonstration', got, want, rule='demonstration likelihood')
    if mp == 0 and not default:
        R.set('xref', None)
        ob.eq('without a demonstration nothing is added', R('eval_xref_logpd', X, motion_preference=mp), T.num(0), rule='demonstration likelihood')


def demo_reward(I, ob, name, n, H):
    R = Rig(I, name, n=n)
    k = 3 if name == 'kinematic_bicycle2d' else 4
    xref = mkarr([[T.sym(f'ref{t}.{i}', -9, 9) for i in range(k)] for t in range(H)])
    R.set('xref', xref)
    for nm in ('get_reward', 'get_terminal_reward'):
        R.attr(nm)
    R.env.attrs['get_reward'] = lambda q: T.uf('stage', aslist(q), -1, 1)
    R.env.attrs['get_terminal_reward'] = lambda q: T.uf('terminal', aslist(q), -1, 1)
    R('compute_demonstration_reward')
    tot = T.num(0)
    for t in range(H):
        tot = T.add(tot, T.uf('stage', aslist(I.getitem(xref, t)), -1, 1))
    want = T.add(T.div(tot, H), T.mul(R.P['terminal_reward_weight'], T.uf('terminal', aslist(I.getitem(xref, H - 1)), -1, 1)))
    ob.eq('reward of the demonstration', R.attr('rew_xref'), want, rule='demonstration reward')


def c26():
    c = Check('C26', 'Closeness to the demonstration follows its definition', [
        'demonstration likelihood: value graph of the likelihood == mean of the weighted clipped squared errors, per vehicle and preference',
        'demonstration reward: value graph == mean stage reward of its points plus weighted terminal reward of the last'])
    for name, n in DEMO:
        for mp in (0, 1, -1, 2, -2):
            for H in (1, 2):
                c.add(f'{name} preference {mp}, {H} points', density, name, n, mp, H, False)
            c.add(f'{name} preference {mp}, as configured', density, name, n, mp, 2, True)
            c.add(f'{name} preference {mp}, 5 points', density, name, n, mp, 5, False, tier='thorough')
        for H in (1, 3):
            c.add(f'{name} reward of {H} points', demo_reward, name, n, H)
        c.add(f'{name} reward of 12 points', demo_reward, name, n, 12, tier='thorough')
    return c


# ---------------------------------------------------------------- C31
WAYS = [(1, 1), (-1, -1), (1, -1), (-1, 1), (1, 0), (-1, 0), (0, 1), (0, -1)]


def ends(R, name, x0, xg, g1, g2):
    R('set_init_pos', x=x0[0], y=x0[1], theta1=T.sym('s.th', -3, 3))
    if name == 'kinematic_bicycle2d':
        R('set_goal_pos', x=xg[0], y=xg[1], theta1=g1)
    else:
        R('set_goal_pos', x=xg[0], y=xg[1], theta1=g1, theta2=g2)


def headings(ob, name, X, mask, dirs, mp, label):
    """headings where they count: along the path, reversed for backward driving"""
    H = len(X)
    for i in range(H - 1):
        if mask[i] is not True or dirs[i] is None:
            continue
        dx, dy = dirs[i]
        s = -1 if mp < 0 else 1
        r = T.sqrt(T.add(T.mul(dx, dx), T.mul(dy, dy)))
        for j in range(2, len(X[i])):
            ob.eq(f'{label}: heading {j - 1} of point {i} is along the path (cosine)', T.mul(T.cos(X[i][j]), r), T.mul(s, dx), rule='demonstration headings')
            ob.eq(f'{label}: heading {j - 1} of point {i} is along the path (sine)', T.mul(T.sin(X[i][j]), r), T.mul(s, dy), rule='demonstration headings')


def truth(v):
    v = unwrap0(v)
    k = v.const() if isinstance(v, S) else v
    return None if k is None else bool(k)


def direct(I, ob, name, n, mp, H, direction, way):
    """no obstacles: equidistant points on the straight line from start to goal"""
    R = Rig(I, name, n=n, conc='*', H=H)
    x0 = [T.sym('s.x', -50, 50), T.sym('s.y', -50, 50)]
    off = [T.num(0) if w == 0 else T.sym('d.' + k, *((1, 9) if w > 0 else (-9, -1))) for w, k in zip(way, 'xy')]
    xg = [T.add(a, d) for a, d in zip(x0, off)]
    g1, g2 = T.sym('g.1', -3, 3), T.sym('g.2', -3, 3)
    ends(R, name, x0, xg, g1, g2)
    goal = aslist(R.attr('xg'))
    R('generate_demonstration_trajectory', search_direction=direction, motion_preference=mp)
    X = [aslist(r) for r in rows_(R.attr('xref'))]
    ob.check(len(X) == H, 'one point per step', f'{len(X)} points for {H} steps', rule='demonstration path')
    for i in range(H):
        w = [T.add(a, T.mul(T.div(T.num(i), H - 1), T.sub(b, a))) for a, b in zip(x0, xg)]
        ob.eq(f'point {i} of the straight path', X[i][:2], w, rule='demonstration path')
    ob.eq('the last point has the headings of the goal', X[-1][2:], [g1] if name == 'kinematic_bicycle2d' else [g1, g2], rule='demonstration headings')
    mask = [truth(m) for m in rows_(R.attr('angle_mask'))]
    ob.check(all(m is True for m in mask), 'headings count on the whole straight path', f'{mask}', rule='demonstration headings')
    headings(ob, name, X, mask, [(T.sub(xg[0], x0[0]), T.sub(xg[1], x0[1]))] * H, mp, 'straight path')
    ob.eq('the goal is left alone', R.attr('xg'), mkarr(goal), rule='demonstration path')


def rows_(v):
    return [v.a[i] if v.a.ndim == 1 else Arr(v.a[i]) for i in range(len(v.a))]


def covers(obs, p):
    if len(obs) == 3:
        return math.hypot(p[0] - obs[0], p[1] - obs[1]) - obs[2]
    dx, dy = p[0] - obs[0], p[1] - obs[1]
    c, s_ = math.cos(obs[4]), math.sin(obs[4])
    return max(abs(dx * c + dy * s_) - obs[2] / 2, abs(dy * c - dx * s_) - obs[3] / 2)


def blocked(obs, a, b):
    """whether the segment runs into an obstacle; None when that depends on how finely it is looked at"""
    dep = min([covers(o, (a[0] + (b[0] - a[0]) * k / 2000, a[1] + (b[1] - a[1]) * k / 2000)) for o in obs for k in range(2001)], default=1.0)
    return None if -0.25 < dep < 0.05 else dep < 0


def bypass(I, ob, name, n, mp, H, direction, D, obs):
    """obstacles, start and goal placed relative to an arbitrary point of the plane"""
    o, d = (0.0, 0.0), (float(D[0]), float(D[1]))
    hor, ver = (d[0], 0.0), (0.0, d[1])
    line = lambda *ps: None if any(blocked(obs, a, b) is None for a, b in zip(ps, ps[1:])) else not any(blocked(obs, a, b) for a, b in zip(ps, ps[1:]))
    first, second = (hor, ver) if direction == 'horizontal' else (ver, hor)
    path = None
    for cand in ([o, d], [o, first, d], [o, second, d]):
        ok = line(*cand)
        if ok is None:
            raise Undecided(f'scenario too close to call: {cand}')
        if ok:
            path = cand
            break
    path = path or [o, d]
    R = Rig(I, name, n=n, conc='*', H=H)
    tx, ty = T.sym('t.x', -50, 50), T.sym('t.y', -50, 50)
    at = lambda p: [T.add(tx, T.flt(p[0])), T.add(ty, T.flt(p[1]))]
    R('set_circle_obs', [at(b) + [T.flt(b[2])] for b in obs if len(b) == 3]) if any(len(b) == 3 for b in obs) else None
    R('set_rectangle_obs', [at(b) + [T.flt(v) for v in b[2:]] for b in obs if len(b) == 5], coordinate_mode='center') if any(len(b) == 5 for b in obs) else None
    g1, g2 = T.sym('g.1', -3, 3), T.sym('g.2', -3, 3)
    ends(R, name, at(o), at(d), g1, g2)
    goal = aslist(R.attr('xg'))
    R('generate_demonstration_trajectory', search_direction=direction, motion_preference=mp)
    X = [aslist(r) for r in rows_(R.attr('xref'))]
    r = 'demonstration path'
    ob.check(len(X) == H, 'one point per step', f'{len(X)} points for {H} steps', rule=r)
    pts = []
    for i, x in enumerate(X):
        c = [T.to_num(T.sub(a, b)).const() for a, b in zip(x[:2], (tx, ty))]
        if None in c:
            raise Undecided('the path is not a translation of its shape')
        pts.append([float(v) for v in c])
    ob.check(math.dist(pts[0], o) < 1e-6, 'starts at the start', f'starts {pts[0]} away', rule=r)
    ob.check(math.dist(pts[-1], d) < 1e-6, 'ends at the goal', f'ends at {pts[-1]} instead of {d} from the start', rule=r)
    lens = [math.dist(a, b) for a, b in zip(path, path[1:])]
    tot = sum(lens)
    pos = []
    for i, p in enumerate(pts):
        best, base = (9e9, 0), 0.0
        for a, b, L in zip(path, path[1:], lens):
            t = min(max(((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / L ** 2, 0), 1)
            e = math.hypot(a[0] + t * (b[0] - a[0]) - p[0], a[1] + t * (b[1] - a[1]) - p[1])
            best = min(best, (e, base + t * L))
            base += L
        ob.check(best[0] < 1e-6, f'point {i} is on the path that is clear', f'point {i} is {best[0]:.3f} off the path {path}', rule=r)
        pos.append(best[1])
    gap = max(b - a for a, b in zip(pos, pos[1:]))
    ob.check(min(b - a for a, b in zip(pos, pos[1:])) > -1e-9, 'runs forward along the path', f'{pos}', rule=r)
    ob.check(gap <= 2.5 * tot / (H - 1), 'points are spread over the path', f'gap of {gap:.2f} on {tot:.2f}', rule=r)
    mask = [truth(m) for m in rows_(R.attr('angle_mask'))]
    ob.check(len(mask) == H and None not in mask, 'which headings count is decided by the path', f'{mask}', rule='demonstration headings')
    head = tot - lens[-1]
    for i in range(H):
        if abs(pos[i] - head) > 1e-6 or len(lens) == 1:
            ob.check(mask[i] == (pos[i] > head - 1e-6), f'headings count on the last leg only (point {i})', f'{mask[i]} at {pos[i]:.2f} of {tot:.2f}, last leg from {head:.2f}', rule='demonstration headings')
    a, b = path[-2], path[-1]
    dirs = [(T.flt(b[0] - a[0]), T.flt(b[1] - a[1])) if pos[i] > head - 1e-6 and i + 1 < H and pos[i + 1] - pos[i] > 1e-4 else None for i in range(H)]
    headings(ob, name, X, mask, dirs, mp, 'last leg')
    ob.eq('the last point has the headings of the goal', X[-1][2:], [g1] if name == 'kinematic_bicycle2d' else [g1, g2], rule='demonstration headings')
    ob.eq('the goal is left alone', R.attr('xg'), mkarr(goal), rule=r)


SCENES = {
    'circle on the straight line': ((12, 8), [(6, 4, 1.5)]),
    'circle on the straight line, other quadrant': ((-12, 9), [(-6, 4.5, 1.5)]),
    'horizontal leg blocked too': ((12, 8), [(6, 4, 1.5), (6, 0, 1.0)]),
    'leg into the goal blocked too': ((12, 8), [(6, 4, 1.5), (12, 4, 1.0)]),
    'vertical leg blocked too': ((12, -8), [(6, -4, 1.5), (0, -4, 1.0)]),
    'upper leg blocked too': ((12, -8), [(6, -4, 1.5), (6, -8, 1.0)]),
    'everything blocked': ((-10, -8), [(-5, -4, 1.5), (-5, 0, 1.0), (0, -4, 1.0)]),
    'obstacles beside the line': ((12, 8), [(6, 7, 1.5), (6, 0, 1.0), (2, 5, 1.0)]),
    'rectangle on the straight line': ((12, 8), [(6, 4, 3, 2, 0.0)]),
    'rotated rectangle reaching the line': ((12, 8), [(7.5, 2.0, 6, 0.8, 2.2)]),
    'rotated rectangle beside the line': ((12, 0), [(6, 3.0, 5, 0.8, 0.0)]),
    'rotated rectangle across the horizontal leg': ((12, 8), [(6, 4, 2, 2, 0.3), (4, -2, 6, 0.8, 1.5707963)]),
    'wide box that turned does not reach': ((12, 8), [(6, 4, 1.5), (8, -3, 6, 1, 0.0)]),
    'only the first leg of the horizontal path free': ((12, 8), [(6, 4, 1.5), (12, 4, 1.0), (6, 8, 1.0)]),
    'only the second leg of the horizontal path free': ((12, 8), [(6, 4, 1.5), (6, 0, 1.0), (0, 4, 1.0)]),
    'only the first legs free': ((12, -8), [(6, -4, 1.5), (12, -4, 1.0), (6, -8, 1.0)]),
    'only the second legs free': ((12, -8), [(6, -4, 1.5), (6, 0, 1.0), (0, -4, 1.0)]),
    'mixed obstacles': ((10, 12), [(5, 6, 1.5), (10, 6, 3, 2, 0.7), (-9, 0, 1.0)]),
    'short horizontal leg': ((1.5, 14), [(0.75, 7, 0.7)]),
    'second rectangle': ((12, 8), [(-20, 0, 2, 2, 0.0), (6, 4, 3, 2, 0.0), (30, 0, 2, 2, 0.4)]),
    'second circle': ((12, 8), [(-20, 0, 2), (6, 4, 1.5), (30, 0, 2)]),
}


def c31():
    c = Check('C31', 'The demonstration leads from the start to the goal', [
        'demonstration path: points == equidistant points of the straight path for symbolic start and goal; on the expected clear path for scenes placed at a symbolic point',
        'demonstration headings: along the path where they count, reversed for backward driving, those of the goal at its end'])
    for name, n in DEMO:
        for mp in (0, 1, -1, 2, -2):
            for way in WAYS[:2 if mp else 8]:
                c.add(f'{name} straight {way}, preference {mp}', direct, name, n, mp, 4, 'horizontal', way)
        c.add(f'{name} straight, vertical search', direct, name, n, 0, 3, 'vertical', (1, -1))
        c.add(f'{name} straight, 2 points', direct, name, n, 0, 2, 'horizontal', (-1, 1))
        c.add(f'{name} straight, 50 points', direct, name, n, 0, 50, 'horizontal', (-1, 1), tier='thorough')
    for k, (D, obs) in SCENES.items():
        for dr in ('horizontal', 'vertical'):
            c.add(f'{k}, {dr} first', bypass, 'tt2d', 1, 0, 12, dr, D, obs)
            for H in (9, 31, 50):
                c.add(f'{k}, {dr} first, {H} points', bypass, 'tt2d', 1, 0, H, dr, D, obs, tier='thorough')
    for name, n in DEMO:
        for mp in (1, -1, 2, -2):
            for k in ('circle on the straight line', 'leg into the goal blocked too'):
                D, obs = SCENES[k]
                c.add(f'{name} {k}, preference {mp}', bypass, name, n, mp, 10, 'horizontal', D, obs)
    return c
