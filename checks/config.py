"""Configuration, construction, parking lot, obstacle and pose setters, benchmark statistics."""
from sa.lab import *
from sa.drive import *
from sa import terms as T
from checks.screens import display
from checks.planner import Plan, CFG, all_of
from checks.geometry import calls, drawn_rects, same_points, _pi

FOUR = (('tt2d', 1), ('acc_tt2d', 1), ('kinematic_bicycle2d', 1), ('n_trailer2d', 2))


def raises(I, ob, name, fn, kind, rule):
    try:
        fn()
    except PyRaise as e:
        ob.check(type_name(e.value) in kind, name, f'raises {type_name(e.value)} instead of {" or ".join(kind)}', rule=rule)
        return
    ob.fail(name, f'accepted without an exception', rule=rule)


# ---------------------------------------------------------------- C19
REQUIRED = ('seed', 'render', 'env_name', 'case', 'Nsample', 'Hsample', 'Ndiffuse', 'temp_sample', 'beta0', 'betaT', 'enable_demo',
            'save_animation', 'show_animation', 'save_denoising_animation', 'dt')


def config_class(I):
    m = I.load('mbd.planners.mbd_planner')
    return m.ns['MBDConfig'], m.ns['dict_to_config_obj']


def fields(I):
    cls, _ = config_class(I)
    d = I.call(cls, [])
    return {k: v for k, v in d.attrs.items() if not k.startswith('_')}


def full_dict(base, flip):
    """a distinct value of the right kind for every setting"""
    out = {}
    for i, (k, v) in enumerate(sorted(base.items())):
        if isinstance(v, (bool, np.bool_)) or (isinstance(v, S) and v.b):
            out[k] = bool((i + flip) % 2) if flip < 2 else flip == 2
        elif isinstance(v, str):
            out[k] = f'value-{i}'
        elif isinstance(v, int):
            out[k] = 100 + i
        else:
            out[k] = T.sym('cfg.' + k, 0.1, 9)
    return out


def same(I, ob, name, a, b, rule):
    if isinstance(b, (str, bool)) or b is None:
        if isinstance(a, S) and isinstance(b, bool):
            ob.iff(name, a, T.boolean(b), rule=rule)
            return
        ob.check(type(a) is type(b) and a == b, name, f'{a!r} instead of {b!r}', rule=rule)
        return
    if isinstance(a, (str, bool)) or a is None:
        ob.fail(name, f'{a!r} instead of {b!r}', rule=rule)
        return
    ob.eq(name, a, b, rule=rule)


def dict_config(I, ob, flip):
    base = fields(I)
    _, conv = config_class(I)
    d = full_dict(base, flip)
    c = I.call(conv, [dict(d)])
    for k in sorted(base):
        same(I, ob, f'setting {k} is taken over', I.getattr(c, k), d[k], 'configuration')


def dict_defaults(I, ob):
    base = fields(I)
    _, conv = config_class(I)
    d = full_dict(base, 0)
    c = I.call(conv, [{k: d[k] for k in REQUIRED}])
    ge = I.load('mbd.envs').ns['get_env']
    for name, n in FOUR:
        kw = {'num_trailers': n} if name == 'n_trailer2d' else {}
        A = I.call(ge, [name], kw)
        keep = {k for k in base if k not in REQUIRED and k in A.attrs}
        for k in sorted(keep - {'num_trailers'}):
            same(I, ob, f'omitted setting {k} has the default of a {name}', I.getattr(c, k), I.getattr(A, k), 'configuration')
    for k in REQUIRED:
        raises(I, ob, f'missing {k} is rejected', lambda: I.call(conv, [{j: d[j] for j in REQUIRED if j != k}]), ('KeyError', 'ValueError', 'TypeError'), 'configuration')


def env_params(I, ob, name, n):
    """each vehicle takes every setting it is given"""
    R = Rig(I, name, n=n, collision_penalty=T.sym('p.collision_penalty', 0.05, 2), motion_preference=-1, enable_projection=True, enable_guidance=True,
            enable_shielded_rollout_collision=False, enable_shielded_rollout_hitch=False, H=17)
    for k, v in sorted({**R.P, 'H': 17}.items()):
        if k in R.env.attrs:
            same(I, ob, f'{k} is taken over', R.env.attrs[k], v, 'environment settings')
    ob.eq('steering limit in radians', R.attr('delta_max'), T.div(T.mul(R.P['delta_max_deg'], _pi()), 180), rule='environment settings') if 'delta_max' in R.env.attrs else None
    for k in ('enable_projection', 'enable_guidance', 'enable_shielded_rollout_collision', 'enable_shielded_rollout_hitch'):
        if k in R.env.attrs:
            same(I, ob, f'{k} off is taken over', Rig(I, name, n=n, **{k: False}).env.attrs[k], False, 'environment settings')
            same(I, ob, f'{k} on is taken over', Rig(I, name, n=n, **{k: True}).env.attrs[k], True, 'environment settings')


def dict_or_object(I, ob, name, n, kw):
    A = Plan(I, name, n, tag='e', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3, **kw), **({'motion_preference': kw['motion_preference']} if 'motion_preference' in kw else {}))
    A.start()
    cls, conv = config_class(I)
    got = A.run()
    I.call(A.mod().ns['clear_jit_cache'], [])
    r = tuple(I.iterate(I.call(A.mod().ns['run_diffusion'], [], dict(args=I.call(cls, [], dict(A.cfg)), env=A.env))))
    ob.eq('a dictionary and a configuration object give the same controls', got['Y'], r[1], rule='configuration')
    ob.eq('a dictionary and a configuration object give the same states', got['xs'], r[2], rule='configuration')
    ob.eq('a dictionary and a configuration object give the same reward', got['rew'], r[0], rule='configuration')


def c19():
    c = Check('C19', 'Every setting reaches the planner and the vehicle', [
        'configuration: for every field, value of the converted configuration == value given, default otherwise; dictionary run == object run',
        'environment settings: each parameter of the built vehicle == the value given'])
    for flip in (0, 1, 2, 3):
        c.add(f'dictionary, switches pattern {flip}', dict_config, flip)
    c.add('defaults', dict_defaults)
    for name, n in FOUR + (('n_trailer2d', 4), ('tt2d', 0), ('tt2d', 3)):
        c.add(f'{name} with {n} trailers', env_params, name, n)
    for name, n in FOUR[:2]:
        c.add(f'{name} dictionary or object', dict_or_object, name, n, {})
    c.add('demo dictionary or object', dict_or_object, 'tt2d', 1, dict(enable_demo=True))
    c.add('forward dictionary or object', dict_or_object, 'tt2d', 1, dict(motion_preference=2))
    return c


# ---------------------------------------------------------------- C20
KIND = [('tt2d', 0, 'kinematic_bicycle2d', 1, 3), ('tt2d', 1, 'tt2d', 1, 4), ('tt2d', 2, 'n_trailer2d', 2, 5), ('tt2d', 4, 'n_trailer2d', 4, 7),
        ('kinematic_bicycle2d', 1, 'kinematic_bicycle2d', 1, 3), ('acc_tt2d', 1, 'acc_tt2d', 1, 6), 
        ('n_trailer2d', 3, 'n_trailer2d', 3, 6)]


def dispatch(I, ob, name, n, model, m, nx):
    R = Rig(I, name, n=n, enable_shielded_rollout_collision=False, enable_shielded_rollout_hitch=False)
    sp = specs(I)
    ob.check(R.attr('observation_size') == nx, 'size of the state', f"{R.attr('observation_size')} instead of {nx}", rule='dispatch')
    ob.check(R.attr('action_size') == 2, 'size of the control', f"{R.attr('action_size')} instead of 2", rule='dispatch')
    st = R('reset', Key(('key', 0)))
    ob.check(shape(st.attrs['pipeline_state']) == (nx,), 'shape of the initial state', f"{shape(st.attrs['pipeline_state'])}", rule='dispatch')
    ob.check(shape(R.attr('xg')) == (nx,), 'shape of the goal', f"{shape(R.attr('xg'))}", rule='dispatch') if 'xg' in R.env.attrs else None
    q, u = R.q(), R.u()
    q = mkarr(aslist(q)[:nx])
    ob.eq('moves like the requested vehicle', R.step(q, u).attrs['pipeline_state'], sp('move', R.P, model, m, q, u), rule='dispatch')
    R('setup_animation_patches', Opaque('ax'))
    nb = 1 if model == 'kinematic_bicycle2d' else (m if model == 'n_trailer2d' else 1) + 1
    bod = sp('bodies', R.P, model, m, q)
    ob.check(len(bod) == nb, 'number of bodies', f'{len(bod)}', rule='dispatch')


def rejection(I, ob):
    ge = I.load('mbd.envs').ns['get_env']
    E = I.load('mbd.envs.env').ns['Env']
    m = I.load('mbd.planners.mbd_planner').ns
    r = 'rejection'
    for bad in ('tt3d', '', 'TT2D', 'acc', 'n_trailer', 'bicycle'):
        raises(I, ob, f'unknown vehicle {bad!r}', lambda: I.call(ge, [bad]), ('ValueError', 'KeyError'), r)
    for name, n in FOUR:
        for bad in ('racing', '', 'Parking'):
            raises(I, ob, f'{name}: unknown scenario {bad!r}', lambda: I.call(ge, [name], dict(case=bad, num_trailers=n)), ('ValueError', 'KeyError'), r)
    for k in (1, 0):
        raises(I, ob, f'n-trailer with {k} trailers', lambda: I.call(ge, ['n_trailer2d'], dict(num_trailers=k)), ('AssertionError', 'ValueError'), r)
    raises(I, ob, 'unknown scenario', lambda: I.call(E, [], dict(case='racing')), ('ValueError', 'KeyError'), r)
    nav = I.call(E, [], dict(case='navigation'))
    raises(I, ob, 'parking space of a scenario without parking lot', lambda: I.call(I.getattr(nav, 'get_parking_space_center'), [1]), ('ValueError',), r)
    e = I.call(ge, ['tt2d'])
    raises(I, ob, 'planning without configuration', lambda: I.call(m['run_diffusion'], [], dict(args=None, env=e)), ('ValueError', 'TypeError'), r)


def c20():
    c = Check('C20', 'The requested vehicle is built or the request is rejected', [
        'dispatch: state size, control size and equations of motion are those of the named vehicle and trailer count',
        'rejection: unknown vehicle, scenario or missing configuration raises on every trace'])
    for name, n, model, m, nx in KIND:
        c.add(f'{name} with {n} trailers', dispatch, name, n, model, m, nx)
    c.add('rejected requests', rejection)
    return c


# ---------------------------------------------------------------- C21
def lot(I, rows=2, cols=3, occ=(1, 4, 6), tgt=(2, 5), tag='lot', conc=False):
    E = I.load('mbd.envs.env').ns['Env']
    s = lambda k, lo, hi: T.sym(f'{tag}.{k}', lo, hi)
    P = dict(width=s('width', 10, 60), height=s('height', 10, 60), space_width=s('space_width', 2, 6), space_length=s('space_length', 4, 10),
             parking_y_offset=s('parking_y_offset', 0, 8), obstacle_radius=s('obstacle_radius', 0.2, 2))
    cfg = dict(parking_rows=rows, parking_cols=cols, occupied_spaces=list(occ), target_spaces=list(tgt),
               **{k: P[k] for k in ('space_width', 'space_length', 'parking_y_offset', 'obstacle_radius')})
    env = I.call(E, [], dict(width=P['width'], height=P['height'], case='parking', parking_config=cfg))
    return env, P, cfg


def centre(P, cols, k):
    row, col = (k - 1) // cols, (k - 1) % cols
    x = T.add(T.mul(-0.5, T.mul(cols, P['space_width'])), T.mul(col + 0.5, P['space_width']))
    y = T.add(T.add(T.mul(-0.5, P['height']), P['parking_y_offset']), T.mul(row + 0.5, P['space_length']))
    return x, y


def same_set(ob, name, got, want, rule):
    """the same rows in any order"""
    got = [[T.to_num(v) for v in r] for r in got]
    want = [[T.to_num(v) for v in r] for r in want]
    if len(got) != len(want):
        ob.fail(name, f'{len(got)} instead of {len(want)}', rule)
        return
    R = next(iter(ob.samplers()))
    f = lambda r: np.array([np.asarray(R.val(v), float) for v in r])
    gv = [f(r) for r in got]
    left = list(range(len(got)))
    order = []
    for w in want:
        wv = f(w)
        j = next((j for j in left if gv[j].shape == wv.shape and np.allclose(gv[j], wv, atol=1e-6)), None)
        if j is None:
            ob.fail(name, f'{len(order)} of {len(want)} found, then one is missing: {[T.show_dec(v.d, 60) for v in w]}', rule)
            return
        left.remove(j)
        order.append(j)
    ob.eq(name, mkarr([got[j] for j in order]) if got else [], mkarr(want) if want else [], rule=rule)


def rows_of(v):
    return [aslist(Arr(r)) for r in v.a] if isinstance(v, Arr) else [aslist(r) for r in v]


def layout(I, ob, rows, cols, occ, tgt):
    env, P, cfg = lot(I, rows, cols, occ, tgt)
    g = lambda m, *a: I.call(I.getattr(env, m), list(a))
    for k in range(1, rows * cols + 1):
        ob.eq(f'centre of space {k}', list(I.iterate(g('get_parking_space_center', k))), list(centre(P, cols, k)), rule='lot layout')
    want = []
    for k in occ:
        x, y = centre(P, cols, k)
        want += [(x, T.add(y, d), P['obstacle_radius']) for d in (0, 2, -2)]
    if not want:
        want = [(1.0e4, 1.0e4, 0.0)]
    ob_c = I.getitem(g('get_obstacles'), 'circles')
    same_set(ob, 'every occupied space is blocked by three circles and nothing else is', rows_of(ob_c), want, 'lot layout')
    same_set(ob, 'circular obstacles alone are the same', rows_of(g('get_circular_obstacles')), want, 'lot layout')
    ob.eq('rectangular obstacles alone are the same', g('get_rectangular_obstacles'), I.getitem(g('get_obstacles'), 'rectangles'), rule='lot layout')
    before = list(I.iterate(g('get_parking_space_center', 1)))
    g('set_plot_limits', (T.sym('xl', -9, 0), T.sym('xh', 1, 9)), (T.sym('yl', -9, 0), T.sym('yh', 1, 9)))
    ob.eq('plot limits do not move the lot', list(I.iterate(g('get_parking_space_center', 1))), before, rule='lot layout')


def lot_vehicle(I, ob, name, n):
    env, P, cfg = lot(I)
    R = Rig(I, name, 'parking', n=n, env_config=env)
    x, y = centre(P, 3, 2)
    same_set(ob, 'the vehicle sees the circles of the lot', rows_of(R.attr('obs_circles')), rows_of(I.getitem(I.call(I.getattr(env, 'get_obstacles'), []), 'circles')), 'lot vehicle')
    same_set(ob, 'the vehicle sees the walls of the lot', rows_of(R.attr('obs_rectangles')), rows_of(I.getitem(I.call(I.getattr(env, 'get_obstacles'), []), 'rectangles')), 'lot vehicle')
    mp = T.mul(-0.5, _pi())
    goal = [x, y, mp] + [mp] * (len(aslist(R.attr('xg'))) - 3)
    if name == 'acc_tt2d':
        goal[4:] = [T.num(0), T.num(0)]
    ob.eq('the goal is the first target space, heading into it', R.attr('xg'), mkarr(goal), rule='lot vehicle')
    st = R('reset', Key(('key', 0)))
    q0 = aslist(st.attrs['pipeline_state'])
    ob.eq('the default start is the upper left corner', q0[:2], [T.add(T.mul(-0.5, P['width']), 2), T.sub(T.mul(0.5, P['height']), 2)], rule='lot vehicle')


def default_free(I, ob):
    """in the default lot no obstacle reaches into a space that is not occupied"""
    E = I.load('mbd.envs.env').ns['Env']
    env = I.call(E, [], {})
    cfg = I.getattr(env, 'parking_config')
    num = lambda v: float(T.to_num(unwrap0(v)).const())
    g = lambda m, *a: I.call(I.getattr(env, m), list(a))
    o = g('get_obstacles')
    circ = [[num(v) for v in r] for r in rows_of(I.getitem(o, 'circles'))]
    rect = [[num(v) for v in r] for r in rows_of(I.getitem(o, 'rectangles'))]
    w, l = num(cfg['space_width']), num(cfg['space_length'])
    occ = list(cfg['occupied_spaces'])
    for k in range(1, cfg['parking_rows'] * cfg['parking_cols'] + 1):
        cx, cy = [num(v) for v in I.iterate(g('get_parking_space_center', k))]
        hit = [c for c in circ if max(abs(c[0] - cx) - w / 2, 0) ** 2 + max(abs(c[1] - cy) - l / 2, 0) ** 2 < c[2] ** 2 - 1e-9]
        hit += [r for r in rect if abs(r[0] - cx) < r[2] / 2 + w / 2 - 1e-9 and abs(r[1] - cy) < r[3] / 2 + l / 2 - 1e-9]
        if k in occ:
            ob.check(bool(hit), f'occupied space {k} is blocked', 'no obstacle stands in it', rule='free spaces')
        else:
            ob.check(not hit, f'free space {k} is free', f'obstacle {hit[:1]} reaches into it', rule='free spaces')
    for k in cfg['target_spaces']:
        ob.check(k not in occ, f'target space {k} is not occupied', 'listed as occupied', rule='free spaces')


def lot_drawn(I, ob, name, n, where):
    env, P, cfg = lot(I)
    R = Rig(I, name, 'parking', n=n, env_config=env)
    display(I, R, where, 'parking')
    segs = []
    for e in calls(I, 'plot'):
        if len(e[2]) >= 2:
            try:
                x, y = aslist(e[2][0]), aslist(e[2][1])
            except Reject:
                continue
            if len(x) == 2 and len(y) == 2:
                segs.append([(x[0], y[0]), (x[1], y[1])])
    x0, y0 = T.mul(-1.5, P['space_width']), T.add(T.mul(-0.5, P['height']), P['parking_y_offset'])
    x1, y1 = T.add(x0, T.mul(3, P['space_width'])), T.add(y0, T.mul(2, P['space_length']))
    want = [(f'row line {r}', [(x0, T.add(y0, T.mul(r, P['space_length']))), (x1, T.add(y0, T.mul(r, P['space_length'])))]) for r in range(3)]
    want += [(f'column line {k}', [(T.add(x0, T.mul(k, P['space_width'])), y0), (T.add(x0, T.mul(k, P['space_width'])), y1)]) for k in range(4)]
    for nm, w in want:
        ok = any(same_points(ob, w, s) or same_points(ob, w, s[::-1]) for s in segs)
        ob.check(ok, f'{nm} of the lot is drawn', f'none of {len(segs)} lines is this one', rule='drawn lot')
    labels = {}
    for e in calls(I, 'text'):
        if len(e[2]) >= 3 and isinstance(e[2][2], str):
            labels.setdefault(e[2][2], []).append((T.to_num(unwrap0(e[2][0])), T.to_num(unwrap0(e[2][1]))))
    for k in range(1, 7):
        if k in cfg['occupied_spaces']:
            continue
        c = centre(P, 3, k)
        ok = any(same_points(ob, [c], [p]) for p in labels.get(str(k), []))
        ob.check(ok, f'space {k} is labelled at its centre', f"label drawn {len(labels.get(str(k), []))} times, not there", rule='drawn lot')


def c21():
    c = Check('C21', 'The parking lot is laid out as configured', [
        'lot layout: space centres and obstacle circles == row-major grid formula over symbolic dimensions',
        'lot vehicle: obstacles, default start and default goal of the vehicle == those of the lot',
        'free spaces: in the default lot obstacles stay out of every space that is not occupied (constant evaluation)',
        'drawn lot: every drawn grid line and label is at the place of the layout'])
    for rows, cols, occ, tgt in ((2, 3, (1, 4, 6), (2, 5)), (1, 4, (2,), (4,)), (3, 2, (6, 3, 1), (2, 4)), (2, 2, (), (3,))):
        c.add(f'{rows} x {cols}, {len(occ)} occupied', layout, rows, cols, occ, tgt)
    c.add('3 x 5', layout, 3, 5, (1, 2, 7, 9, 15, 14), (8,), tier='thorough')
    for name, n in FOUR:
        c.add(f'{name} in the lot', lot_vehicle, name, n)
    for name, n in FOUR:
        for where in ('plot', 'animation', 'denoising'):
            c.add(f'{name} lot in the {where}', lot_drawn, name, n, where)
    c.add('default lot', default_free)
    return c


# ---------------------------------------------------------------- C22
def setters(I, ob, name, n):
    R = Rig(I, name, n=n)
    s = lambda k, lo=-9, hi=9: T.sym('o.' + k, lo, hi)
    pad = s('pad', 0, 2)
    r4 = [s('x4'), s('y4'), s('w4', 0.1, 5), s('h4', 0.1, 5)]
    r5 = [s('x5'), s('y5'), s('w5', 0.1, 5), s('h5', 0.1, 5), s('a5', -4, 4)]
    grow = lambda v: T.add(v, T.mul(2, pad))
    lists = [list(r4), list(r5)]
    for mode in ('center', 'left-top', None):
        kw = dict(padding=pad, **({'coordinate_mode': mode} if mode else {}))
        R('set_rectangle_obs', lists, **kw)
        want = []
        for r in (r4 + [T.num(0)], r5):
            x, y, w, h, a = r
            if mode != 'center':
                x, y = T.add(x, T.div(w, 2)), T.sub(y, T.div(h, 2))
            want.append([x, y, grow(w), grow(h), a])
        same_set(ob, f'rectangles given by {mode or "default"} coordinates, padded', rows_of(R.attr('obs_rectangles')), want, 'obstacle setters')
        ob.check(len(lists) == 2 and lists[0] == r4 and lists[1] == r5, f'the caller\'s list is not modified ({mode})', f'{lists}', rule='obstacle setters')
    c1, c2 = [s('cx'), s('cy'), s('cr', 0.1, 4)], [s('dx'), s('dy'), s('dr', 0.1, 4)]
    rect = rows_of(R.attr('obs_rectangles'))
    given = [list(c1), list(c2)]
    R('set_circle_obs', given, padding=pad)
    same_set(ob, 'circles padded', rows_of(R.attr('obs_circles')), [c1[:2] + [T.add(c1[2], pad)], c2[:2] + [T.add(c2[2], pad)]], 'obstacle setters')
    ob.check(given == [c1, c2], 'the caller\'s circles are not modified', f'{given}', rule='obstacle setters')
    same_set(ob, 'setting circles leaves the rectangles alone', rows_of(R.attr('obs_rectangles')), rect, 'obstacle setters')
    R('set_circle_obs', [list(c2)])
    same_set(ob, 'setting circles replaces the earlier ones, unpadded by default', rows_of(R.attr('obs_circles')), [c2], 'obstacle setters')
    R('set_rectangle_obs', [list(r5)], coordinate_mode='center')
    same_set(ob, 'setting rectangles replaces the earlier ones, unpadded by default', rows_of(R.attr('obs_rectangles')), [r5], 'obstacle setters')
    same_set(ob, 'setting rectangles leaves the circles alone', rows_of(R.attr('obs_circles')), [c2], 'obstacle setters')
    # the shield uses them
    q = R.q()
    sp = specs(I)
    ob.iff('collisions are with the obstacles last set', R.hit(q), sp('collides', R.P, name, n, q, [c2], [r5]), rule='obstacle setters')


def bad_obstacles(I, ob, name, n):
    R = Rig(I, name, n=n)
    R('set_circle_obs', [[1.0, 2.0, 3.0]])
    R('set_rectangle_obs', [[1.0, 2.0, 3.0, 4.0]])
    c0, r0 = R.attr('obs_circles'), R.attr('obs_rectangles')
    for bad in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [1.0]):
        raises(I, ob, f'circle of {len(bad)} numbers', lambda: R('set_circle_obs', [[0.0, 0.0, 1.0], bad]), ('ValueError',), 'obstacle rejection')
    for bad in ([1.0, 2.0, 3.0], [1.0] * 6, []):
        raises(I, ob, f'rectangle of {len(bad)} numbers', lambda: R('set_rectangle_obs', [[0.0, 0.0, 1.0, 1.0], bad]), ('ValueError',), 'obstacle rejection')
    for mode in ('centre', 'top-left', '', None):
        raises(I, ob, f'coordinate mode {mode!r}', lambda: R('set_rectangle_obs', [[0.0, 0.0, 1.0, 1.0]], coordinate_mode=mode), ('ValueError',), 'obstacle rejection')
    same_set(ob, 'rejected circles change nothing', rows_of(R.attr('obs_circles')), rows_of(c0), 'obstacle rejection')
    same_set(ob, 'rejected rectangles change nothing', rows_of(R.attr('obs_rectangles')), rows_of(r0), 'obstacle rejection')


def isolated(I, ob, name, n):
    """two environments do not share obstacles, poses or settings"""
    A = Rig(I, name, n=n, conc='*')
    B = Rig(I, name, n=n, conc='*')
    A('set_circle_obs', [[1.0, 2.0, 3.0]])
    B('set_circle_obs', [[4.0, 5.0, 6.0], [7.0, 8.0, 9.0]])
    A('set_rectangle_obs', [[1.0, 2.0, 3.0, 4.0, 0.5]], coordinate_mode='center')
    A.goal('ga')
    want = aslist(A.attr('xg'))
    B.goal('gb')
    B('set_rectangle_obs', [[9.0, 2.0, 3.0, 4.0, 0.5]], coordinate_mode='center')
    ob.eq('circles of one vehicle are its own', A.attr('obs_circles'), mkarr([[T.flt(1), T.flt(2), T.flt(3)]]), rule='isolation')
    ob.eq('rectangles of one vehicle are its own', A.attr('obs_rectangles'), mkarr([[T.flt(v) for v in (1, 2, 3, 4, .5)]]), rule='isolation')
    ob.eq('goal of one vehicle is its own', A.attr('xg'), mkarr(want), rule='isolation')
    C = Rig(I, name, n=n, conc='*')
    ob.check(len(rows_of(C.attr('obs_rectangles'))) == 0, 'a new vehicle starts without rectangles', 'obstacles of another vehicle present', rule='isolation')


def c22():
    c = Check('C22', 'Obstacles are stored as given', [
        'obstacle setters: stored rows == given rows converted to centre coordinates and padded; replacing, not accumulating; caller lists untouched',
        'obstacle rejection: malformed obstacles raise ValueError and change nothing',
        'isolation: obstacles and goals of one vehicle are not those of another'])
    for name, n in FOUR:
        c.add(f'{name} setters', setters, name, n)
        c.add(f'{name} malformed', bad_obstacles, name, n)
        c.add(f'{name} isolation', isolated, name, n)
    return c


# ---------------------------------------------------------------- C23
def full_state(R, name, n, x, y, t1, t2, v=0, d=0):
    if name == 'kinematic_bicycle2d':
        return [x, y, t1]
    if name == 'acc_tt2d':
        return [x, y, t1, t2, T.to_num(v), T.to_num(d)]
    return [x, y, t1] + [t2] * (n if name == 'n_trailer2d' else 1)


def state_of(R):
    st = R('reset', Key(('key', 0)))
    return st


def poses(I, ob, name, n):
    R = Rig(I, name, n=n)
    s = lambda k: T.sym('s.' + k, -9, 9)
    Z = T.num(0)
    acc = name == 'acc_tt2d'
    extra = dict(v=s('v'), delta=s('d')) if acc else {}
    ex = (s('v'), s('d')) if acc else ()
    st = lambda: state_of(R).attrs['pipeline_state']
    F = lambda *a: mkarr(full_state(R, name, n, *a))
    first = state_of(R)
    R('set_init_pos', x=s('x'), y=s('y'), theta1=s('t1'), theta2=s('t2'), **extra)
    ob.eq('a reset starts at the pose set', st(), F(s('x'), s('y'), s('t1'), s('t2'), *ex), rule='start pose')
    S1 = state_of(R)
    ob.eq('reward starts at zero', S1.attrs['reward'], Z, rule='start pose')
    ob.eq('done starts at zero', S1.attrs['done'], Z, rule='start pose')
    ob.eq('no control has been applied', S1.attrs['applied_action'], mkarr([Z, Z]), rule='start pose')
    ob.iff('not in backup mode', S1.attrs['in_backup_mode'], T.boolean(False), rule='start pose')
    ob.eq('the observation is the state', S1.attrs['obs'], S1.attrs['pipeline_state'], rule='start pose')
    R('set_init_pos', x=s('x2'), y=s('y2'))
    ob.eq('a later start replaces the earlier one, headings zero by default', st(), F(s('x2'), s('y2'), Z, Z), rule='start pose')
    R('set_init_pos', x=s('x3'))
    ob.eq('unspecified y is the default', st(), F(s('x3'), Z, Z, Z), rule='start pose')
    R('set_init_pos', y=s('y3'), theta1=s('t3'))
    ob.eq('unspecified x is the default', st(), F(T.num(-3), s('y3'), s('t3'), Z), rule='start pose')
    R('set_init_pos', dx=s('dx'), dy=s('dy'), x=s('x4'), y=s('y4'))
    ob.eq('distances to a lot are ignored without a lot', st(), F(s('x4'), s('y4'), Z, Z), rule='start pose')
    # goal
    R('set_goal_pos', x=s('gx'), y=s('gy'), theta1=s('g1'), theta2=s('g2'), **extra)
    g = lambda: R.attr('xg')
    ob.eq('goal as set', g(), F(s('gx'), s('gy'), s('g1'), s('g2'), *ex), rule='goal pose')
    R('set_goal_pos', theta1=s('h1'))
    ob.eq('only the tractor heading changes', g(), F(s('gx'), s('gy'), s('h1'), s('g2')), rule='goal pose')
    R('set_goal_pos', x=s('hx'))
    ob.eq('only x changes', g(), F(s('hx'), s('gy'), s('h1'), s('g2')), rule='goal pose')
    if name != 'kinematic_bicycle2d':
        R('set_goal_pos', theta2=s('h2'))
        ob.eq('only the trailer heading changes', g(), F(s('hx'), s('gy'), s('h1'), s('h2')), rule='goal pose')
        R('set_goal_pos', y=s('hy'))
        ob.eq('only y changes', g(), F(s('hx'), s('hy'), s('h1'), s('h2')), rule='goal pose')
    R('set_goal_pos', x=0.0, y=0.0)
    ob.eq('zero is a coordinate like any other', I.getitem(g(), slice(0, 2)), mkarr([Z, Z]), rule='goal pose')
    R('set_init_pos', x=0.0, y=0.0, theta1=s('t1'))
    ob.eq('zero is a start like any other', st(), F(Z, Z, s('t1'), Z), rule='start pose')
    ob.eq('setting the start leaves the goal alone', I.getitem(g(), slice(0, 2)), mkarr([Z, Z]), rule='goal pose')


def concrete(I, ob, name, n):
    """zero, negative and large values are coordinates like any other, one component at a time"""
    R = Rig(I, name, n=n)
    F = lambda *a: mkarr(full_state(R, name, n, *a))
    keys = ['x', 'y', 'theta1'] + ([] if name == 'kinematic_bicycle2d' else ['theta2'])
    for vals in ((1.0, 2.0, 0.5, 0.25), (-4.0, -2.5, -3.0, 3.5)):
        base = dict(zip(('x', 'y', 'theta1', 'theta2'), vals))
        for k in keys:
            for v in (0.0, 0, -0.75, 40.0):
                R('set_goal_pos', **{q: base[q] for q in keys})
                R('set_goal_pos', **{k: v})
                w = [T.num(v if q == k else base[q]) for q in ('x', 'y', 'theta1', 'theta2')]
                ob.eq(f'goal {vals} moved to {k}={v!r}', R.attr('xg'), F(*w), rule='goal pose')
                R('set_init_pos', **{**{q: base[q] for q in keys}, k: v})
                a = R('reset', Key(('key', 0))).attrs['pipeline_state']
                ob.eq(f'start {vals} with {k}={v!r}', I.getitem(a, slice(0, 3)), mkarr(w[:3]), rule='start pose')
        R('set_init_pos', **{q: base[q] for q in keys})
        R('set_init_pos')
        a = R('reset', Key(('key', 0))).attrs['pipeline_state']
        ob.eq('a start without values is the default', I.getitem(a, slice(0, 3)), mkarr([T.num(-3), T.num(0), T.num(0)]), rule='start pose')


def lot_start(I, ob, name, n, occ, tgt):
    env, P, cfg = lot(I, 2, 3, occ, tgt)
    R = Rig(I, name, 'parking', n=n, env_config=env)
    s = lambda k: T.sym('s.' + k, -9, 9)
    R('set_init_pos', dx=s('dx'), dy=s('dy'), theta1=s('t1'), theta2=s('t2'))
    q = aslist(state_of(R).attrs['pipeline_state'])
    cs = [centre(P, 3, k) for k in tgt]
    hi = max(tgt, key=lambda k: (k - 1) // 3)
    x = cs[0][0]
    if (tgt[0] - 1) // 3 != min((k - 1) // 3 for k in tgt):
        low = min(tgt, key=lambda k: (k - 1) // 3)
        x = centre(P, 3, low)[0]
    fx = T.add(q[0], T.mul(R.P['l1'], T.cos(s('t1'))))
    ob.eq('the front of the tractor is dx beyond the target space', fx, T.add(x, s('dx')), rule='start at the lot')
    ob.eq('the tractor is dy above the entrance of the lot', q[1], T.add(T.add(centre(P, 3, hi)[1], T.div(P['space_length'], 2)), s('dy')), rule='start at the lot')
    ob.eq('headings as given', q[2:], [s('t1')] + ([] if len(q) == 3 else [s('t2')] * ((n if name == 'n_trailer2d' else 1)) + ([T.num(0)] * 2 if name == 'acc_tt2d' else [])), rule='start at the lot')


def history_reset(I, ob, name, n):
    """reset is not affected by steps taken or by the key"""
    R = Rig(I, name, n=n)
    R.obstacles(1, 0)
    R('set_init_pos', x=T.sym('s.x'), y=T.sym('s.y'), theta1=T.sym('s.t'))
    a = R('reset', Key(('key', 0)))
    s = R('step', a, R.u())
    R('step', s, R.u('w'))
    b = R('reset', Key(('key', 5)))
    for k in ('pipeline_state', 'obs', 'reward', 'done', 'applied_action'):
        ob.eq(f'{k} after a reset does not depend on what was simulated', b.attrs[k], a.attrs[k], rule='reset')
    R('set_init_pos', x=T.sym('s.x2'), y=T.sym('s.y2'), theta1=T.sym('s.t2'))
    ob.eq('a start set after simulating is used by the next reset', I.getitem(R('reset', Key(('key', 0))).attrs['pipeline_state'], slice(0, 3)),
          mkarr([T.sym('s.x2'), T.sym('s.y2'), T.sym('s.t2')]), rule='reset')


def c23():
    c = Check('C23', 'A reset starts where the user asked', [
        'start pose / goal pose: stored pose == given values, defaults or previous values for what is not given',
        'start at the lot: start pose solves the documented distances to the target space and the entrance',
        'reset: the reset state depends only on the last start set'])
    for name, n in FOUR + (('n_trailer2d', 3),):
        c.add(f'{name}{n} poses', poses, name, n)
        c.add(f'{name}{n} history', history_reset, name, n)
        c.add(f'{name}{n} zeros', concrete, name, n)
    for name, n in FOUR:
        c.add(f'{name} at the lot', lot_start, name, n, (1, 4, 6), (2, 5))
        c.add(f'{name} at the lot, targets listed top first', lot_start, name, n, (1, 4), (5, 2))
        c.add(f'{name} one target', lot_start, name, n, (1,), (3,))
    return c
