"""Collision, hitch and drawing geometry."""
from sa.lab import *
from sa.drive import *
from sa import terms as T
from checks.screens import display
from sa.values import Affine, Opaque

ALL = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2), ('n_trailer2d', 3))
NBODY = {'tt2d': lambda n: 2, 'acc_tt2d': lambda n: 2, 'kinematic_bicycle2d': lambda n: 1, 'n_trailer2d': lambda n: n + 1}
FAR = [(60.0, 55.0), (-70.0, 40.0), (45.0, -80.0), (-52.0, -61.0)]


def zeros(I, r, c):
    return Arr(np.full((r, c), T.num(0), object).reshape(r, c))


def body(I, R, q, k):
    sp = specs(I)
    return [T.to_num(x) for x in list(sp('bodies', R.P, R.name, R.n, q)[k])]


def along(b, fx, fy, a=None):
    """point at (fx, fy) in the frame of the body (or rotated by a)"""
    c, s = T.cos(b[2] if a is None else a), T.sin(b[2] if a is None else a)
    return (T.add(b[0], T.sub(T.mul(fx, c), T.mul(fy, s))), T.add(b[1], T.add(T.mul(fx, s), T.mul(fy, c))))


# ---------------------------------------------------------------- C05
def cover(I, ob, name, n, k, kind, j, m):
    """obstacle j of m is close to body k, the others are far away"""
    R = Rig(I, name, n=n)
    q = R.q()
    b = body(I, R, q, k)
    near = along(b, T.sym('o.u', -5, 5), T.sym('o.v', -4, 4))
    cs = [[T.flt(x), T.flt(y), T.num(1)] for x, y in FAR[:m]]
    rs = [[T.flt(x), T.flt(y), T.num(2), T.num(3), T.flt(0.4)] for x, y in FAR[:m]]
    if kind == 'circle':
        cs[j] = [near[0], near[1], T.sym('o.r', 0, 3)]
    else:
        rs[j] = [near[0], near[1], T.sym('o.w', 0.2, 5), T.sym('o.h', 0.2, 5), T.sym('o.a', kind='angle')]
    R('set_circle_obs', cs)
    R('set_rectangle_obs', rs, coordinate_mode='center')
    sp = specs(I)
    ob.given = T.band(T.le(T.absv(I.getitem(q, 0)), 12), T.le(T.absv(I.getitem(q, 1)), 12))
    one = sp('collides', R.P, name, n, q, [cs[j]] if kind == 'circle' else [], [rs[j]] if kind != 'circle' else [])
    ob.iff(f'{kind} {j + 1} of {m} near body {k}', R.hit(q), one, rule='every body and obstacle pair')


def union(I, ob, name, n, nc, nr):
    R = Rig(I, name, n=n)
    q = R.q()
    cs, rs = R.obstacles(nc, nr)
    sp = specs(I)
    ob.iff(f'{nc} circles and {nr} rectangles', R.hit(q), sp('collides', R.P, name, n, q, cs, rs), rule='union over pairs')


def empties(I, ob, name, n):
    R = Rig(I, name, n=n)
    q = R.kin(R.q())
    ob.iff('no obstacles', R('check_obstacle_collision', q, zeros(I, 0, 3), zeros(I, 0, 5)), T.boolean(False), rule='empty sets')
    sp = specs(I)
    c = [[T.sym('c.x', kind='pos'), T.sym('c.y', kind='pos'), T.sym('c.r', 0, 4)]]
    r = [[T.sym('r.x', kind='pos'), T.sym('r.y', kind='pos'), T.sym('r.w', .2, 8), T.sym('r.h', .2, 8), T.sym('r.a', kind='angle')]]
    ob.iff('circles only', R('check_obstacle_collision', q, mkarr(c), zeros(I, 0, 5)), sp('collides', R.P, name, n, q, c, []), rule='empty sets')
    ob.iff('rectangles only', R('check_obstacle_collision', q, zeros(I, 0, 3), mkarr(r)), sp('collides', R.P, name, n, q, [], r), rule='empty sets')


def c05():
    c = Check('C05', 'Collision covers every body and every obstacle', [
        'union over pairs: collision == OR over bodies x obstacles of solid intersection, as value graphs',
        'every body and obstacle pair: each obstacle position in the list is tested against each body',
        'empty sets: no obstacle of a kind never hides the other kind'])
    for name, n in ALL:
        for nc, nr in ((1, 0), (0, 1), (2, 1), (1, 2)):
            c.add(f'{name}{n} union {nc},{nr}', union, name, n, nc, nr)
        c.add(f'{name}{n} empty', empties, name, n)
        nb = NBODY[name](n)
        for k in range(nb):
            for kind in ('circle', 'rectangle'):
                for j in (0, 1, 2):
                    c.add(f'{name}{n} body {k} {kind} {j}', cover, name, n, k, kind, j, 3)
    for k in range(5):
        for kind in ('circle', 'rectangle'):
            c.add(f'n_trailer2d4 body {k} {kind}', cover, 'n_trailer2d', 4, k, kind, 0, 1)
            c.add(f'n_trailer2d4 body {k} {kind} last', cover, 'n_trailer2d', 4, k, kind, 3, 4, tier='thorough')
    for name, n in ALL:
        c.add(f'{name}{n} union 3,3', union, name, n, 3, 3, tier='thorough')
    return c


# ---------------------------------------------------------------- C06
def circle_edge(I, ob, name, n, k, where):
    R = Rig(I, name, n=n)
    q = R.q()
    b = body(I, R, q, k)
    eps = T.sym('eps', -0.03, 0.03)
    t = T.sym('t', -1, 1)
    sgx, sgy = T.sym('sx', -1, 1), T.sym('sy', -1, 1)
    sx = T.ite(T.lt(sgx, 0), T.num(-1), T.num(1))
    sy = T.ite(T.lt(sgy, 0), T.num(-1), T.num(1))
    r = T.sym('o.r', 0.05, 4)
    d = T.mul(r, T.add(1, eps))
    if where == 'long side':
        p = along(b, T.mul(t, b[3]), T.mul(sy, T.add(b[4], d)))
    elif where == 'short side':
        p = along(b, T.mul(sx, T.add(b[3], d)), T.mul(t, b[4]))
    elif where == 'corner':
        a = T.sym('phi', 0, 1.5707)
        p = along(b, T.mul(sx, T.add(b[3], T.mul(d, T.cos(a)))), T.mul(sy, T.add(b[4], T.mul(d, T.sin(a)))))
    else:
        p = along(b, T.mul(t, b[3]), T.mul(sy, T.mul(T.sym('t2', 0, 1), b[4])))
        r = T.sym('o.small', 0, 0.2)
    c = [p[0], p[1], r]
    R('set_circle_obs', [c])
    R('set_rectangle_obs', [[T.flt(90.0), T.flt(90.0), T.num(1), T.num(1), T.num(0)]], coordinate_mode='center')
    sp = specs(I)
    ob.given = T.band(T.le(T.absv(I.getitem(q, 0)), 12), T.le(T.absv(I.getitem(q, 1)), 12))
    want = sp('collides', R.P, name, n, q, [c], [])
    ob.iff(f'circle at the {where} of body {k}', R.hit(q), want, rule='exact intersection')
    if where == 'inside':
        ob.holds(f'circle {where} body {k} collides', R.hit(q), rule='containment')


def rect_edge(I, ob, name, n, k, axis):
    R = Rig(I, name, n=n)
    q = R.q()
    b = body(I, R, q, k)
    eps, t = T.sym('eps', -0.03, 0.03), T.sym('t', -1, 1)
    sg = T.ite(T.lt(T.sym('sx', -1, 1), 0), T.num(-1), T.num(1))
    w, h, a = T.sym('o.w', 0.1, 9), T.sym('o.h', 0.1, 9), T.sym('o.a', -3.2, 3.2)
    rel = T.sub(a, b[2])
    cr, sr = T.absv(T.cos(rel)), T.absv(T.sin(rel))
    hw, hh = T.div(w, 2), T.div(h, 2)
    ext = [T.add(b[3], T.add(T.mul(hw, cr), T.mul(hh, sr))), T.add(b[4], T.add(T.mul(hw, sr), T.mul(hh, cr))),
           T.add(hw, T.add(T.mul(b[3], cr), T.mul(b[4], sr))), T.add(hh, T.add(T.mul(b[3], sr), T.mul(b[4], cr)))]
    if axis == 'inside':
        p = along(b, T.mul(t, T.mul(b[3], T.flt(0.8))), T.mul(sg, T.mul(eps, b[4])))
        w, h = T.sym('o.ws', 0.02, 0.2), T.sym('o.hs', 0.02, 0.2)
    elif axis == 'around':
        p = along(b, T.mul(eps, 3), T.mul(t, T.flt(0.1)))
        w, h = T.sym('o.wl', 40, 60), T.sym('o.hl', 40, 60)
    elif axis == 'cross':
        # bar across the body: no corner of either lies in the other
        p = along(b, T.mul(t, T.mul(b[3], T.flt(0.5))), T.mul(eps, b[4]))
        w, h, a = T.sym('o.bar', 0.1, 0.4), T.sym('o.barl', 12, 20), T.add(b[2], eps)
    else:
        d = T.mul(sg, T.mul(ext[axis], T.add(1, eps)))
        o = T.mul(t, ext[axis ^ 1])
        frame = None if axis < 2 else a
        p = along(b, d, o, frame) if axis % 2 == 0 else along(b, o, d, frame)
    r = [p[0], p[1], w, h, a]
    R('set_circle_obs', [[T.flt(90.0), T.flt(90.0), T.num(1)]])
    R('set_rectangle_obs', [r], coordinate_mode='center')
    sp = specs(I)
    ob.given = T.band(T.le(T.absv(I.getitem(q, 0)), 12), T.le(T.absv(I.getitem(q, 1)), 12))
    tag = axis if isinstance(axis, str) else f'touching along axis {axis}'
    ob.iff(f'rectangle {tag} body {k}', R.hit(q), sp('collides', R.P, name, n, q, [], [r]), rule='exact intersection')
    if axis in ('inside', 'around', 'cross'):
        ob.holds(f'rectangle {axis} body {k} collides', R.hit(q), rule='containment')


def c06():
    c = Check('C06', 'A collision is reported exactly when shapes intersect', [
        'exact intersection: reported collision == (distance to the solid rectangle <= radius) / no separating axis, near every face, corner and containment',
        'containment: a circle or rectangle inside, around or across a body always collides'])
    for name, n in (('kinematic_bicycle2d', 1), ('tt2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2)):
        for k in range(NBODY[name](n)):
            for w in ('long side', 'short side', 'corner', 'inside'):
                c.add(f'{name}{n} body {k} circle {w}', circle_edge, name, n, k, w)
            for a in (0, 1, 2, 3, 'inside', 'around', 'cross'):
                c.add(f'{name}{n} body {k} rectangle {a}', rect_edge, name, n, k, a)
    return c


# ---------------------------------------------------------------- C08
def hitch_exact(I, ob, name, n, k):
    R = Rig(I, name, n=n)
    q = aslist(R.q())
    if k is not None:
        # joint k close to the limit on either side, any number of turns; the others straight
        eps = T.sym('eps', -0.05, 0.05)
        sg = T.ite(T.lt(T.sym('s', -1, 1), 0), T.num(-1), T.num(1))
        turns = T.ite(T.lt(T.sym('tn', -1, 1), 0), T.num(0), T.ite(T.lt(T.sym('tm', -1, 1), 0), T.num(-2), T.num(4)))
        lim = T.mul(_pi(), T.num(F_(2, 9)))
        for j in range(len(q) - 3 if name == 'n_trailer2d' else 1):
            d = T.mul(T.sym(f'd{j}', -0.6, 0.6), 1)
            if j == k:
                d = T.add(T.mul(sg, T.mul(lim, T.add(1, eps))), T.mul(_pi(), turns))
            q[3 + j] = T.sub(q[2 + j], d)
    Q = mkarr(q)
    sp = specs(I)
    bad = sp('jackknifed', R.P, name, n, Q)
    ob.iff('jack-knife reported exactly beyond 40 degrees', R.hitch(Q), bad, rule='hitch predicate')


def F_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def hitch_reported(I, ob, name, n):
    """the limit also governs what the shield and the penalty use"""
    R = Rig(I, name, n=n, enable_shielded_rollout_collision=False, enable_shielded_rollout_hitch=True)
    S0 = Rig(I, name, n=n, enable_shielded_rollout_collision=False, enable_shielded_rollout_hitch=False)
    for X in (R, S0):
        X.obstacles(1, 0)
    q, u = R.q(), R.u()
    free = S0.step(q, u).attrs['pipeline_state']
    new = R.step(q, u).attrs['pipeline_state']
    sp = specs(I)
    ob.eq('a step into a jack-knife is refused', new, q, given=sp('jackknifed', R.P, name, n, free), rule='hitch predicate')
    ob.eq('a step that keeps the articulation is taken', new, free, given=T.bnot(sp('jackknifed', R.P, name, n, free)), rule='hitch predicate')


def _pi():
    from checks.motion import _pi as p
    return p()


def c08():
    c = Check('C08', 'Jack-knife means any articulation beyond 40 degrees', [
        'hitch predicate: reported violation == OR over joints of |wrap(heading difference)| > 40 degrees, as boolean value graphs'])
    for name, n in (('tt2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2), ('n_trailer2d', 3), ('n_trailer2d', 4)):
        c.add(f'{name}{n}', hitch_exact, name, n, None)
        for k in range(n):
            c.add(f'{name}{n} joint {k} at the limit', hitch_exact, name, n, k)
        if name != 'acc_tt2d':
            c.add(f'{name}{n} shield', hitch_reported, name, n)
    return c


# ---------------------------------------------------------------- C07
def calls(I, *suffix):
    return [e for e in I.events if e[0] == 'call' and any(e[1].rsplit('.', 1)[-1] == s for s in suffix)]


def rect_corners(I, ev, tf):
    a, k = list(ev[2]), ev[3]
    xy = a[0] if a else k.get('xy')
    w = a[1] if len(a) > 1 else k.get('width')
    h = a[2] if len(a) > 2 else k.get('height')
    x, y = [T.to_num(v) for v in aslist(xy)]
    w, h = T.to_num(unwrap0(w)), T.to_num(unwrap0(h))
    pts = [(x, y), (T.add(x, w), y), (T.add(x, w), T.add(y, h)), (x, T.add(y, h))]
    ang = k.get('angle', a[3] if len(a) > 3 else None)
    if ang is not None:
        th = T.div(T.mul(T.to_num(unwrap0(ang)), _pi()), 180)
        c, s = T.cos(th), T.sin(th)
        pts = [(T.add(x, T.sub(T.mul(c, T.sub(p, x)), T.mul(s, T.sub(r, y)))), T.add(y, T.add(T.mul(s, T.sub(p, x)), T.mul(c, T.sub(r, y)))))
               for p, r in pts]
    if tf is not None:
        if not isinstance(tf, Affine):
            raise Unmodelled('patch transform of an unknown kind')
        pts = [tuple(tf.apply(p, r)) for p, r in pts]
    return pts


def drawn_rects(I):
    """last drawn outline of every rectangle patch, in world coordinates"""
    tfs, out = {}, []
    for e in calls(I, 'set_transform'):
        if e[5].parent is not None:
            tfs[e[5].parent.uid] = e[2][0]
    for e in calls(I, 'Rectangle'):
        if e[6] is not None:
            out.append(rect_corners(I, e, tfs.get(e[6].uid)))
    for e in calls(I, 'Polygon'):
        p = mkarr(e[2][0])
        if p.a.shape == (4, 2):
            out.append([tuple(T.to_num(v) for v in row) for row in p.a])
    return out


def same_points(ob, A, B):
    """do two outlines agree at every sample?"""
    R = next(iter(ob.samplers()))
    f = lambda v: np.asarray(R.val(T.to_num(v)), float)
    return all(np.allclose(f(a[i]), f(b[i]), atol=1e-6) for a, b in zip(A, B) for i in (0, 1))


def match(ob, name, want, outlines, rule):
    """`want` (4 corners) is one of the drawn outlines, up to where the outline starts"""
    for o in outlines:
        for r in range(4):
            for rev in (False, True):
                p = o[r:] + o[:r]
                if rev:
                    p = [p[0]] + p[1:][::-1]
                if same_points(ob, want, p):
                    ob.eq(name, mkarr([list(x) for x in p]), mkarr([list(x) for x in want]), rule=rule)
                    return True
    ob.fail(name, f'none of the {len(outlines)} outlines drawn is this rectangle', rule)
    return False


def outline(b):
    return [along(b, T.mul(b[3], i), T.mul(b[4], j)) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]


def drawing(I, ob, name, n):
    R = Rig(I, name, n=n)
    q = R.q()
    ax = Opaque('ax')
    R('setup_animation_patches', ax)
    R('update_animation_patches', q)
    outl = drawn_rects(I)
    for k in range(NBODY[name](n)):
        match(ob, f'outline drawn for body {k} is the footprint the collision check uses', outline(body(I, R, q, k)), outl, 'drawn footprint')
    # a second frame replaces the first
    q2 = R.q('q2')
    R('update_animation_patches', q2)
    outl = drawn_rects(I)
    for k in range(NBODY[name](n)):
        match(ob, f'body {k} follows the next state', outline(body(I, R, q2, k)), outl, 'drawn footprint')


def wheels(I, ob, name, n):
    """wheels sit at the axles and the trailer is joined at the hitch"""
    R = Rig(I, name, n=n)
    q = R.q()
    R('setup_animation_patches', Opaque('ax'))
    R('update_animation_patches', q)
    cen = []
    for o in drawn_rects(I):
        cen.append((T.div(T.add(o[0][0], o[2][0]), 2), T.div(T.add(o[0][1], o[2][1]), 2)))
    Q = aslist(q)
    sp = specs(I)
    want = [('tractor rear axle', (Q[0], Q[1])), ('tractor front axle', tuple(aslist(sp('front', R.P, q))))]
    if name in ('tt2d', 'acc_tt2d'):
        want.append(('trailer axle', tuple(aslist(sp('axle', R.P, name, n, q, 0)))))
    for nm, w in want:
        ok = any(same_points(ob, [w], [c]) for c in cen)
        ob.check(ok, f'a wheel is drawn at the {nm}', 'no drawn wheel is centred there', rule='drawn wheels')


def obstacles_drawn(I, ob, name, n, where):
    R = Rig(I, name, n=n)
    cs, rs = R.obstacles(2, 2)
    start = dict(x=T.sym('s.x', kind='pos'), y=T.sym('s.y', kind='pos'), theta1=T.sym('s.th', kind='angle'))
    R('set_init_pos', **start)
    g = R.goal()
    display(I, R, where)
    spots = []
    for e in calls(I, 'scatter', 'plot'):
        try:
            p = [aslist(mkarr(v)) if not is_scalar(v) else [T.to_num(unwrap0(v))] for v in e[2][:2]]
        except Exception:
            continue
        if len(p) == 2 and len(p[0]) == len(p[1]) == 1:
            spots.append((p[0][0], p[1][0]))
    for nm, a in (('start', start), ('goal', g)):
        if where != 'plot':
            ok = any(same_points(ob, [(a['x'], a['y'])], [p]) for p in spots)
            ob.check(ok, f'the {nm} is marked where it is', f'{len(spots)} markers, none there', rule='drawn poses')
    circ = calls(I, 'Circle')
    got = [(aslist(e[2][0] if e[2] else e[3]['xy']), T.to_num(unwrap0(e[2][1] if len(e[2]) > 1 else e[3]['radius']))) for e in circ]
    for i, c in enumerate(cs):
        ok = any(same_points(ob, [(p[0], p[1]), (r, r)], [(c[0], c[1]), (c[2], c[2])]) for p, r in got)
        ob.check(ok, f'circle {i} is drawn where it is checked', f'{len(got)} circles drawn, none of them this one', rule='drawn obstacles')
    outl = drawn_rects(I)
    for i, r in enumerate(rs):
        b = [r[0], r[1], r[4], T.div(r[2], 2), T.div(r[3], 2)]
        match(ob, f'rectangle {i} is drawn where it is checked', outline(b), outl, 'drawn obstacles')


def c07():
    c = Check('C07', 'What is drawn is what is checked', [
        'drawn footprint: corners of each drawn body == corners of the footprint used for collision, as value graphs',
        'drawn obstacles: each obstacle is drawn with the centre, size and angle used for collision',
        'drawn wheels: wheels are centred on the axles'])
    for name, n in ALL:
        c.add(f'{name}{n} bodies', drawing, name, n)
        if name != 'n_trailer2d':
            c.add(f'{name}{n} wheels', wheels, name, n)
        for where in ('plot', 'animation', 'denoising'):
            c.add(f'{name}{n} obstacles in the {where}', obstacles_drawn, name, n, where)
    return c
