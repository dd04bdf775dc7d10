# Reference formulas the properties are stated with.  This file is interpreted by the
# analyser (as value graphs), never executed.  P is a dict of model parameters.
import jax.numpy as jnp

PI = jnp.pi


def wrap(a):
    return (a + PI) % (2 * PI) - PI


# ------------------------------------------------------------------ motion
def dmax(P):
    return P['delta_max_deg'] * PI / 180.0


def rates_tt(P, th1, th2, v, delta):
    w1 = v * jnp.tan(delta) / P['l1']
    w2 = v * jnp.sin(th1 - th2) / P['l2'] - P['lh'] * w1 * jnp.cos(th1 - th2) / P['l2']
    return w1, w2


def move_tt(P, q, v, delta, dt):
    w1, w2 = rates_tt(P, q[2], q[3], v, delta)
    return jnp.array([q[0] + dt * v * jnp.cos(q[2]), q[1] + dt * v * jnp.sin(q[2]), q[2] + dt * w1, q[3] + dt * w2])


def move_bicycle(P, q, v, delta, dt):
    return jnp.array([q[0] + dt * v * jnp.cos(q[2]), q[1] + dt * v * jnp.sin(q[2]), q[2] + dt * v * jnp.tan(delta) / P['l1']])


def move_n(P, n, q, v, delta, dt):
    # chain: speed and turn rate are handed from body to body through off-axle hitches
    w = v * jnp.tan(delta) / P['l1']
    out = [q[0] + dt * v * jnp.cos(q[2]), q[1] + dt * v * jnp.sin(q[2]), q[2] + dt * w]
    s, prev, L = v, q[2], P['l2']
    for k in range(n):
        th = q[3 + k]
        d = prev - th
        wk = (s * jnp.sin(d) - P['lh'] * w * jnp.cos(d)) / L
        s = s * jnp.cos(d) + P['lh'] * w * jnp.sin(d)
        out.append(th + dt * wk)
        w, prev = wk, th
    return jnp.array(out)


def move_acc(P, q, a, omega, dt):
    v = jnp.clip(q[4], -P['v_max'], P['v_max'])
    delta = jnp.clip(q[5], -dmax(P), dmax(P))
    k = move_tt(P, q, v, delta, dt)
    return jnp.array([k[0], k[1], k[2], k[3], q[4] + dt * a, q[5] + dt * omega])


def clip1(u):
    return jnp.clip(u, -1.0, 1.0)


def move(P, name, n, q, u):
    """one step under the normalised control u"""
    u = clip1(u)
    if name == 'acc_tt2d':
        return move_acc(P, q, u[0] * P['a_max'], u[1] * P['omega_max'], P['dt'])
    v, delta = u[0] * P['v_max'], u[1] * dmax(P)
    if name == 'kinematic_bicycle2d':
        return move_bicycle(P, q, v, delta, P['dt'])
    if name == 'n_trailer2d':
        return move_n(P, n, q, v, delta, P['dt'])
    return move_tt(P, q, v, delta, P['dt'])


# ------------------------------------------------------------------ geometry
def bodies(P, name, n, q):
    """(cx, cy, heading, half length, half width) of every body, tractor first"""
    s = 0.5 * (P['l1'] + P['lf1'] - P['lr'])
    out = [(q[0] + s * jnp.cos(q[2]), q[1] + s * jnp.sin(q[2]), q[2], 0.5 * (P['l1'] + P['lf1'] + P['lr']), 0.5 * P['tractor_width'])]
    if name == 'kinematic_bicycle2d':
        return out
    m = n if name == 'n_trailer2d' else 1
    hx, hy = q[0] - P['lh'] * jnp.cos(q[2]), q[1] - P['lh'] * jnp.sin(q[2])
    for k in range(m):
        th = q[3 + k]
        rear = P['lr2'] if k == m - 1 else P['lr']
        ax, ay = hx - P['l2'] * jnp.cos(th), hy - P['l2'] * jnp.sin(th)
        o = 0.5 * (P['lf2'] - rear)
        out.append((ax + o * jnp.cos(th), ay + o * jnp.sin(th), th, 0.5 * (P['lf2'] + rear), 0.5 * P['trailer_width']))
        hx, hy = ax - (rear + P['lh']) * jnp.cos(th), ay - (rear + P['lh']) * jnp.sin(th)
    return out


def axle(P, name, n, q, k):
    """axle centre of trailer k (0-based)"""
    m = n if name == 'n_trailer2d' else 1
    hx, hy = q[0] - P['lh'] * jnp.cos(q[2]), q[1] - P['lh'] * jnp.sin(q[2])
    for j in range(k + 1):
        th = q[3 + j]
        rear = P['lr2'] if j == m - 1 else P['lr']
        ax, ay = hx - P['l2'] * jnp.cos(th), hy - P['l2'] * jnp.sin(th)
        hx, hy = ax - (rear + P['lh']) * jnp.cos(th), ay - (rear + P['lh']) * jnp.sin(th)
    return jnp.array([ax, ay])


def hits_circle(b, c):
    """distance from the centre to the solid rectangle is at most the radius"""
    dx, dy = c[0] - b[0], c[1] - b[1]
    lx = dx * jnp.cos(b[2]) + dy * jnp.sin(b[2])
    ly = -dx * jnp.sin(b[2]) + dy * jnp.cos(b[2])
    ex = jnp.maximum(jnp.abs(lx) - b[3], 0.0)
    ey = jnp.maximum(jnp.abs(ly) - b[4], 0.0)
    return ex ** 2 + ey ** 2 <= c[2] ** 2


def hits_rect(b, r):
    """two solid rectangles overlap: no separating axis among the four edge directions"""
    dx, dy = r[0] - b[0], r[1] - b[1]
    hw, hh = r[2] / 2, r[3] / 2
    rel = r[4] - b[2]
    c, s = jnp.abs(jnp.cos(rel)), jnp.abs(jnp.sin(rel))
    lx = dx * jnp.cos(b[2]) + dy * jnp.sin(b[2])
    ly = -dx * jnp.sin(b[2]) + dy * jnp.cos(b[2])
    mx = dx * jnp.cos(r[4]) + dy * jnp.sin(r[4])
    my = -dx * jnp.sin(r[4]) + dy * jnp.cos(r[4])
    return ((jnp.abs(lx) <= b[3] + hw * c + hh * s) & (jnp.abs(ly) <= b[4] + hw * s + hh * c)
            & (jnp.abs(mx) <= hw + b[3] * c + b[4] * s) & (jnp.abs(my) <= hh + b[3] * s + b[4] * c))


def collides(P, name, n, q, circles, rects):
    hit = False
    for b in bodies(P, name, n, q):
        for c in circles:
            hit = hit | hits_circle(b, c)
        for r in rects:
            hit = hit | hits_rect(b, r)
    return hit


def jackknifed(P, name, n, q):
    m = 0 if name == 'kinematic_bicycle2d' else (n if name == 'n_trailer2d' else 1)
    bad = False
    for k in range(m):
        bad = bad | (jnp.abs(wrap(q[2 + k] - q[3 + k])) > 40.0 * PI / 180.0)
    return bad


# ------------------------------------------------------------------ fallback
def brake(P, q):
    """strongest deceleration that does not reverse the motion within one step"""
    v = q[4]
    return jnp.where(jnp.abs(v) > 0.01, -jnp.sign(v) * jnp.minimum(jnp.abs(v) / P['dt'], P['a_max']), 0.0)


def brake_path(P, q, k):
    """states of the predicted braking manoeuvre, one per second, until standstill"""
    out = []
    for _ in range(k):
        a = -jnp.sign(q[4]) * jnp.minimum(jnp.abs(q[4]), P['a_max'])
        q = jnp.where(jnp.abs(q[4]) > 0.01, move_acc(P, q, a, 0.0, 1.0), q)
        out.append(q)
    return out


# ------------------------------------------------------------------ rewards
def hinge(d, thr):
    return 1.0 - (jnp.minimum(d, thr) / thr) ** 2


def dist(a, b):
    return jnp.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2)


def front(P, q):
    return (q[0] + P['l1'] * jnp.cos(q[2]), q[1] + P['l1'] * jnp.sin(q[2]))


def goal_distance(P, name, n, mp, q, g):
    """distance the position reward is about"""
    tr = dist(front(P, q), g)
    if name == 'kinematic_bicycle2d':
        return tr
    m = n if name == 'n_trailer2d' else 1
    la = dist(axle(P, name, n, q, m - 1), axle(P, name, n, g, m - 1))
    if mp == 1 or mp == 2:
        return tr
    if name == 'n_trailer2d' and mp == 0:
        return jnp.minimum(tr, la)
    return la


def stage_reward(P, name, n, mp, q, g):
    d = goal_distance(P, name, n, mp, q, g)
    r_pos = hinge(d, P['reward_threshold'])
    if name == 'n_trailer2d':
        return r_pos
    rig = P['l1'] + P['lh'] + P['l2']
    w = 1.0 / (1.0 + jnp.exp(-(P['d_thr_factor'] * rig - d) / P['k_switch']))
    w = jnp.minimum(w, P['max_w_theta'])
    bike = name == 'kinematic_bicycle2d'
    e = [wrap(q[2] - g[2])] if bike else [wrap(q[2] - g[2]), wrap(q[3] - g[2])]
    o = [wrap(q[2] - g[2] - PI)] if bike else [wrap(q[2] - g[2] - PI), wrap(q[3] - g[2] - PI)]
    te, to = sum([jnp.abs(x) for x in e]), sum([jnp.abs(x) for x in o])
    if mp == 0:
        e = [jnp.where(te < to, x, y) for x, y in zip(e, o)]
    r_hdg = sum([1.0 - (x / (PI / 2)) ** 2 for x in e])
    if bike:
        return (1.0 - w) * r_pos + w * r_hdg
    r_hdg = P['heading_reward_weight'] * r_hdg
    r_art = 1.0 - (wrap(q[2] - q[3]) / (40.0 * PI / 180.0)) ** 2
    h = P['hitch_angle_weight']
    return (1.0 - h) * ((1.0 - w) * r_pos + w * r_hdg) + h * r_art


def terminal_reward(P, name, n, mp, q, g):
    return hinge(goal_distance(P, name, n, mp, q, g), P['terminal_reward_threshold'])


def preference_penalty(P, mp, v):
    if mp == 1:
        return P['preference_penalty_weight'] * jnp.maximum(-v, 0.0)
    if mp == -1:
        return P['preference_penalty_weight'] * jnp.maximum(v, 0.0)
    return 0.0


# ------------------------------------------------------------------ demonstration
def demo_density(P, name, n, mp, xs, xref, mask):
    """mean over the points of the weighted, clipped squared distances to the demonstration"""
    bike = name == 'kinematic_bicycle2d'
    tot = 0.0
    for k in range(len(xs)):
        q, r = xs[k], xref[k]
        at = (q[0], q[1]) if bike or mp > 0 else axle(P, name, n, q, 0)
        d = dist(at, r)
        e = [wrap(q[2] - r[2])] if bike else [wrap(q[2] - r[2]), wrap(q[3] - r[3])]
        o = [wrap(q[2] - r[2] - PI)] if bike else [wrap(q[2] - r[2] - PI), wrap(q[3] - r[3] - PI)]
        te, to = sum([jnp.abs(x) for x in e]), sum([jnp.abs(x) for x in o])
        w = [P['ref_theta1_weight']] if bike else [P['ref_theta1_weight'], P['ref_theta2_weight']]
        v = -P['ref_pos_weight'] * (jnp.minimum(d, P['ref_reward_threshold']) / P['ref_reward_threshold']) ** 2
        cap = 40.0 * PI / 180.0
        for j in range(len(e)):
            x = jnp.where(te < to, e[j], o[j]) if mp == 0 else e[j]
            v = v - jnp.where(mask[k], w[j] * (jnp.minimum(jnp.abs(x), cap) / cap) ** 2, 0.0)
        tot = tot + v
    return tot / len(xs)


# ------------------------------------------------------------------ guidance
def guided(P, name, n, q, circles, nobs):
    """three descent steps of 0.05 on the squared intrusions into the margins and the squared excess of articulation"""
    bike = name == 'kinematic_bicycle2d'
    kin = q[:4] if name == 'acc_tt2d' else q
    for _ in range(3):
        x, y, th = kin[0], kin[1], kin[2]
        g = [0.0 * kin[k] for k in range(len(kin))]
        pts = [(x, y, [(1.0, 0.0), (0.0, 1.0)])]
        if not bike:
            a = kin[3]
            pts.append((x - P['lh'] * jnp.cos(th) - P['l2'] * jnp.cos(a), y - P['lh'] * jnp.sin(th) - P['l2'] * jnp.sin(a),
                        [(1.0, 0.0), (0.0, 1.0), (P['lh'] * jnp.sin(th), -P['lh'] * jnp.cos(th)), (P['l2'] * jnp.sin(a), -P['l2'] * jnp.cos(a))]))
        for c in circles:
            for px, py, J in pts:
                dx, dy = px - c[0], py - c[1]
                d = jnp.sqrt(dx ** 2 + dy ** 2)
                inside = jnp.maximum(c[2] + 2.0 - d, 0.0)
                for k in range(len(J)):
                    g[k] = g[k] - 2.0 * inside * (J[k][0] * dx + J[k][1] * dy) / d
        if not bike:
            cap = 40.0 * PI / 180.0
            w = max(1.0, 0.05 * nobs)
            fold = [kin[2] - kin[3] + o for o in (0.0, 2.0 * PI, -2.0 * PI)]
            over = [jnp.maximum(jnp.abs(f) - cap, 0.0) for f in fold]
            best = jnp.where((over[0] <= over[1]) & (over[0] <= over[2]), over[0], jnp.where(over[1] <= over[2], over[1], over[2]))
            sign = jnp.where((over[0] <= over[1]) & (over[0] <= over[2]), jnp.sign(fold[0]), jnp.where(over[1] <= over[2], jnp.sign(fold[1]), jnp.sign(fold[2])))
            g[2] = g[2] + 2.0 * w * best * sign
            g[3] = g[3] - 2.0 * w * best * sign
        lim = [100.0, 100.0] + [2.0 * PI] * (len(g) - 2)
        kin = [jnp.clip(kin[k] - 0.05 * g[k], -lim[k], lim[k]) for k in range(len(g))]
    return jnp.array(kin + [q[4], q[5]]) if name == 'acc_tt2d' else jnp.array(kin)
