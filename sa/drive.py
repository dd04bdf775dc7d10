"""Drives the analysed repository's public interface with symbolic inputs."""
from __future__ import annotations
import os
from . import terms as T
from .terms import S
from .values import *
from .interp import Interp, NativeMethod
from .lab import VERIF, Reject

PI = None
ENVS = {'tt2d': 4, 'kinematic_bicycle2d': 3, 'acc_tt2d': 6, 'n_trailer2d': None}

# symbolic constructor parameters and the ranges they are sampled in
RANGES = dict(
    l1=(1.5, 5), l2=(1.5, 6), lh=(0.2, 2), lf1=(0.2, 2), lr=(0.3, 2.5), lf2=(0.3, 2.5), lr2=(0.3, 3.5),
    tractor_width=(0.8, 3), trailer_width=(0.8, 3), dt=(0.05, 0.5), v_max=(0.5, 5), delta_max_deg=(10, 65),
    a_max=(0.5, 4), omega_max=(0.2, 2), collision_penalty=(0.05, 2), hitch_penalty=(0.05, 2),
    reward_threshold=(3, 50), ref_reward_threshold=(3, 30), max_w_theta=(0.1, 1), hitch_angle_weight=(0.02, 0.9),
    d_thr_factor=(0.3, 3), k_switch=(0.5, 6), steering_weight=(0.01, 1), preference_penalty_weight=(0.05, 2),
    heading_reward_weight=(0.1, 1), terminal_reward_threshold=(3, 40), terminal_reward_weight=(0.1, 8),
    ref_pos_weight=(0.1, 1), ref_theta1_weight=(0.1, 1), ref_theta2_weight=(0.1, 1))
CONCRETE = dict(l1=3.1, l2=2.7, lh=1.05, lf1=0.8, lr=1.7, lf2=1.3, lr2=3.0, v_max=2.5, dt=0.21, tractor_width=1.9,
                trailer_width=2.3, delta_max_deg=50.0, a_max=1.7, omega_max=0.9, collision_penalty=0.17, hitch_penalty=0.12,
                reward_threshold=20.0, ref_reward_threshold=7.0, max_w_theta=0.6, hitch_angle_weight=0.15, d_thr_factor=1.1,
                k_switch=2.2, steering_weight=0.03, preference_penalty_weight=0.3, heading_reward_weight=0.5,
                terminal_reward_threshold=15.0, terminal_reward_weight=3.0, ref_pos_weight=0.5, ref_theta1_weight=0.3,
                ref_theta2_weight=0.2)


def param(n):
    lo, hi = RANGES[n]
    return T.sym('p.' + n, lo, hi)


class Rig:
    """an environment of the analysed program plus the parameters it was given"""

    def __init__(self, I, name, case='navigation', n=1, conc=(), sym=True, **kw):
        self.I, self.name, self.n, self.case = I, name, n, case
        self.P = {}
        args = {}
        for k in RANGES:
            conc_k = (conc == '*') or (k in conc) or not sym
            v = T.flt(CONCRETE[k]) if conc_k else param(k)
            self.P[k] = v
            args[k] = v
        if name == 'acc_tt2d':
            # the stopping horizon is a static length
            for k in ('v_max', 'a_max'):
                args[k] = self.P[k] = T.flt(kw.pop(k, CONCRETE[k]))
        for k, v in kw.items():
            if k in RANGES and not isinstance(v, S):
                v = T.flt(v)
            args[k] = v
            self.P[k] = v
        if name == 'n_trailer2d' or (name == 'tt2d' and n != 1):
            args['num_trailers'] = n
        self.args = args
        m = I.load('mbd.envs')
        if 'get_env' not in m.ns:
            raise Reject('mbd.envs.get_env is gone')
        self.env = I.call(m.ns['get_env'], [name], dict(args, case=case))
        self.nx = {'tt2d': 4, 'kinematic_bicycle2d': 3, 'acc_tt2d': 6, 'n_trailer2d': 3 + n}[name]
        if name == 'tt2d' and n == 0:
            self.nx = 3
        if name == 'tt2d' and n > 1:
            self.nx = 3 + n

    def __call__(self, meth, *a, **k):
        return self.I.call(self.I.getattr(self.env, meth), list(a), k)

    def attr(self, n):
        return self.I.getattr(self.env, n)

    def set(self, n, v):
        self.I.setattr(self.env, n, v)

    # -- symbolic inputs
    def q(self, tag='q'):
        v = [T.sym(f'{tag}.x', kind='pos'), T.sym(f'{tag}.y', kind='pos')]
        v += [T.sym(f'{tag}.th{k}', kind='angle') for k in range(min(self.nx, 4) - 2 if self.name in ('tt2d', 'acc_tt2d') and self.n == 1 else self.nx - 2)]
        if self.name == 'acc_tt2d':
            v += [T.sym(f'{tag}.v', -3, 3), T.sym(f'{tag}.delta', -1.2, 1.2)]
        return mkarr(v)

    def u(self, tag='u', lo=-1, hi=1):
        return mkarr([T.sym(f'{tag}.0', lo, hi), T.sym(f'{tag}.1', lo, hi)])

    def goal(self, tag='g'):
        """a symbolic goal pose through the public setter"""
        a = dict(x=T.sym(f'{tag}.x', kind='pos'), y=T.sym(f'{tag}.y', kind='pos'), theta1=T.sym(f'{tag}.th1', kind='angle'))
        if self.nx > 3:
            a['theta2'] = T.sym(f'{tag}.th2', kind='angle')
        self('set_goal_pos', **a)
        return a

    def obstacles(self, nc=1, nr=1):
        """symbolic obstacles through the public setters"""
        cs = [[T.sym(f'c{i}.x', kind='pos'), T.sym(f'c{i}.y', kind='pos'), T.sym(f'c{i}.r', 0, 4)] for i in range(nc)]
        rs = [[T.sym(f'r{i}.x', kind='pos'), T.sym(f'r{i}.y', kind='pos'), T.sym(f'r{i}.w', 0.2, 8), T.sym(f'r{i}.h', 0.2, 8),
               T.sym(f'r{i}.a', kind='angle')] for i in range(nr)]
        if nc:
            self('set_circle_obs', cs)
        if nr:
            self('set_rectangle_obs', rs, coordinate_mode='center')
        return cs, rs

    def state(self, q, backup=False):
        st = self('reset', Key(('key', 0)))
        return self.I.replace(st, dict(pipeline_state=q, obs=q, in_backup_mode=T.boolean(backup) if isinstance(backup, bool) else backup))

    def step(self, q, u, backup=False):
        return self('step', self.state(q, backup), u)

    def kin(self, q):
        """what the collision and hitch checks take"""
        return self.I.getitem(q, slice(0, 4)) if self.name == 'acc_tt2d' else q

    def hit(self, q):
        return self('check_obstacle_collision', self.kin(q), self.attr('obs_circles'), self.attr('obs_rectangles'))

    def hitch(self, q):
        if self.name == 'kinematic_bicycle2d' or self.nx == 3:
            return T.boolean(False)
        return self('check_hitch_violation', self.kin(q))


def specs(I, P=None):
    """the reference formulas, interpreted by the same engine"""
    with open(os.path.join(VERIF, 'specs', 'model.py')) as f:
        src = f.read()
    m = I.load_source(src, 'spec')

    def call(name, *a, **k):
        return I.call(m.ns[name], list(a), k)
    return call
