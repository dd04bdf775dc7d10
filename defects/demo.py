"""Concrete demonstrations of the defects repaired by the fix: commits.
Run with cwd = a checkout of safe-mpd; prints OK/DEFECT per item.  Documentation only."""
import os
os.environ.setdefault('JAX_PLATFORMS', 'cpu'); os.environ.setdefault('MPLBACKEND', 'Agg')
import warnings; warnings.simplefilter("ignore")
import sys; sys.path.insert(0, os.getcwd())
import jax, jax.numpy as jnp, numpy as np
import mbd; assert os.path.realpath(mbd.__path__[0]).startswith(os.path.realpath(os.getcwd())), mbd.__path__
from mbd.envs import get_env
from mbd import utils
from mbd.planners.mbd_planner import dict_to_config_obj, MBDConfig
import dataclasses

def rep(name, ok, info=''):
    print(('OK     ' if ok else 'DEFECT '), name, info)

def st(e, q): return e.reset(jax.random.PRNGKey(0)).replace(pipeline_state=jnp.array(q))
far = [[1e3, 1e3, 0.1]]
# braking sign
e = get_env('acc_tt2d', case='navigation', dt=0.25); e.obs_circles = jnp.array([[-1.5, 0, 3.]]); e.obs_rectangles = jnp.zeros((0, 5))
s = e.step(st(e, [0, 0, 0, 0, -0.3, 0.]), jnp.array([1., 0.]))
rep('acc fallback brakes', abs(float(s.pipeline_state[4])) < 1e-6, s.pipeline_state)
# solid body
e = get_env('tt2d', case='navigation')
rep('circle inside body detected', bool(e.check_obstacle_collision(jnp.zeros(4), jnp.array([[1., 0., .1]]), jnp.zeros((0, 5)))))
rep('no obstacles, no collision', not bool(e.check_obstacle_collision(jnp.array([-2., 1., .0, .0]), e.obs_circles, jnp.zeros((0, 5)))))
rep('placeholder obstacle not on the vehicle edge', not bool(e.check_obstacle_collision(jnp.array([-2., 1., 0., 0.]), e.obs_circles, e.obs_rectangles)))
# projection footprint
e = get_env('tt2d', case='navigation', enable_projection=True); e.obs_circles = jnp.array([[4.9, 0.6, .5]]); e.obs_rectangles = jnp.zeros((0, 5))
import scipy.optimize as so
orig = so.minimize; cap = {}
def spy(fun, x0, **k): cap.update(k); return orig(fun, x0, **k)
so.minimize = spy; e._numpy_projection_function((np.zeros(4), np.array([1., 0.]))); so.minimize = orig
g = cap['constraints']['fun'](np.array([1., 0.])).min(); q = jnp.array([.6, 0, 0, 0])
rep('projection constraint sees the collision of the full body', not (g >= 0 and bool(e.check_obstacle_collision(q, e.obs_circles, e.obs_rectangles))), g)
# n trailer
e = get_env('n_trailer2d', case='navigation', num_trailers=2)
p = e.get_last_trailer_position(jnp.zeros(5)); rep('last trailer behind the first', abs(float(p[0]) + 2 * e.lh + 2 * e.l2 + e.lr) < 1e-4, p)
e = get_env('n_trailer2d', case='navigation', num_trailers=2, motion_preference=1); e.obs_circles = jnp.array([[0., 0., 9.]])
s = e.step(st(e, [0., 0, 0, 0, 0]), jnp.array([-1., 0.])); r = float(e.get_reward(s.pipeline_state)) - e.collision_penalty
rep('n-trailer held, no preference penalty', abs(float(s.reward) - r) < 1e-6, (float(s.reward), r))
# config
d = dataclasses.asdict(MBDConfig()); d.update(num_trailers=3, frame_skip=4, verbose=True); c = dict_to_config_obj(d)
rep('config dict kept', (c.num_trailers, c.frame_skip, c.verbose) == (3, 4, True))
# animation twice
import matplotlib.pyplot as plt
e = get_env('tt2d', case='navigation'); 
try:
    for _ in range(2):
        fig, ax = plt.subplots(); e.setup_animation_patches(ax); e.update_animation_patches(np.zeros(4))
    rep('second animation', True)
except IndexError as x: rep('second animation', False, x)
# reset
e = get_env('tt2d', case='navigation'); e.reset(jax.random.PRNGKey(0)); e.set_init_pos(x=5., y=5.)
rep('reset sees new start', float(e.reset(jax.random.PRNGKey(0)).pipeline_state[0]) == 5.0)
# projection flags
e = get_env('tt2d', case='navigation', enable_projection=True); e.obs_circles = jnp.array([[0., 0., 9.]]); e.obs_rectangles = jnp.zeros((0, 5))
s = e.step(st(e, [0., 0, 0, 0]), jnp.array([.1, 0.])); r = float(e.get_reward(s.pipeline_state)) - e.collision_penalty
rep('collision after failed projection is penalised', abs(float(s.reward) - r) < 1e-5, (float(s.reward), r))
# plot limits
e = get_env('tt2d', case='parking'); a = e.env.get_parking_space_center(3); e.env.set_plot_limits((-5, 5), (-5, 5))
rep('plot limits do not move the lot', e.env.get_parking_space_center(3) == a)
# stop prediction
e = get_env('acc_tt2d', case='navigation', dt=0.25); e.obs_circles = jnp.array([[-10.5, 0., 1.4]]); e.obs_rectangles = jnp.zeros((0, 5))
s = e.step(st(e, [0, 0, 0, 0, 0.2, 0.]), jnp.array([.5, 0.]))
rep('slow forward motion not rejected for an obstacle far behind', abs(float(s.pipeline_state[4]) - .45) < 1e-5, s.pipeline_state)
# rollout start
e = get_env('acc_tt2d', case='navigation', dt=0.25); e.set_init_pos(x=0., y=0., v=1.0); s0 = e.reset(jax.random.PRNGKey(0))
us = jnp.zeros((2, 2)); _, qs, _ = utils.rollout_us(e.step, s0, us)
rep('rollout starts at the given state', abs(float(qs[0, 0]) - .25) < 1e-6, qs[:, 0])
# acceleration vehicle: projection (known finding, prints a failure)
e = get_env('acc_tt2d', case='navigation', dt=0.25, enable_projection=True); e.obs_circles = jnp.array([[e.l1 + e.lf1 + 1.2, 0., 1.0]]); e.obs_rectangles = jnp.zeros((0, 5))
so.minimize = spy; e.project_control_to_safe_set(jnp.zeros(6), jnp.array([1., 0.])); so.minimize = orig
g = cap['constraints']['fun'](np.array([1., 0.])).min(); n = e.step(st(e, [0.] * 6), jnp.array([1., 0.])).pipeline_state
rep('KNOWN: a control the projection forbids has an unsafe next state', not (g < 0 and not bool(e.check_obstacle_collision(n[:4], e.obs_circles, e.obs_rectangles))), g)
