"""Puts a vehicle on one of the repository's displays."""
from sa.lab import *
from sa.drive import *
from sa import terms as T
from checks.planner import CFG


def display(I, R, where, case='navigation'):
    """render the scene: static plot, animation or denoising animation"""
    if where == 'plot':
        R('render', Opaque('ax'), mkarr([[T.sym(f'xs{t}{i}') for i in range(R.nx)] for t in range(R.args.get('H', 50) + 1)]))
        return
    for nm in ('check_obstacle_collision', 'check_hitch_violation'):
        R.attr(nm)
        R.env.attrs[nm] = lambda *a, **k: T.boolean(False)
    R.attr('update_animation_patches')
    R.env.attrs['update_animation_patches'] = lambda *a, **k: None
    conv = I.load('mbd.planners.mbd_planner').ns['dict_to_config_obj']
    cfg = I.call(conv, [dict(CFG, env_name=R.name, case=case, num_trailers=R.n, show_animation=True, temp_sample=T.flt(0.5), beta0=T.flt(0.01), betaT=T.flt(0.1))])
    u = I.load('mbd.utils').ns
    root = I.load('mbd').ns['__path__'][0] + f'/../results/{R.name}/animations/'
    import os.path as osp
    I.fs_exists[osp.normpath(root + 'denoising')] = I.fs_exists[osp.normpath(root + 'trajectory')] = True
    for t in ('denoising', 'trajectory'):
        I.fs_files[f'{root}{t}/*.png'] = []
        I.fs_files[f'{root}{t}/frame_*.png'] = []
    q = mkarr([T.sym(f'xs{i}') for i in range(R.nx)])
    if where == 'animation':
        I.call(u['create_animation'], [R.env, [q], [None], cfg])
    else:
        st = R.state(q)
        I.call(u['create_denoising_animation'], [R.env, mkarr([[[T.num(0), T.num(0)]]]), cfg, lambda s, u: s, st])
