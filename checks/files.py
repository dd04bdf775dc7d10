"""Rendering and animation: what is written and shown, and that planning is not affected."""
import os.path as osp
from sa.lab import *
from sa.drive import *
from sa import terms as T
from sa.interp import NativeMethod
from checks.planner import Plan

WRITES = {'jnp.save': 0, 'np.save': 0, 'savez': 0, 'savetxt': 0, 'open': 0, 'makedirs': 0, 'mkdir': 0, 'dump': 1}
DELETES = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'os.rename', 'os.replace', 'shutil.move', 'os.truncate'}
EXEC = {'os.system', 'os.popen'}


def results(I, env_name):
    return osp.normpath(osp.join(I.load('mbd').ns['__path__'][0], '..', 'results', env_name))


def effects(I):
    """(kind, path, event) of everything the trace does to the file system"""
    out = []
    for e in I.events:
        if e[0] != 'call':
            continue
        nm, a, k = e[1], e[2], e[3]
        last = nm.rsplit('.', 1)[-1]
        if nm in DELETES:
            out.append(('delete', a[0] if a else None, e))
        elif nm in EXEC:
            out.append(('exec', a[0] if a else None, e))
        elif nm.startswith('subprocess.'):
            out.append(('run', a[0] if a else k.get('args'), e))
        elif nm == 'open':
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            if any(c in mode for c in 'wax+'):
                out.append(('write', a[0] if a else k.get('file'), e))
        elif nm in ('os.makedirs', 'os.mkdir'):
            out.append(('mkdir', a[0], e))
        elif last == 'savefig':
            out.append(('write', a[0] if a else k.get('fname'), e))
        elif nm.startswith(('shutil.', 'os.chmod', 'os.symlink', 'os.chdir')):
            out.append(('other', a[-1] if a else None, e))
        elif nm.split('.')[0] in ('np', 'jnp', 'numpy', 'jax') and last in ('save', 'savez', 'savez_compressed', 'savetxt'):
            out.append(('write', a[0] if a else k.get('file'), e))
    return out


def quiet(R):
    """no markers: the vehicle collides nowhere (the marker checks look at that)"""
    for nm in ('check_obstacle_collision', 'check_hitch_violation'):
        R.attr(nm)
        R.env.attrs[nm] = lambda *a, **k: T.boolean(False)


def shown(R):
    """records what the vehicle is drawn as"""
    I = R.I
    R.attr('update_animation_patches')

    def upd(x, u=None):
        I.effect('shown', None, (x, u), {})
    R.env.attrs['update_animation_patches'] = upd


def args_of(I, R, **over):
    conv = I.load('mbd.planners.mbd_planner').ns['dict_to_config_obj']
    return I.call(conv, [dict(R.cfg, **over)])


# ---------------------------------------------------------------- C25
FLAGS = ('save_animation', 'show_animation', 'save_denoising_animation')


def is_png(p):
    return p.endswith('.png')


def confined(I, ob, env_name, since=0):
    root = results(I, env_name)
    r = 'confined files'
    for kind, p, e in effects(I):
        if kind == 'run':
            cmd = e[2][0] if e[2] else e[3].get('args')
            ok = isinstance(cmd, list) and cmd and cmd[0] == 'ffmpeg' and e[3].get('shell', False) is False
            ob.check(ok, f'only the video encoder is started ({e[4]})', f'{str(cmd)[:120]}', rule=r)
            if ok:
                files = [x for x in cmd[1:] if isinstance(x, str) and x.startswith(('/', '.'))]
                ob.check(all(osp.normpath(x).startswith(root + '/animations/') for x in files), f'the encoder works in the animation folder ({e[4]})', f'{files}', rule=r)
            continue
        if kind in ('exec', 'other'):
            ob.fail(f'{e[1]} at {e[4]}', f'{e[1]} {p}', r)
            continue
        if not isinstance(p, str):
            ob.fail(f'{e[1]} at {e[4]}', f'the place of a {kind} is not known: {p!r}', r)
            continue
        q = osp.normpath(p)
        ob.check(q == root or q.startswith(root + '/'), f'{kind} stays in the results of the vehicle ({e[4]})', f'{kind} {q} is outside {root}', rule=r)
        if kind == 'delete':
            inside = q.startswith(root + '/animations/') and len(q[len(root) + 12:].split('/')) == 2
            own = any(k2 == 'write' and isinstance(p2, str) and osp.normpath(p2) == q for k2, p2, _ in effects(I))
            ob.check(inside and (is_png(q) or own), f'only frames are deleted ({e[4]})', f'deletes {q}', rule=r)


def after_encoding(I, ob):
    """frames written by this run are deleted only after they were encoded"""
    eff = effects(I)
    for i, (kind, p, e) in enumerate(eff):
        if kind != 'delete' or not isinstance(p, str) or not is_png(p):
            continue
        d = osp.dirname(osp.normpath(p))
        wrote = [j for j in range(i) if eff[j][0] == 'write' and isinstance(eff[j][1], str) and osp.dirname(osp.normpath(eff[j][1])) == d]
        if not wrote:
            continue
        runs = [j for j in range(wrote[-1], i) if eff[j][0] == 'run' and any(isinstance(x, str) and osp.dirname(osp.normpath(x)) == d for x in (eff[j][1] or []))]
        ok = bool(runs) and T.b_and(e[7], T.b_not(T.eq(eff[runs[-1]][2][6], 0).d)) is T.FALSE
        ob.check(ok, f'frames are deleted only once encoded ({e[4]})', 'frames of this run are deleted although encoding them failed' if runs else 'frames of this run are deleted before they are encoded', rule='frames kept')


def folders(I, ob):
    """a folder is made before files are put into it"""
    made, r = [], 'folder first'
    for kind, p, e in effects(I):
        if kind == 'mkdir' and isinstance(p, str):
            made.append(osp.normpath(p))
        if kind == 'write' and isinstance(p, str):
            d = osp.dirname(osp.normpath(p))
            below = lambda x: x == d or x.startswith(d + '/')
            names = [n for n in seen_exists(I) if below(n)]
            there = any(below(m) for m in made) or any(I.fs_exists.get(x) and below(x) for x in I.fs_exists if x not in made) \
                or any(T.b_and(e[7], T.b_not(T.bsym(f'opaque:exists({n})').d)) is T.FALSE for n in names)
            ob.check(there, f'the folder of a file exists when it is written ({e[4]})', f'{d} may not exist', rule=r)


def seen_exists(I):
    out = set()
    for c, _, _ in I.taken:
        for a in T.support([c.d]).values():
            if a.op == 'bsym' and a.args[0].startswith('opaque:exists('):
                out.add(a.args[0][14:-1])
    return out


def run_files(I, ob, name, n, flags, over):
    R = Plan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=1, Ndiffuse=3))
    R.start()
    quiet(R)
    shown(R)
    R.run(render=True, **{f: f in flags for f in FLAGS}, **over)
    env_name = R.cfg['env_name']
    confined(I, ob, env_name)
    after_encoding(I, ob)
    folders(I, ob)
    root = results(I, env_name)
    w = [osp.normpath(p) for k, p, e in effects(I) if k == 'write' and isinstance(p, str)]
    anim = [p for p in w if p.startswith(root + '/animations/')]
    if 'save_animation' not in flags:
        ob.check(not any('/animations/trajectory/' in p for p in anim), 'no trajectory frames are written unless asked for', f'{anim[:2]}', rule='render gating')
    if 'save_denoising_animation' not in flags:
        ob.check(not any('/animations/denoising/' in p for p in anim), 'no denoising frames are written unless asked for', f'{anim[:2]}', rule='render gating')


def no_files(I, ob, name, n, over):
    R = Plan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=1, Ndiffuse=3))
    R.start()
    R.run(render=False, **{f: True for f in FLAGS}, **over)
    eff = effects(I)
    ob.check(not eff, 'a run that is not rendered touches no files', '; '.join(f'{k} {p} ({e[4]})' for k, p, e in eff[:3]), rule='render gating')


def merging(I, ob, typ):
    u = I.load('mbd.utils').ns
    out = I.call(u['merge_progress_videos'], ['tt2d'], dict(animation_type=typ, prefix='trial_', output_name='all.mp4'))
    root = results(I, 'tt2d')
    confined(I, ob, 'tt2d')
    folders(I, ob)
    runs = [e for k, p, e in effects(I) if k == 'run']
    if out is None:
        ob.check(not runs or T.b_and(runs[-1][7], T.b_not(I.pc)) is not None, 'nothing merged', '', rule='merge')
        if runs:
            ob.check(T.b_and(I.pc, T.eq(runs[-1][6], 0).d) is T.FALSE, 'a merged video is reported', 'merging succeeded but nothing is reported', rule='merge')
        return
    ob.check(bool(runs) and T.b_and(I.pc, T.b_not(T.eq(runs[-1][6], 0).d)) is T.FALSE, 'a video is reported only if it was merged', 'reported although merging failed', rule='merge')
    ob.check(isinstance(out, str) and osp.normpath(out) == f'{root}/animations/{typ}/all.mp4', 'the merged video is where it is reported', f'{out}', rule='merge')
    text = ''.join(e[2][0] for e in I.events if e[0] == 'call' and e[1].endswith('.write') and e[2] and isinstance(e[2][0], str))
    names = [osp.normpath(x.split("'")[1]) for x in text.splitlines() if "'" in x]
    want = [f'{root}/animations/{typ}/trial_any{k}.mp4' for k in range(2)]
    ob.check(names == want, 'the videos are merged in name order, each once', f'{names} instead of {want}', rule='merge')


def c25():
    c = Check('C25', 'Output files stay in the results folder and frames are kept until encoded', [
        'confined files: every path written, created, deleted or handed to a command is inside the results folder of the vehicle; only frames are deleted',
        'frames kept: a frame written by the run is deleted only on traces where its encoding succeeded',
        'folder first: on every trace the folder of a file exists when it is written',
        'render gating: no file effect on any trace unless rendering (saving) was asked for'])
    for name, n in (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2)):
        c.add(f'{name}{n} not rendered', no_files, name, n, {})
        for fl in ((), FLAGS[:1], FLAGS[1:2], FLAGS[2:]):
            if name == 'tt2d' or fl in (FLAGS[:1], FLAGS[2:]):
                c.add(f'{name}{n} rendered, {" ".join(fl) or "plain"}', run_files, name, n, fl, {}, limit=200)
    c.add('everything', run_files, 'tt2d', 1, FLAGS, {}, limit=2000, seconds=600, tier='thorough')
    c.add('guidance not rendered', no_files, 'tt2d', 1, dict(enable_guidance=True))
    c.add('guidance rendered', run_files, 'tt2d', 1, FLAGS[:2], dict(enable_guidance=True), limit=200)
    c.add('demo not rendered', no_files, 'tt2d', 1, dict(enable_demo=True))
    c.add('demo rendered', run_files, 'tt2d', 1, FLAGS[2:], dict(enable_demo=True), limit=200)
    for typ in ('trajectory', 'denoising'):
        c.add(f'merging {typ} videos', merging, typ)
    return c


# ---------------------------------------------------------------- C24
class GPlan(Plan):
    """motion and reward are arbitrary functions that may also depend on the guidance mode"""

    def abstract(self):
        super().abstract()
        I, nx, tag = self.I, self.nx, self.tag

        def internal(state, u, vis=False):
            q, uu = aslist(state.attrs['pipeline_state']), aslist(u)
            b = T.ite(T.to_bool(state.attrs['in_backup_mode']), T.num(1), T.num(0))
            flag = lambda v: T.num(1) if I.truth(v) else T.num(0)
            args = q + uu + [b, flag(vis), flag(self.attr('enable_guidance'))]
            new = mkarr([T.uf(tag + f'step.q{k}', args, -20, 20) for k in range(nx)])
            app = mkarr([T.uf(tag + f'step.u{k}', args, -1, 1) for k in range(len(uu))])
            return I.replace(state, dict(pipeline_state=new, obs=new, reward=T.uf(tag + 'step.r', args, -1, 1), applied_action=app))
        self.attr('_step_internal')
        self.env.attrs['_step_internal'] = internal
        self.env.attrs['step'] = lambda s, u: internal(s, u, self.attr('visualization_mode'))

    def follow(self, us, vis, guided):
        """states under the controls in the given mode"""
        keep = self.attr('enable_guidance')
        self.set('enable_guidance', guided)
        st, qs = self.init_state(), []
        qs.append(aslist(st.attrs['pipeline_state']))
        U = mkarr(us).a
        for t in range(U.shape[0]):
            st = self.env.attrs['_step_internal'](st, mkarr(list(U[t])), vis)
            qs.append(aslist(st.attrs['pipeline_state']))
        self.set('enable_guidance', keep)
        return qs


def fixed_fs(I, env_name='tt2d'):
    root = results(I, env_name)
    I.fs_exists[root + '/animations/trajectory'] = I.fs_exists[root + '/animations/denoising'] = True
    raw = osp.join(I.load('mbd').ns['__path__'][0], '..', 'results', env_name)
    for t in ('trajectory', 'denoising'):
        I.fs_files[f'{raw}/animations/{t}/*.png'] = []
        I.fs_files[f'{raw}/animations/{t}/frame_*.png'] = [f'{raw}/animations/{t}/frame_0000.png']


def not_affected(I, ob, name, n, flags, kw, cfg={}):
    """a rendered run returns what the same run returns when it is not rendered, and leaves the vehicle as it was"""
    R = GPlan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3), **kw)
    R.start()
    quiet(R)
    shown(R)
    fixed_fs(I, R.cfg['env_name'])
    fl = {f: f in flags for f in FLAGS}
    R.run(render=False, **kw, **cfg, **fl)
    I.call(R.mod().ns['clear_jit_cache'], [])
    plain = R.run(render=False, **kw, **cfg, **fl)
    I.call(R.mod().ns['clear_jit_cache'], [])
    keep = dict(R.env.attrs)
    lot = I.getattr(R.env, 'env')
    keep_lot = dict(lot.attrs) if isinstance(lot, Obj) else {}
    goal = aslist(R.attr('xg'))
    art = R.run(render=True, **kw, **cfg, **fl)
    r = 'rendering does not interfere'
    for k, w in (('Y', 'controls'), ('xs', 'states'), ('rew', 'reward')):
        ob.eq(f'rendering does not change the {w}', art[k], plain[k], rule=r)
    for o, kp in ((R.env, keep), (lot, keep_lot)):
        for k, v in kp.items():
            now = o.attrs.get(k)
            if now is v or k in ('xref', 'rew_xref', 'angle_mask') or artist(now) or artist(v):
                continue
            ob.check(same_value(now, v), f'rendering leaves {k} alone', f'{k} was {v!r:.60} and is {now!r:.60} afterwards', rule=r)
    ob.eq('rendering leaves the goal alone', R.attr('xg'), mkarr(goal), rule=r)
    I.call(R.mod().ns['clear_jit_cache'], [])
    again = R.run(render=False, **kw, **cfg, **fl)
    for k, w in (('Y', 'controls'), ('xs', 'states'), ('rew', 'reward')):
        ob.eq(f'the next plan has the same {w}', again[k], plain[k], rule=r)


def artist(v):
    """graphics objects are what rendering is there to change"""
    return isinstance(v, Opaque) or (isinstance(v, (list, tuple)) and any(artist(x) for x in v)) or (isinstance(v, dict) and any(artist(x) for x in v.values()))


def same_value(a, b):
    from sa.interp import same_value as sv
    return sv(a, b)


def saved(I, ob, name, n, kw):
    """the arrays saved are the plan that is returned"""
    R = GPlan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3), **kw)
    R.start()
    quiet(R)
    shown(R)
    out = R.run(render=True, **kw)
    got = {}
    for k, p, e in effects(I):
        if k == 'write' and e[1].rsplit('.', 1)[-1] == 'save':
            got[osp.basename(p)] = e[2][1] if len(e[2]) > 1 else e[3].get('arr')
    for f, v in (('final_actions.npy', out['Y']), ('trajectory_states.npy', out['xs'])):
        ob.check(f in got, f'{f} is saved', f'saved: {sorted(got)}', rule='saved plan')
        if f in got:
            ob.eq(f'{f} holds what is returned', got[f], v, rule='saved plan')
    drawn = [e for e in I.events if e[0] == 'call' and e[1] == 'shown']
    ob.check(not drawn, 'no animation unless asked for', f'{len(drawn)} frames drawn', rule='saved plan')


def animated(I, ob, name, n, kw, guided):
    """the animation a run shows is the planned motion, frame by frame"""
    R = GPlan(I, name, n, conc='*', cfg=dict(Nsample=2, Hsample=2, Ndiffuse=3), **kw)
    R.start()
    quiet(R)
    shown(R)
    fixed_fs(I, R.cfg['env_name'])
    out = R.run(render=True, show_animation=True, save_animation=True, **kw)
    ev = [e[2] for e in I.events if e[0] == 'call' and e[1] == 'shown']
    ob.check(len(ev) == 3, 'one frame for every state of the plan', f'{len(ev)} frames for 3 states', rule='animation')
    want = [mkarr(q) for q in R.follow(out['Y'], False, False)] if guided else [I.getitem(out['xs'], t) for t in range(3)]
    for t, (x, u) in enumerate(ev[:3]):
        ob.eq(f'frame {t} shows state {t}', x, want[t], rule='animation')
        if t < 2:
            ob.check(u is not None, f'frame {t} has a control', 'none', rule='animation')
            if u is not None:
                ob.eq(f'frame {t} shows the control applied there', u, I.getitem(out['Y'], t), rule='animation')
        else:
            ob.check(u is None, 'the last state has no control', f'{u!r:.60}', rule='animation')
    if guided:
        x = mkarr([out['xs'].a[t][0] for t in range(3)])
        y = mkarr([out['xs'].a[t][1] for t in range(3)])
        lines = [e for e in I.events if e[0] == 'call' and e[1].endswith('.set_data') and len(e[2]) == 2]
        hit = any(_same(e[2][0], x) and _same(e[2][1], y) for e in lines)
        ob.check(hit, 'the guided trajectory is drawn over it', f'{len(lines)} lines, none is the guided trajectory', rule='animation')


def _same(a, b):
    try:
        A, B = aslist(mkarr(a)), aslist(b)
    except Exception:
        return False
    return len(A) == len(B) and all(T.to_num(x).d is T.to_num(y).d for x, y in zip(A, B))


def frames(I, ob, name, n, H, save, overlay):
    """what create_animation shows for any states: poses, path so far, violations, frame files"""
    R = Plan(I, name, n, conc='*')
    R.start()
    shown(R)
    fixed_fs(I, R.cfg['env_name'])
    mark = {}
    for nm, key in (('check_obstacle_collision', 'hit'), ('check_hitch_violation', 'fold')):
        R.attr(nm)
        mark[key] = (lambda key: lambda q, *a: T.gt(T.uf(key, aslist(q), -1, 1), 0))(key)
        R.env.attrs[nm] = mark[key]
    xs = [R.q(f'q{t}') for t in range(H)]
    us = [R.u(f'u{t}') for t in range(H - 1)] + [None]
    kw = {}
    if overlay:
        kw['guided_trajectory_overlay'] = [R.q(f'g{t}') for t in range(H)]
    I.call(I.load('mbd.utils').ns['create_animation'], [R.env, list(xs), list(us), args_of(I, R, save_animation=save, show_animation=not save)], kw)
    r = 'animation'
    E = [e for e in I.events if e[0] == 'call']
    at = [i for i, e in enumerate(E) if e[1] == 'shown']
    ob.check(len(at) == H, 'one frame per state', f'{len(at)} frames for {H} states', rule=r)
    last = lambda nm: nm.rsplit('.', 1)[-1]
    flush = [i for i, e in enumerate(E) if last(e[1]) == 'savefig'] if save else [i for i, e in enumerate(E) if last(e[1]) == 'pause']
    ob.check(len(flush) == H, 'every frame is saved' if save else 'every frame is shown', f'{len(flush)} of {H}', rule=r)
    bike = name == 'kinematic_bicycle2d'
    for t, i in enumerate(flush[:H]):
        before = [j for j in at if j < i]
        ob.check(len(before) == t + 1, f'frame {t} is drawn after the vehicle was moved', f'{len(before)} updates before it', rule=r)
        if len(before) != t + 1:
            continue
        x, u = E[before[-1]][2]
        ob.eq(f'frame {t} shows state {t}', x, xs[t], rule=r)
        ob.check((u is None) == (us[t] is None), f'frame {t} has the control of state {t}', f'{u!r:.40}', rule=r)
        if u is not None and us[t] is not None:
            ob.eq(f'frame {t} shows control {t}', u, us[t], rule=r)
        start = flush[t - 1] if t else 0
        lines = [e for e in E[start:i] if last(e[1]) == 'set_data' and len(e[2]) == 2]
        col = lambda Q, k: mkarr([aslist(Q[j])[k] for j in range(t + 1)])
        ob.check(any(_same(e[2][0], col(xs, 0)) and _same(e[2][1], col(xs, 1)) for e in lines), f'the path up to state {t} is drawn in frame {t}', 'no such line', rule=r)
        if overlay:
            G = kw['guided_trajectory_overlay']
            ob.check(any(_same(e[2][0], col(G, 0)) and _same(e[2][1], col(G, 1)) for e in lines), f'the guided path up to state {t} is drawn in frame {t}', 'no such line', rule=r)
        gone = {id(e[5].parent) for e in E[:i] if last(e[1]) == 'remove' and isinstance(e[5], Opaque)}
        live = [e for e in E[:i] if last(e[1]) == 'text' and len(e[2]) > 2 and e[2][2] == '!' and id(e[6]) not in gone]
        kin = R.kin(xs[t])
        hit, fold = mark['hit'](kin), (T.boolean(False) if bike else mark['fold'](kin))
        pc = E[i][7]
        val = lambda c: True if T.b_and(pc, T.b_not(c.d)) is T.FALSE else (False if T.b_and(pc, c.d) is T.FALSE else None)
        h, f = val(hit), val(fold)
        ob.check(h is not None and f is not None, f'frame {t} looks at the violations of state {t}', 'violations are not looked at', rule='violation marks')
        if h is not None and f is not None:
            ob.check(len(live) == int(h) + int(f), f'violations are marked exactly when present in frame {t}', f'{len(live)} marks for collision={h} jack-knife={f}', rule='violation marks')
            ob.check(len({e[3].get('color') for e in live}) == len(live), f'collision and jack-knife marks differ in frame {t}', 'same colour', rule='violation marks')
        if save:
            p = E[i][2][0]
            ob.check(isinstance(p, str) and osp.basename(p) == f'frame_{t:04d}.png', f'frame {t} is file number {t}', f'{p}', rule='frame files')
    if save:
        runs = [e for e in E if e[1].startswith('subprocess.')]
        pats = [x for e in runs for x in e[2][0] if isinstance(x, str) and '%04d' in x]
        ob.check(len(pats) == 1 and bool(flush) and osp.normpath(pats[0] % 0) == osp.normpath(E[flush[0]][2][0]), 'the encoder reads the frames written', f'{pats}', rule='frame files')


def denoising(I, ob, name, n, D, skip):
    R = Plan(I, name, n, conc='*')
    R.start()
    fixed_fs(I, R.cfg['env_name'])
    H = 2
    Y = mkarr([[[T.sym(f'y{k}.{t}.{j}', -1, 1) for j in range(2)] for t in range(H)] for k in range(D)])
    step = R.attr('step')
    I.call(I.load('mbd.utils').ns['create_denoising_animation'], [R.env, Y, args_of(I, R, Ndiffuse=D + 1), step, R.init_state()], dict(frame_skip=skip))
    E = [e for e in I.events if e[0] == 'call']
    last = lambda nm: nm.rsplit('.', 1)[-1]
    flush = [i for i, e in enumerate(E) if last(e[1]) == 'savefig']
    r = 'denoising animation'
    shownk = list(range(0, D, skip))
    ob.check(len(flush) == len(shownk), 'one frame for every plan that is not skipped', f'{len(flush)} frames for {len(shownk)}', rule=r)
    for f, (i, k) in enumerate(zip(flush, shownk)):
        _, qs, _ = R.rollout(R.init_state(), I.getitem(Y, k))
        pts = [aslist(R.init_state().attrs['pipeline_state'])] + [list(x) for x in qs.a]
        x, y = mkarr([p[0] for p in pts]), mkarr([p[1] for p in pts])
        lines = [e for e in E[(flush[f - 1] if f else 0):i] if last(e[1]) == 'set_data' and len(e[2]) == 2]
        ob.check(any(_same(e[2][0], x) and _same(e[2][1], y) for e in lines), f'frame {f} shows the rollout of plan {k}', 'no such line', rule=r)
        p = E[i][2][0]
        ob.check(isinstance(p, str) and osp.basename(p) == f'frame_{f:04d}.png', f'frame {f} is file number {f}', f'{p}', rule='frame files')
    runs = [e for e in E if e[1].startswith('subprocess.')]
    pats = [x for e in runs for x in e[2][0] if isinstance(x, str) and '%04d' in x]
    ob.check(len(pats) == 1 and bool(flush) and osp.normpath(pats[0] % 0) == osp.normpath(E[flush[0]][2][0]), 'the encoder reads the frames written', f'{pats}', rule='frame files')


KINDS = (('tt2d', 1), ('kinematic_bicycle2d', 1), ('acc_tt2d', 1), ('n_trailer2d', 2))


def c24():
    c = Check('C24', 'Rendering shows the plan and does not change it', [
        'rendering does not interfere: value graphs of a rendered run == those of the run without rendering; vehicle and environment attributes unchanged',
        'saved plan: arrays saved == arrays returned',
        'animation: pose, control, path and marks at each saved or shown frame == those of the state of that index; frame files numbered consecutively'])
    G = dict(enable_guidance=True)
    for name, n in KINDS:
        for fl in ((), FLAGS):
            c.add(f'{name}{n} not affected by {"animation" if fl else "rendering"}', not_affected, name, n, fl, {})
        c.add(f'{name}{n} saved', saved, name, n, {})
        c.add(f'{name}{n} animated', animated, name, n, {}, False)
        c.add(f'{name}{n} frames saved', frames, name, n, 2, True, False)
        c.add(f'{name}{n} frames shown', frames, name, n, 2, False, False)
        c.add(f'{name}{n} three frames', frames, name, n, 3, True, False, limit=200, tier='thorough')
    c.add('tt2d frames with overlay', frames, 'tt2d', 1, 2, True, True)
    c.add('guidance not affected by rendering', not_affected, 'tt2d', 1, (), G)
    c.add('guidance not affected by animation', not_affected, 'tt2d', 1, FLAGS, G)
    c.add('guidance saved', saved, 'tt2d', 1, G)
    c.add('guidance animated', animated, 'tt2d', 1, G, True)
    c.add('demo not affected by animation', not_affected, 'tt2d', 1, FLAGS, {}, dict(enable_demo=True))
    for D, skip in ((3, 1), (3, 2), (4, 2), (2, 5)):
        c.add(f'denoising of {D} plans, every {skip}', denoising, 'tt2d', 1, D, skip)
    c.add('denoising of a bicycle', denoising, 'kinematic_bicycle2d', 1, 2, 1)
    return c
