#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ENV, BIKE, TT, ACC, NT = ('mbd/envs/env.py', 'mbd/robots/kinematic_bicycle2d.py', 'mbd/robots/tt2d.py', 'mbd/robots/acc_tt2d.py', 'mbd/robots/n_trailer2d.py')
INIT, UT, PL = 'mbd/envs/__init__.py', 'mbd/utils.py', 'mbd/planners/mbd_planner.py'
ROBOTS = [BIKE, TT, ACC, NT]

TECH = 'abstract interpretation of the source to gated value-flow graphs, global value numbering, random interpretation of graphs that differ'
EFF = 'abstract interpretation of the source; effect, store and call-event rules on every trace'
BOTH = 'abstract interpretation of the source to value-flow graphs and effect events; global value numbering and effect rules'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), technique=TECH, note=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mechanism=mechanism, state=state, technique=technique, note=note))


prop('C01', 'Kinematic shield keeps safe states safe',
     """With collision or hitch shielding on, one simulation step of a kinematic vehicle (bicycle, tractor-trailer, n-trailer) ends in the
     state the control would have led to unless that state violates an enabled constraint, and otherwise in the unchanged previous state.
     So a state that satisfies the enabled constraints is never followed by one that violates them, whatever control is applied.""",
     'inputs configurations', 'every state, control, obstacle set, model parameter and shield setting',
     'tests step a handful of states; the guarantee is over all real states, controls and obstacle placements',
     [BIKE, TT, NT, ENV], [dict(name='shielded step', where='TractorTrailer2d.step / _step_internal and overrides'), dict(name='obstacle and hitch predicates', where='check_obstacle_collision, check_hitch_violation')],
     [dict(name='enable_shielded_rollout_collision / _hitch', meaning='which constraints are enforced')])
prop('C02', 'Acceleration shield admits only states it can brake from',
     """With shielding on, one step of the acceleration-controlled tractor-trailer takes the requested control only if neither the
     resulting state nor any state of its predicted braking manoeuvre (full deceleration with steering held, sampled every second until standstill)
     violates an enabled constraint, and otherwise takes a braking step instead.""",
     'inputs configurations', 'every state within the speed limit, control, obstacle set, acceleration limit and shield setting',
     'the prediction loops over a state-dependent number of points; tests never reach a state whose candidate is safe but whose braking path is not',
     [ACC], [dict(name='predictive check', where='AccTractorTrailer2d._step_internal and its braking prediction')])
prop('C03', 'Fallback control holds or brakes and is reported as such',
     """When a shield rejects a control, or a step is asked for in backup mode, the control reported as applied is the fallback: zero control for kinematic
     vehicles, which then stand still, and for the acceleration-controlled vehicle the strongest admissible deceleration with steering held, which reduces speed
     without reversing it. In every other case the control reported as applied is the requested one limited to its range.""",
     'inputs configurations', 'every state, control, obstacle set, shield setting and backup request',
     'depends on the sign of the velocity, the limits and which constraint was violated; tests exercise one vehicle at rest',
     ROBOTS, [dict(name='fallback control', where='get_backup_control / _step_internal')])
prop('C04', 'Reported control reproduces the reported motion',
     """In every safety mode (no shield, shielded, projected) replaying the control a step reports as applied from the step's starting state,
     with all safety mechanisms off, gives exactly the state the step reports, and the reported control lies in [-1, 1].""",
     'inputs configurations', 'every vehicle, state, control, obstacle set and safety mode, including whatever the projection solver returns',
     'two values computed on different paths must agree for all inputs; tests look at neither together',
     ROBOTS, [dict(name='applied_action', where='State.applied_action set by step'), dict(name='projection', where='project_action path of step')])
prop('C05', 'Collision covers every body and every obstacle',
     """A configuration is reported as colliding exactly when at least one body of the vehicle (tractor, and each trailer) collides with at least one circular or rectangular
     obstacle: no body and no obstacle, wherever it stands in the lists and however many there are (including none of a kind), is left out or invented.""",
     'inputs configurations', 'every vehicle and trailer count, pose, and obstacle lists of different lengths and kinds',
     'a missed body or list position shows only when that one pair alone collides; tests place one obstacle',
     ROBOTS + [ENV], [dict(name='obstacle loop', where='check_obstacle_collision'), dict(name='body geometry', where='get_tractor_trailer_rectangles and equivalents')])
prop('C06', 'A collision is reported exactly when shapes intersect',
     """A vehicle body and a circle collide exactly when the distance from the circle's centre to the solid body is at most the radius, and a vehicle body and a rotated
     rectangle exactly when the two solid rectangles overlap, for any position, heading and size, including full containment either way.""",
     'inputs configurations', 'all poses, body dimensions, obstacle positions, sizes and angles',
     'separating-axis and distance formulas fail on particular relative poses (corner, containment, crossing without corner inside) that tests do not sample',
     [TT, BIKE, NT], [dict(name='separating axis and circle tests', where='collision helpers of the robots')])
prop('C07', 'What is drawn is what is checked',
     """The rectangles drawn for the tractor and the trailers are, for every pose, the same rectangles collision checking uses, and obstacles are drawn with their
     stored position, size and angle; wheels of the tractor-trailer and the bicycle are drawn at the axles.""",
     'inputs configurations', 'every pose, vehicle parameter and obstacle set',
     'drawing code has no tests; agreement with the collision geometry is over all poses',
     ROBOTS + [ENV], [dict(name='drawing', where='render_rigid_body and render of the robots')])
prop('C08', 'Jack-knife means any articulation beyond 40 degrees',
     """A state is reported as violating the articulation limit exactly when the angle between some pair of successive bodies, taken the short way round,
     exceeds 40 degrees in magnitude; a vehicle without trailers never violates it.""",
     'inputs configurations', 'all headings (any number of turns), all trailer counts',
     'wrap-around and joint indices matter only for particular headings',
     [TT, NT, BIKE], [dict(name='hitch predicate', where='check_hitch_violation')])
prop('C09', 'Each model moves by its documented equations',
     """One unconstrained step moves the state by the time step times the documented equations of motion (kinematic bicycle; tractor with off-axle hitched trailer; chain of n trailers with speed
     and turn rate handed from body to body; acceleration model with speed and steering as states) under the control scaled to the vehicle's limits. The wheels of every trailer roll without
     side slip along the geometry used for collision checking.""",
     'inputs configurations', 'all states, controls and geometric parameters, trailer counts 1 to 4',
     'a sign or length wrong in one coupling term changes motion only with non-zero articulation; tests compare nothing with the equations',
     ROBOTS, [dict(name='dynamics', where='*_dynamics methods and the Euler step')])
prop('C10', 'Motion respects the actuator limits for any control',
     """Whatever control is requested, however large, the motion of one step is the one of the control limited to [-1, 1]: speed, steering, acceleration and steering
     rate stay within the configured limits.""",
     'inputs configurations', 'all real controls (not only those in range), states and limits',
     'tests use in-range controls',
     ROBOTS, [dict(name='clipping and scaling', where='input_scaler, clip in step')])
prop('C11', 'Headings that differ by full turns behave alike',
     """Adding a full turn to any heading of the state or the goal changes neither collision and jack-knife reports, nor rewards and penalties, nor the motion of a step
     (beyond the same full turn in the resulting headings).""",
     'inputs configurations', 'all states and all integer numbers of turns on each heading',
     'tests stay within one turn',
     ROBOTS, [dict(name='angle wrapping', where='reward and hitch computations')])
prop('C12', 'Stage and terminal rewards follow their definition',
     """The stage reward is the documented blend of position, heading and articulation terms, measured at the point the motion preference selects (front axle when driving
     forward, last trailer's axle otherwise), with either parking direction allowed when there is no preference; the terminal reward is the position term with its own
     threshold.""",
     'inputs configurations', 'all states, goals, weights, thresholds and motion preferences',
     'tests call the reward at single states and check no values',
     ROBOTS, [dict(name='rewards', where='get_reward, get_terminal_reward')])
prop('C13', 'Each step is charged exactly the violations it made',
     """The reward of a step is the stage reward of the state it is evaluated at minus the collision penalty exactly if the step violated the obstacle constraint, minus
     the hitch penalty exactly if it violated the articulation limit, minus the preference penalty of the control applied; the same holds whichever safety mechanism
     replaced the control.""",
     'inputs configurations', 'all states, controls, obstacle sets, penalties and safety modes',
     'charges depend on which branch rejected the control; tests never compare rewards between modes',
     ROBOTS, [dict(name='penalties', where='step reward assembly')])
prop('C14', 'Motion preference penalises or forbids the other direction',
     """Under a soft motion preference every step is charged the weighted speed it moves against the preferred direction and nothing otherwise; under a strict preference
     every candidate control the planner simulates has a velocity command of the preferred sign, and without preference nothing is charged or restricted.""",
     'inputs configurations', 'all controls, states, preferences, noise values and schedule lengths',
     'needs a noise sample against the preference; the tests never read the sampled controls',
     ROBOTS + [PL], [dict(name='preference penalty', where='step reward'), dict(name='enforced direction', where='reverse step of the planner')])
prop('C15', 'A rollout scores exactly the motion it simulates',
     """A rollout from a state under a control sequence is the chain of single steps from that state, its states and applied controls are those of the chain in order, and its
     return is the mean of the step rewards plus the weighted terminal reward of the last state.""",
     'inputs configurations', 'all vehicles, initial states, control sequences, horizons and terminal weights',
     'off-by-one, wrong initial state or wrong terminal state leave shapes and plots plausible',
     [PL], [dict(name='rollout', where='rollout functions in mbd_planner')])
prop('C16', 'Each denoising step is the reward-weighted average of rollouts',
     """Each denoising step perturbs the current plan with fresh noise of the schedule's scale, limits the candidates to the control range, scores each by its
     rollout (plus demonstration likelihood and steering terms where enabled), and replaces the plan with the average of the applied controls weighted by the
     normalised exponential of the standardised scores over the temperature.""",
     'inputs configurations', 'all noise values, rewards, schedules, temperatures, sample counts and horizons',
     'the update is a formula over all samples and rewards; tests only check that planning runs',
     [PL], [dict(name='reverse diffusion step', where='reverse_once'), dict(name='noise schedule', where='run_diffusion')])
prop('C17', 'Returned states and reward belong to the returned controls',
     """What planning returns fits together: the returned state sequence starts at the start state and follows from the returned controls step by step under the
     configured environment, one more state than controls, and the returned reward is the return of those controls.""",
     'inputs configurations', 'all vehicles, configurations (guidance, demonstration, rendering on or off) and random seeds',
     'tests check finiteness and shapes only',
     [PL], [dict(name='final evaluation', where='end of run_diffusion')], technique=BOTH)

exec(open(os.path.join(HERE, 'tools', 'docs2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'docs2.py')) else None

NA = []
na_file = os.path.join(HERE, 'tools', 'na.json')


def main():
    from checks import registry
    done = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mechanism'], **({'state': list(p['state'])} if p['state'] else {})))) + '\n')
    checks, na = [], list(NAS)
    nas = {n['property'] for n in na}
    for p in P:
        if p['id'] in nas:
            continue
        try:
            registry.get(p['id'])
        except SystemExit:
            na.append(dict(property=p['id'], reason='check not built yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd=f"python3-vt run.py {p['id']}", thorough_cmd=f"python3-vt run.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='other',
                           level_note=p['note'] or 'decided on the value-flow graphs of the current source: obligations with equal value numbers are proved for all inputs under the stated assumptions (real arithmetic); the rest are compared by random interpretation of the two graphs (probabilistic, no false alarms by construction of robust witnesses)'))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import numpy"', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
    for p in P:
        assert len(p['title']) <= 80, p['id']


NAS = globals().get('NAS', [])
if __name__ == '__main__':
    main()
