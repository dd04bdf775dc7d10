prop('C18', 'Same seed, same plan',
     """Planning twice with the same configuration and seed gives the same controls, states and reward, because every random number a plan uses is derived from the
     configured seed and nothing else varies between runs. Within one plan each denoising step, candidate and control gets its own independent noise.""",
     'inputs configurations histories', 'every seed, configuration and earlier planning in the process',
     'reused or unseeded randomness is invisible in single runs and passes shape checks; tests never compare two plans',
     [PL], [dict(name='random keys', where='split/normal calls of run_diffusion and reverse_once')], technique=BOTH)
prop('C19', 'Every setting reaches the planner and the vehicle',
     """A configuration given as a dictionary takes effect exactly as the same configuration given as an object: every given setting is used, every omitted one has the
     default of the vehicle, and a missing mandatory setting is an error. Every setting given when a vehicle is created is the one it uses.""",
     'configurations inputs', 'every field, any value, any subset of given fields',
     'a setting that is dropped or crossed with another shows only for non-default values; tests use defaults',
     [PL, INIT, UT] + ROBOTS, [dict(name='configuration conversion', where='dict_to_config_obj'), dict(name='factory', where='get_env')])
prop('C20', 'The requested vehicle is built or the request is rejected',
     """Asking for a vehicle by name and number of trailers yields a vehicle of that kind: its state has the size, its bodies the number, and its motion the equations of that
     vehicle. An unknown vehicle or scenario, or an incomplete configuration, is rejected with an error instead of being silently replaced.""",
     'configurations inputs', 'every supported name and trailer count and representative unsupported requests',
     'tests build one or two vehicles and check that construction succeeds',
     [INIT, ENV] + ROBOTS, [dict(name='dispatch', where='get_env')])
prop('C21', 'The parking lot is laid out as configured',
     """For a configured lot (rows, columns, space dimensions, occupied and target spaces) the centre of every space, the obstacles that block exactly the occupied spaces, the
     vehicle's default start and its goal (first target space, heading into it) and the drawn grid all follow the same grid of spaces; in the default lot no obstacle
     reaches into a free space.""",
     'configurations inputs', 'symbolic lot dimensions, several row/column counts, occupied and target selections',
     'numbering or offset errors appear for other shapes than the default 2 x 8 lot, the only one tests build',
     [ENV] + ROBOTS, [dict(name='space centres', where='Env.get_parking_space_center'), dict(name='lot obstacles', where='Env.get_obstacles'), dict(name='default poses', where='env constructors')])
prop('C22', 'Obstacles are stored as given',
     """Obstacles a user sets are exactly those the vehicle then avoids: given corner coordinates are converted to centres, padding enlarges every obstacle by the given margin on every side, a later
     call replaces the earlier obstacles of its kind only, and the caller's lists and other vehicles are unaffected. Malformed obstacles are rejected and change nothing.""",
     'inputs histories', 'all obstacle lists, paddings, coordinate modes and orders of calls',
     'tests set one list of one kind; conversions and padding are only visible in the geometry',
     [ENV] + ROBOTS, [dict(name='obstacle setters', where='set_rectangle_obs, set_circle_obs')])
prop('C23', 'A reset starts where the user asked',
     """A reset puts the vehicle at the start pose last set (explicit coordinates, or distances to the target space and the lot entrance, defaults for what is omitted, zero being a value like any
     other), with no reward, no applied control and no memory of earlier simulation; setting the goal changes exactly the given components.""",
     'inputs histories', 'all poses, all subsets of given components, any sequence of setters, steps and resets',
     'omitted-versus-zero and start-versus-goal mix-ups need particular call sequences',
     ROBOTS, [dict(name='start and goal setters', where='set_init_pos, set_goal_pos'), dict(name='reset', where='reset')])
prop('C30', 'A plan does not depend on earlier planning',
     """After the planner's cache is cleared, or when only start, seed, sample count or schedule change, a plan is the one a fresh process would compute, whatever vehicles, modes
     and settings were planned before; planning leaves the configuration of the environment as it was.""",
     'histories configurations', 'sequences of planning runs with different vehicles, demonstrations, preferences, sample counts and seeds',
     'stale compiled functions or leftover flags need a particular sequence of runs in one process',
     [PL], [dict(name='function cache', where='run_diffusion cache, clear_jit_cache')], [dict(name='cached compiled functions', meaning='kept between runs')], technique=BOTH)
prop('C24', 'Rendering shows the plan and does not change it',
     """A rendered run returns the same controls, states and reward as the same run without rendering and leaves vehicle, goal and later plans unaffected. The saved arrays are the returned plan;
     the animation has one frame per state with that state's pose, control, path so far and violation marks, and the denoising animation one frame per plan shown, in order.""",
     'configurations inputs histories', 'every plan, pose and control; rendering and animation options; guidance and demonstration on or off',
     'tests never render; side effects of drawing and frames of the wrong state need a comparison with the run that does not draw',
     [PL, UT] + ROBOTS, [dict(name='render block', where='end of run_diffusion'), dict(name='animations', where='create_animation, create_denoising_animation')], technique=BOTH,
     note='graphics calls are events of the trace: the claim is about the data handed to them, not about pixels; which frame a saved file shows is decided by the last update before it')
prop('C25', 'Output files stay in the results folder and frames are kept until encoded',
     """A run writes, overwrites, deletes or hands to a command only paths inside the results folder of its vehicle, and only animation frames are deleted, those of the run only after the encoder
     succeeded on them. Without rendering no file is touched; a folder is made before it is written to; a merged video is reported only if the merge succeeded.""",
     'configurations fault_sequences', 'every render option, whatever files and folders exist, and every outcome of the external encoder',
     'needs failing encoders, leftover files and missing folders; the tests do not render',
     [UT, PL], [dict(name='animation files', where='setup_animation_saving, export_video, merge_progress_videos'), dict(name='saving', where='end of run_diffusion')], technique=EFF,
     note='existence of files and the return code of external commands are free symbols; all paths through them are followed up to the trace limit')
prop('C26', 'Closeness to the demonstration follows its definition',
     """The closeness of a motion to the demonstration is the mean over its points of minus the weighted squares of the position and heading distances, each capped at its threshold and taken relative to it. Position is
     measured at the tractor when forward motion is preferred and at the trailer axle otherwise; headings count where the demonstration says so, in the better of both orientations without preference. The demonstration's own reward is
     the mean of the rewards of its points plus the weighted terminal reward.""",
     'inputs configurations', 'every motion, demonstration, heading mask, weight and threshold; each motion preference; several lengths',
     'weights and thresholds interact smoothly: a wrong one still yields a plausible number',
     ROBOTS[:2] + [ENV], [dict(name='demonstration likelihood', where='eval_xref_logpd'), dict(name='demonstration reward', where='compute_demonstration_reward')])
prop('C31', 'The demonstration leads from the start to the goal',
     """The demonstration has one point per step, starts at the start position, ends at the goal with the goal's headings and runs forward along the straight line if that is clear of obstacles, otherwise along the first clear of
     the two right-angled paths, otherwise along the straight line. Headings count on the last leg, along the direction of travel, reversed when backward motion is preferred, and the goal itself is not changed.""",
     'inputs configurations', 'any start and goal position for the straight path; seventeen obstacle layouts at any place of the plane for the others; every preference',
     'the tests generate one demonstration and check that it has points',
     [BIKE, TT, ACC], [dict(name='demonstration search', where='generate_demonstration_trajectory and its clearance test')],
     note='obstacle layouts are enumerated (their position in the plane is not); layouts whose clearance depends on the sampling of the line are excluded')
prop('C28', 'Guidance only nudges states that need it',
     """With guidance on, a guided state is the proposed state moved by three descent steps of 0.05 on the squared intrusions of tractor and first trailer axle into a 2 m margin around circular obstacles plus the weighted squared articulation
     excess, so a state clear of the margins and within the articulation limit is left as it is. Planning moves by the vehicle's own motion and is scored on guided states; the returned states are the guided motion under the returned
     controls. With guidance off nothing is guided and display makes no difference.""",
     'inputs configurations', 'every state within 100 m of the origin and a full turn of heading, every obstacle set, control and vehicle',
     'guidance changes rewards and returned states by small amounts that no test compares with anything',
     ROBOTS + [PL], [dict(name='guidance steps', where='apply_guidance, _guidance_function'), dict(name='use in a step', where='_step_internal'), dict(name='returned states', where='final rollout of run_diffusion')],
     note='gradients are computed symbolically by the analyser (one-sided at kinks); rectangles and trailers behind the first do not take part in guidance, as in the code')
prop('C29', 'Timing and benchmark reports describe the measured runs',
     """A benchmark runs the warm-up trials, whose results are discarded, then the measured trials with the same configuration and vehicle, and reports every measured trial's timings and reward in order with their mean, standard deviation,
     minimum, maximum and median. The pure diffusion time of a plan covers all its denoising steps and no warm-up, demonstration, post-processing or rendering; reported phases do not overlap and lie within the total.""",
     'configurations inputs histories', 'every trial and warm-up count tried, all timings and rewards, first and later runs, all clock readings',
     'wall-clock numbers vary from run to run, so no test compares them with what they should contain',
     ['mbd/scripts/benchmark_diffusion.py', PL], [dict(name='statistics', where='benchmark_diffusion'), dict(name='timing report', where='timing_info of run_diffusion')], technique=BOTH,
     note='each clock reading is a fresh symbol, so a reported duration is decided as a set of stretches between readings')
prop('C27', 'Projection picks the nearest control whose next state is safe',
     """With projection on, the control handed to a step is the solution of: closest to the requested control, within the actuator range, such that the vehicle's next state collides with no obstacle and keeps the articulation limit. It is solved for
     the step's own state and request; the solution is used when the solver reports success and the request is kept otherwise. With projection off the request is left as it is.""",
     'inputs configurations fault_sequences', 'every state, request and obstacle set; solver success, failure and exception',
     'the constraint is a second implementation of motion and collision in another library that no test compares with the first',
     [BIKE, TT, ACC], [dict(name='projection problem', where='_numpy_projection_function'), dict(name='projected control', where='project_control_to_safe_set, projection path of step')],
     note='the solver is arbitrary within the bounds it is given; whether it converges is not decided; the n-trailer vehicle refuses projection')
prop('C32', 'Planning brings the vehicle to the goal',
     """With the default settings a plan ends at the goal pose within the tolerance used for statistics, and more samples or denoising steps do not make it worse on average.""",
     'inputs configurations', 'scenarios, seeds and sample counts', 'success is statistical and tests run one scenario',
     [PL], [dict(name='denoising loop', where='run_diffusion')])
prop('C33', 'No collision between two sampled states',
     """A planned motion collides with no obstacle at any moment, also between two consecutive states of the plan.""",
     'inputs configurations', 'every motion between samples, time step and obstacle', 'tests look at sampled states only',
     [TT, ENV], [dict(name='collision predicate', where='check_obstacle_collision at sampled states')])
prop('C34', 'Repeated planning reuses compiled code and gets faster',
     """After the first plan in a process, further plans with the same settings skip compilation and take no longer than the denoising itself needs.""",
     'histories', 'sequences of plans and hardware', 'wall-clock time depends on machine and compiler',
     [PL], [dict(name='function cache', where='_jit_function_cache')])
NAS = [dict(property='C32', reason='success of the sampling optimiser is a statistical fact about noise and cost landscapes; no static rule bounds the sampled costs (C15-C17 decide that each step is the one specified)'),
       dict(property='C33', reason='the code samples motion at the time step by design and bounds neither step length nor obstacle size, so the property does not follow from the source for any setting; deciding it for given runs would be testing'),
       dict(property='C34', reason='compilation and run time are decided by the compiler and machine at run time; the source only shows which functions are cached (used by C30)')]
