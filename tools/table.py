BASE_NOTE = ('Decided for all real values in the stated ranges; floats are '
             'treated as exact reals, so rounding is outside the claim. '
             'Trusted: the algebraic stand-ins for numpy/math (validated '
             'against the real libraries on concrete inputs each run) and '
             'z3. Counterexamples are replayed on the real code. ')

prop('C01', 'Linear bicycle coefficients follow the published benchmark formulas',
     'For every benchmark parameter set, the mass, damping and two stiffness '
     'matrices the toolkit computes are exactly those of the published '
     'benchmark bicycle derivation (total mass and mass center, the front '
     'assembly, trail, wheel angular momenta). The computation leaves the '
     'given parameters as they were.',
     ['inputs'], 'every value of the 25 geometry and inertia parameters '
     'within physical ranges',
     'Tests compare one or two bicycles; a wrong sign or a missing term that '
     'vanishes or is small for those bicycles passes, and 25 continuous '
     'parameters cannot be sampled.',
     ['bicycleparameters/bicycle.py', MODELS],
     [('published coefficient formulas', 'bicycleparameters/bicycle.py: '
       'benchmark_par_to_canonical')],
     BASE_NOTE + 'All 25 parameters symbolic at once; the reference is an '
     'independent transcription of Meijaard et al. 2007.',
     observe=['returned matrices', 'the dictionary passed in'])

prop('C02', 'State and input matrices satisfy the equations of motion',
     'The state and input matrices of the linear bicycle satisfy M*qdd + '
     'v*C1*qd + (g*K0 + v^2*K2)*q = f for all states and torques, with roll '
     'angle, steer angle, roll rate and steer rate as the state order and '
     'roll torque and steer torque as the inputs. Overriding a parameter '
     'with a number gives the same matrices as a bicycle that has that '
     'value.',
     ['inputs'], 'all values of the 27 parameters, any nonsingular mass '
     'matrix, each parameter overridden alone',
     'Tests check numbers at one parameter set; agreement there does not '
     'settle the algebra for other speeds, gravities and geometries.',
     ['bicycleparameters/bicycle.py', MODELS],
     [('state space form', 'bicycleparameters/bicycle.py: ab_matrix'),
      ('model evaluation', MODELS + ': Meijaard2007Model.'
       'form_state_space_matrices, form_reduced_canonical_matrices')],
     BASE_NOTE + '27 parameters symbolic.')

prop('C03', 'Array parameters give, entry by entry, the scalar results',
     'When some parameters of the linear bicycle model are given as '
     'sequences of equal length, the stacked matrices (canonical and state '
     'space) contain at position i exactly what the model gives when each '
     'sequence is replaced by its i-th number. This holds for any '
     'combination of parameters, sequence type and argument order.',
     ['inputs', 'configurations'], 'each of the 27 parameters alone, in '
     'combination with speed and gravity as sequences or numbers in both '
     'orders, and several groups; sequences of length 1 to 6',
     'Tests use a handful of keyword combinations; the code takes different '
     'branches for the speed, gravity and canonical parameters.',
     [MODELS],
     [('override parsing and stacking', MODELS + ': '
       '_parse_parameter_overrides, form_reduced_canonical_matrices, '
       'form_state_space_matrices')],
     BASE_NOTE + 'Sequence lengths up to 3; combinations enumerated as '
     'listed in the harness bounds, values symbolic.')

prop('C04', 'State feedback model is the open loop model minus input times gains',
     'With control gains on the four states for roll torque and steer '
     'torque, the closed loop state matrix equals the open loop one minus '
     'the input matrix times the gain matrix, the input matrix is '
     'unchanged, and zero gains give the open loop model. Gains and other '
     'parameters may each be overridden by numbers or equal length '
     'sequences with entry by entry agreement.',
     ['inputs', 'configurations'], 'all values of 27 parameters and 8 gains; '
     'each gain and each parameter as number or sequence',
     'Tests sample one gain set and one or two sweeps; a swapped or dropped '
     'gain, or stacking in the wrong order, passes at zero or equal gains.',
     [MODELS, SETS],
     [('closed loop matrices', MODELS + ': Meijaard2007WithFeedbackModel'),
      ('zero gains on conversion', SETS + ': Meijaard2007ParameterSet.'
       'to_parameterization')],
     BASE_NOTE + '35 parameters symbolic for the scalar case, sequences of '
     'length 2.')

prop('C05', 'Rider lean model reproduces the physics of a bicycle with leaning rider',
     'For every bicycle and rider, the twelve state linear model with a '
     'leaning rider is the linearization of the Whipple bicycle with an '
     'upper body hinged to the rear frame by a spring and damper, in '
     'steady upright motion at the given speed with the pitch that '
     'satisfies the wheel contact condition. Overriding '
     'any of its parameters by a number or by a sequence changes exactly '
     'that parameter, entry by entry.',
     ['inputs', 'configurations'], '37 parameters, symbolic in 16 groups of '
     '2-6 around two rational points; each overridden as number and '
     'sequence',
     'The equations are generated code of thousands of lines checked at one '
     'parameter set; an altered term with small effect there is invisible '
     'to a numeric comparison.',
     [MODELS, 'bicycleparameters/_mooreriderlean2012.py', SETS],
     [('generated equations', 'bicycleparameters/_mooreriderlean2012.py: '
       'eval_linear'),
      ('model assembly', MODELS + ': MooreRiderLean2012Model')],
     BASE_NOTE + 'The oracle is an independent derivation (Whipple part '
     'plus hinged body). Parameters outside the current group are fixed at '
     'one of two rational points; the pitch root is supplied by a stand-in '
     'for the root finder that checks the equation it is given.')

prop('C06', 'Parameter overrides are validated and never change the model',
     'An override with an unknown parameter name has no effect beyond a '
     'warning that names it, sequences of different lengths are refused '
     'with an error, and simulations refuse sequences. Evaluating a model '
     'in any way never changes its stored parameters, so later evaluations '
     'are unaffected by earlier overrides.',
     ['inputs', 'histories'], 'three models, all evaluation entry points, '
     'override names and lengths, sequences of evaluations',
     'Tests exercise single calls; state leaking from one call to the next '
     'or a silently ignored key appears only in particular sequences.',
     [MODELS, SETS],
     [('override validation', MODELS + ': _parse_parameter_overrides')],
     BASE_NOTE + 'Two successive evaluations with symbolic values; names '
     'and lengths enumerated as listed.')

prop('C07', 'Sorting eigenmodes only reorders them, following the nearest value',
     'Sorting a sequence of eigenvalues and eigenvectors leaves the first '
     'entry in place and permutes each later one, keeping every eigenvector '
     'with its own eigenvalue and losing or duplicating none. Going from '
     'one entry to the next, each mode in turn takes the nearest eigenvalue '
     'that is not yet taken.',
     ['inputs'], 'arbitrary complex eigenvalues and eigenvectors; 2 to 6 '
     'entries of 2 to 4 modes as stated in the evidence',
     'Tests check one bicycle and one sweep; duplicates appear only when '
     'two modes are closest to the same eigenvalue.',
     [MODELS, 'bicycleparameters/bicycle.py'],
     [('mode tracking', MODELS + ': sort_eigenmodes; bicycle.py: '
       'sort_modes')],
     BASE_NOTE + 'Bounded sizes as listed in the evidence.')

prop('C08', 'Eigenvalue results belong to the parameter values asked for',
     'For each requested parameter value (number or sequence, right or left '
     'eigenvectors), the returned eigenvalues and eigenvectors are those of '
     'the state matrix for that value, in the position of that value and '
     'unmodified.',
     ['inputs', 'configurations'], 'three models; number, sequences and '
     'combinations; arbitrary solver results',
     'Tests look at shapes and a few values; mixing of positions or '
     'transposition of eigenvectors shows only for unsymmetric cases.',
     [MODELS, 'bicycleparameters/bicycle.py'],
     [('eigen analysis', MODELS + ': calc_eigen'
       )],
     BASE_NOTE + 'The numerical eigenvalue routine itself is replaced by an '
     'arbitrary function of its argument and is outside the claim.')

prop('C09', 'Simulations integrate the model under the given initial state and law',
     'A simulation solves xdot = A x + B u(t, x) with the model matrices '
     'for the given parameters, from exactly the given initial state and at '
     'exactly the given times, and returns the states and the inputs that '
     'correspond to those states and times. A mode simulation starts from '
     'the real part of the chosen eigenvector. The caller\'s arrays are '
     'never changed.',
     ['inputs', 'schedules'], 'arbitrary affine control laws, states, times '
     'and parameters; benchmark, feedback and rider lean models',
     'Tests simulate one case and check shapes; wrong sign of the input '
     'matrix or reuse of a caller\'s array is invisible there.',
     [MODELS],
     [('simulation', MODELS + ': simulate, simulate_modes')],
     BASE_NOTE + 'The integrator is replaced by an arbitrary trajectory; '
     'its numerical accuracy is outside the claim.')

prop('C10', 'Figures of model results show the model\'s own numbers',
     'The curves drawn for eigenvalue parts, eigenvector components, mode '
     'simulations, simulations, feedback gains and modal controllability '
     'are exactly the values the model computes for the abscissa values, '
     'each assigned to its own mode, state, input or gain, with angles in '
     'the unit of the axis. Stable regions are shaded exactly where all '
     'real parts are non-positive.',
     ['inputs', 'configurations'], 'arbitrary eigenvalues, eigenvectors, '
     'trajectories and gains, and every plotting option that changes data',
     'Tests only call the plotting functions; nothing checks what is drawn.',
     [MODELS],
     [('plot methods', MODELS + ': plot_eigenvalue_parts, '
       'plot_eigenvectors, plot_mode_simulations, plot_simulation, '
       'plot_gains, _calc_modal_controllability')],
     BASE_NOTE + 'matplotlib is replaced by a recorder (rendering is '
     'outside the claim); eig and solve_ivp are arbitrary.')

prop('C11', 'Mass centers of bodies and groups are mass weighted averages',
     'The mass center and inertia tensor a parameter set reports for a body '
     'are the ones its parameters define, and the mass center of any group '
     'of bodies, in any order, is the mass weighted mean of theirs. '
     'Combining point masses gives the total mass and the weighted mean, '
     'whichever way a mass is split or the origin is chosen.',
     ['inputs', 'configurations'], 'all parameters of both drawing '
     'parameterizations; every ordered group of bodies; 1-4 point masses',
     'Tests compare one bicycle and one or two groups; a body dropped from '
     'a group or a swapped coordinate shows only for some combinations.',
     [SETS, 'bicycleparameters/com.py'],
     [('body vectors and tensors', SETS + ': form_mass_center_vector, '
       'form_inertia_tensor, mass_center_of'),
      ('combination', 'bicycleparameters/com.py: total_com')],
     BASE_NOTE + 'Groups enumerated, values symbolic.')

prop('C12', 'Converting between parameterizations keeps the same bicycle',
     'Converting a parameter set to another parameterization gives a set '
     'that describes the same bodies in the same places: total masses, mass '
     'centers, inertias and geometry agree, added gains are zero, and the '
     'source set is unchanged. Conversion to the set\'s own parameterization '
     'gives the set itself, impossible targets are refused, and a set can '
     'only be made when every required parameter is present as a number.',
     ['inputs', 'configurations'], 'all parameters of all five '
     'parameterizations; every pair of source and target',
     'Tests convert one bicycle and compare a few numbers; parallel axis '
     'terms or offsets that vanish there are not exercised.',
     [SETS, 'bicycleparameters/conversions.py'],
     [('conversions', 'bicycleparameters/conversions.py: '
       '_convert_principal_to_benchmark'),
      ('dispatch and validation', SETS + ': to_parameterization, '
       '_check_parameters')],
     BASE_NOTE + 'Masses, centers and tensors compared with an independent '
     'sum over the bodies; dynamics of converted sets at a rational point '
     'for the bodies that are not symbolic.')

prop('C13', 'Drawings of a parameter set place its parts where they are',
     'The wheels, ground line, steer axis, mass center symbols, radii of '
     'gyration and inertia ellipses drawn for a parameter set lie at the '
     'positions, angles and sizes its parameters define, for every body and '
     'group, with the vertical axis downward and equal scales. Ellipses have '
     'the principal radii of gyration of the equivalent solid as half axes.',
     ['inputs', 'configurations'], 'all parameters of both drawing '
     'parameterizations; each body, all bodies and subsets',
     'Tests only call the drawing functions; nothing checks what is drawn.',
     [SETS, 'bicycleparameters/plot_utils.py'],
     [('drawing', SETS + ': plot_geometry, plot_mass_centers, '
       'plot_principal_radii_of_gyration, plot_principal_inertia_ellipsoids, '
       'plot_person_diamond, plot_all')],
     BASE_NOTE + 'matplotlib is replaced by a recorder (rendering is outside '
     'the claim) and the eigenvalue routine by the known decomposition in '
     'any order and sign.')

prop('C14', 'Measured dimensions give the geometry they were measured from',
     'For every bicycle geometry, the wheelbase, trail, steer axis tilt and '
     'wheel radii computed from the dimensions one would measure on it, in '
     'either documented way (wheelbase, head angle and fork offset, or '
     'heights and offsets with axle diameters), are those of that geometry, '
     'with or without uncertainties.',
     ['inputs'], 'any wheel radii, tilt, trail and wheelbase, any gage '
     'heights and axle diameters',
     'Tests use one bicycle; sign errors in the offsets cancel for '
     'symmetric axles or equal wheels.',
     ['bicycleparameters/geometry.py', 'bicycleparameters/bicycle.py'],
     [('measured to geometry', 'bicycleparameters/geometry.py: '
       'calculate_benchmark_geometry, calculate_abc_geometry, '
       'calculate_l1_l2'),
      ('steer axis tilt and trail', 'bicycleparameters/bicycle.py: '
       'lambda_from_abc, trail')],
     BASE_NOTE + 'The root finder is replaced by one that checks the '
     'equation at the true root; its convergence is outside the claim. '
     'Propagation of standard deviations is outside the claim.')

prop('C15', 'Suspension measurements locate the true center of mass',
     'For every part hung from the documented points at two or more angles, '
     'the computed lines pass through its center of mass and the reported '
     'center is that point; when measured lines do not quite meet it is the '
     'mean of their pairwise intersections. The result does not depend on '
     'the order in which the measurements are given, and each part is '
     'located with its own measurements.',
     ['inputs', 'configurations'], 'any center of mass, geometry and hanging '
     'angles; 2 to 11 orientations; frame, fork, handlebar or both',
     'Tests use a single bicycle; each part has its own reference point and '
     'branch, and three near concurrent lines hide index errors.',
     ['bicycleparameters/com.py'],
     [('lines and intersections', 'bicycleparameters/com.py: com_line, '
       'part_com_lines, center_of_mass, cartesian')],
     BASE_NOTE + 'Sizes as stated in the evidence.')

prop('C16', 'Inertia arithmetic recovers and combines true tensors',
     'Moments of inertia computed from pendulum periods, the planar tensor '
     'computed from moments about three or more axes, parallel axis shifts, '
     'rotations, principal axes and sums of bodies are the exact '
     'rigid body results for every tensor, mass, offset and angle. Adding a '
     'rider gives the bicycle with the total mass, joint mass center and '
     'joint inertia of frame and rider.',
     ['inputs'], 'arbitrary tensors, masses, offsets, angles and periods; 3 '
     'to 6 orientations',
     'Tests check a few numbers; products of inertia and lateral offsets '
     'are zero in most of them.',
     ['bicycleparameters/inertia.py', 'bicycleparameters/conversions.py'],
     [('pendulums', 'bicycleparameters/inertia.py: '
       'compound_pendulum_inertia, tor_inertia, '
       'torsional_pendulum_stiffness, tube_inertia'),
      ('tensors', 'bicycleparameters/inertia.py: inertia_components, '
       'parallel_axis, rotate_inertia_tensor, principal_axes, '
       'part_inertia_tensor'),
      ('combination', 'bicycleparameters/inertia.py: combine_bike_rider; '
       'conversions.py: _sum_central_inertias')],
     BASE_NOTE + 'Least squares is the exact normal equation solution; '
     'riders may lie beside the plane of symmetry.')

prop('C17', 'Raw measurements of a bicycle give that bicycle\'s parameters',
     'For every bicycle, the parameters calculated from the complete set of '
     'measurements one would take on it (dimensions, masses, suspension '
     'angles, pendulum periods, calibration rod) are the geometry, masses, '
     'mass centers and inertias of that bicycle. This holds for a fork and '
     'handlebar measured together or apart, with or without a flywheel, for '
     'three or more orientations, with or without uncertainties and in any '
     'order of the entries; the measurements are left as they were.',
     ['inputs', 'configurations'], 'any geometry, masses, mass centers, '
     'tensors, pendulum lengths and rod; 3 to 5 orientations',
     'Tests run a few measured bicycles and compare stored outputs; each '
     'part has its own reference point, signs and periods, and a mix up that '
     'is small for those bicycles passes.',
     ['bicycleparameters/main.py', 'bicycleparameters/inertia.py',
      'bicycleparameters/com.py', 'bicycleparameters/geometry.py'],
     [('raw data to parameters', 'bicycleparameters/main.py: '
       'calculate_benchmark_from_measured, is_fork_split, '
       'get_parts_in_parameters')],
     BASE_NOTE + 'The measurements are generated from a symbolic true '
     'bicycle by the pendulum and suspension equations; hanging angles are '
     'chosen from a list, everything else is symbolic. The tilt root finder '
     'returns the true root after its equation was checked.')

prop('C18', 'Oscillation periods and their errors come from the recorded signals',
     'A recorded oscillation is cut from its farthest sample to the last one '
     'above a tenth of the maximum (records with their own times stay whole), '
     'fitted with a decaying sinusoid, and yields the period of the damped '
     'oscillation with the standard deviation of the least squares fit and '
     'its goodness of fit. Every signal file counts for the part, pendulum '
     'and orientation it names, repeated trials are averaged, and periods '
     'are recalculated exactly when a needed one is missing.',
     ['inputs', 'configurations'], 'any signals, fit parameters and times of '
     'stated sizes; every part, pendulum and orientation',
     'Tests do not cover period estimation at all, and a wrong derivative, '
     'weight or file name still gives plausible numbers.',
     ['bicycleparameters/period.py'],
     [('fit and error propagation', 'bicycleparameters/period.py: '
       'get_period, jac_fitfunc, fit_goodness, get_period_from_truncated'),
      ('names and averaging', 'bicycleparameters/period.py: '
       'get_period_key, calc_periods_for_files, check_for_period, '
       'select_good_data')],
     BASE_NOTE + 'The least squares routine is replaced by an arbitrary '
     'result after its residual function was checked at an arbitrary point; '
     'its convergence is outside the claim and the start value is checked on rectangular records. Signals have at '
     'least one sample off the mean. Sample counts as in the evidence.')

prop('C19', 'Parameter and measurement files keep what is written in them',
     'Parameters written to a text file are read back the same, with and '
     'without uncertainties, and an existing file is replaced only with '
     'consent. Reading understands comments, blank lines, spacing and '
     'comma separated repetitions (their mean with its propagated '
     'uncertainty), and saving periods replaces or adds only the period '
     'entries. Pendulum file names and recorded signals are read as their '
     'format defines, and removing uncertainties gives the nominal numbers.',
     ['inputs', 'histories'], 'any values of one to four parameters, any '
     'answers, file layouts of the listed kinds',
     'Tests write one file; layouts, signs, consent sequences and periods '
     'in other places are not exercised.',
     ['bicycleparameters/io.py'],
     [('text files', 'bicycleparameters/io.py: load_parameter_text_file, '
       'write_parameter_text_file, write_periods_to_file, '
       'remove_uncertainties'),
      ('pendulum files', 'bicycleparameters/io.py: filename_to_dict, '
       'load_pendulum_mat_file')],
     BASE_NOTE + 'Numbers are held as text that stands for a symbol, so '
     'formatting precision is outside the claim.')

prop('C20', 'Parameter sets survive saving and loading, and tables show them',
     'A parameter set written to a YAML file is loaded as the same '
     'parameterization with the same values and rider flag, also when it '
     'comes from a conversion, and the INI format holds each parameter '
     'once with its value. The displayed table lists every parameter once '
     'with its own value and symbol.',
     ['inputs', 'configurations'], 'every parameterization and all values',
     'Tests check one set and look at few entries; a value attached to '
     'another name or a lost flag goes unnoticed.',
     [SETS],
     [('files', SETS + ': to_yaml, _from_yaml, to_ini'),
      ('table', SETS + ': _generate_body_colors, _repr_html_')],
     BASE_NOTE + 'Text formatting precision is outside the claim.')

prop('C21', 'Steer assembly inertia is that of the chosen parts, axes and point',
     'The reported inertia tensor of any choice of handlebar, fork and front '
     'wheel is that of the chosen bodies about their joint mass center, or '
     'about its foot on the steer axis, in axes aligned with the steer axis. '
     'Fork or handlebar alone are refused when they were not measured '
     'separately, and the parameters are left as they were.',
     ['inputs', 'configurations'], 'all parameters, all eight choices of '
     'parts, both points, numbers or uncertain numbers',
     'There are no tests of this result; the choices interact and products '
     'of inertia change with the tilt.',
     ['bicycleparameters/main.py', 'bicycleparameters/inertia.py',
      'bicycleparameters/geometry.py', 'bicycleparameters/com.py'],
     [('assembly', 'bicycleparameters/main.py: '
       'Bicycle.steer_assembly_moment_of_inertia')],
     BASE_NOTE)

prop('C22', 'A bicycle object reflects its files, rider and calculations',
     'Loading a bicycle gives the stored parameters or, when they are absent '
     'or a calculation is forced, those calculated from its measurements '
     'with the periods calculated when needed or forced; unknown bicycles '
     'are refused. Adding a rider combines frame and rider once, a later '
     'rider is turned away without a trace, and saving writes each set to '
     'its own file so that loading gives it back. Its canonical matrices, '
     'state matrices and eigenvalues are those of its current parameters '
     'for each requested speed, with or without uncertainties.',
     ['inputs', 'histories', 'configurations'], 'any parameter values; the '
     'combinations of files, flags and steps listed in the evidence',
     'Tests load two bicycles from shipped data; sequences such as a second '
     'rider or saving twice, and forced calculations, are not covered.',
     ['bicycleparameters/main.py', 'bicycleparameters/io.py',
      'bicycleparameters/rider.py', 'bicycleparameters/inertia.py'],
     [('life of the object', 'bicycleparameters/main.py: Bicycle.__init__, '
       'calculate_from_measured, save_parameters, add_rider'),
      ('results', 'bicycleparameters/main.py: canonical, state_space, eig')],
     BASE_NOTE + 'Files live in a scratch folder; numbers are text standing '
     'for symbols. Eigenvalues are an arbitrary result of the numerical '
     'routine, whose input is checked.')

prop('C26', 'Geometric helpers compute true distances, projections and angles',
     'The distance of a point to a line or to the steer axis, the projection '
     'of a point on a line and of a vector into a plane, the angle between '
     'vectors and the angles of two links reaching a given distance are the '
     'Euclidean ones. The frame lines drawn for a bicycle run '
     'perpendicularly from each wheel center to its steer axis.',
     ['inputs'], 'any points, lines, vectors, links and geometry',
     'Tests check one number for a few of these; others have no test.',
     ['bicycleparameters/geometry.py'],
     [('helpers', 'bicycleparameters/geometry.py: distance_to_steer_axis, '
       'point_to_line_distance, project_point_on_line, vec_angle, '
       'vec_project, calc_two_link_angles, fundamental_geometry_plot_data')],
     BASE_NOTE + 'Degenerate inputs (zero length vectors, collapsed links) '
     'are excluded.')

prop('C25', 'A rider placed on a bicycle sits, holds and treads where it offers',
     'The posture found for a rider on a bicycle has the pelvis on the seat, '
     'the feet at the bottom bracket, the hands at the measured grips and '
     'the elbow hinges horizontal, for every rider and every position of '
     'seat and handlebar, with the given forward lean of the torso and '
     'right limbs mirroring the left ones. The rider mass, mass center and '
     'inertia are those of that posture expressed in the bicycle\'s frame, '
     'and the combined set has the total mass and joint mass center.',
     ['inputs'], 'any segment lengths, seat, crank and grip positions, joint '
     'angles and inertia tensors in the stated ranges; numbers with and '
     'without uncertainty',
     'Tests compare one rider on one bicycle; ten expanded trigonometric '
     'conditions cannot be settled by one posture whose lean or rotation '
     'angles are small.',
     ['bicycleparameters/rider.py', 'bicycleparameters/inertia.py'],
     [('posture', 'bicycleparameters/rider.py: rider_on_bike'),
      ('frame change', 'bicycleparameters/rider.py: yeadon_vec_to_bicycle_'
       'vec, configure_rider')],
     BASE_NOTE + 'The human model (joint lengths, joint rotation order, mass, '
     'mass center, inertia) is a stand-in written from its documentation; '
     'the nonlinear solver returns a posture that fits and the conditions '
     'the package gives it are evaluated there and at violations of each.')

prop('C23', 'Tables show each parameter of each bicycle, rounded by its uncertainty',
     'A table of several bicycles has one row per parameter any of them has, '
     'in alphabetical order regardless of case, with the value and '
     'uncertainty of each bicycle in its own columns and NA where it has '
     'none, however often the table is created. A value with an uncertainty '
     'is shown with both rounded to the decimal of the first nonzero digit of '
     'the uncertainty (to whole numbers for uncertainties above one), a value '
     'without one in full. The reStructuredText version, returned or '
     'written to a file, is an aligned grid with the bicycle names above '
     'their columns.',
     ['inputs'], 'any values and uncertainties; every combination of absent, '
     'plain and uncertain entries of two or three bicycles',
     'No test covers tables; which decimals are shown depends on the decade '
     'of the uncertainty and on the sign and size of the value.',
     ['bicycleparameters/tables.py'],
     [('rounding', 'bicycleparameters/tables.py: uround'),
      ('rows', 'bicycleparameters/tables.py: Table.generate_variable_list, '
       'generate_table_data'),
      ('grid', 'bicycleparameters/tables.py: Table.create_rst_table')],
     BASE_NOTE + 'Numbers written as text are tokens that keep the value and '
     'the number of decimals asked for; the decimal digits themselves are '
     'those of the language and not encoded.')

prop('C24', 'The web application draws the bicycle its tables show',
     'The tables of the web application show every parameter of the chosen '
     'bicycle in the labelled cell, the steer axis tilt in degrees. Both '
     'figures are drawn for the parameters in the tables, whatever was '
     'changed last, for any values typed into any cell, and for the chosen '
     'bicycle right after choosing it; looking at the tables or changing '
     'display options does not change the bicycle. The speeds run '
     'from one end of the slider to the other, and mass centers, ellipses '
     'and the stable region are drawn when ticked.',
     ['inputs', 'histories'], 'any parameters and edits, every trigger and '
     'combination of tables, options and sliders listed with the check',
     'No test covers the application; truncated or swapped cells show only '
     'for parameters which differ, and a stale figure only after a '
     'particular order of edits.',
     ['bicycleparameters/app.py'],
     [('tables', 'bicycleparameters/app.py: populate_wheel_data'),
      ('figures', 'bicycleparameters/app.py: plot_update')],
     BASE_NOTE + 'The bicycle object is a stand-in of any parameters and the '
     'two figures are recorded (their content is decided separately); the '
     'browser and the web framework are outside.')

prop('C27', 'Figures of a bicycle show its geometry, inertia and dynamics',
     'The geometry figure of a bicycle, in both drawing libraries, has the '
     'wheels on the ground at their places, the frame perpendicular to and '
     'ending on the steer axis, every mass center at its place, an inertia '
     'ellipse along the principal axes of each body (full axes half the '
     'larger in-plane moment, along the axis of the smaller one, and half '
     'the geometric mean of both), the pendulum axes along the measured '
     'lines and as long as the measured inertia, and the limbs of the rider '
     'between the joints. Figures of eigenvalues show, for every order of '
     'the speeds, the real and imaginary parts of each mode or the largest '
     'real part, and the speeds at which all modes are stable. Bode plots '
     'are of the asked input, output, speed and bicycle, with phases moved '
     'by whole turns to start within half a turn.',
     ['inputs'], 'any parameters, inertia tensors, pendulum lines, joint '
     'positions, eigenvalues and phases in the stated ranges',
     'Tests only call the plotting functions for one bicycle; mirrored '
     'ellipses or curves of another mode do not raise.',
     ['bicycleparameters/main.py', 'bicycleparameters/plot.py',
      'bicycleparameters/geometry.py'],
     [('geometry', 'bicycleparameters/main.py: plot_bicycle_geometry, '
       '_plot_bicycle_geometry_plotly'),
      ('eigenvalues', 'bicycleparameters/main.py: plot_eigenvalues_vs_speed, '
       '_plot_eigenvalues_vs_speed_plotly; bicycleparameters/plot.py: '
       'plot_eigenvalues'),
      ('bode', 'bicycleparameters/main.py: plot_bode, compare_bode_speeds; '
       'bicycleparameters/plot.py: compare_bode_bicycles')],
     BASE_NOTE + 'The drawing libraries record what is drawn; eigen '
     'decompositions are known by construction or arbitrary; modes stay '
     'apart from speed to speed; the frequency response itself is computed '
     'by another package.')
