TECH = 'static analysis: gated value-graph (global value numbering) abstract interpretation of the resolved clang AST, equalities decided by term normal forms and refuted by random interpretation of the terms'
NOTE = ('Decides each obligation for all inputs of the analysed functions when the normal forms coincide ("discharged"); an alarm needs a concrete interpretation that separates '
        'the two terms; obligations where neither succeeds are counted as agreed/undecided in the evidence and never alarm. Trusts the clang AST, the documented meaning of Eigen/boost/std, '
        'exact real arithmetic, no aliasing of distinct reference parameters.')


def P(id, title, statement, over, qtext, why, files, mech, technique=TECH, note=NOTE, claimed=True, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a,
                technique=technique, note=note, claimed=claimed)


CH = 'core/include/humoto/'
PROPS = [
    P('C01', 'Every constraint form converts to the solver forms with the same feasible set',
      'Whatever form a task states its constraints in (dense, offset dense block, scaled selected variables, selected variables; two-sided, lower-only, upper-only, equality, zero equality), '
      'copying it into a solver container (two-sided general, lower-only general, equality, simple bounds) writes, at the requested row, rows that admit exactly the same variable values, in the task\'s row order, '
      'lower-bound rows before the negated upper-bound rows, and leaves every other row of the container unchanged. '
      'A conversion that does not exist for the form is refused with an exception instead of writing something else.',
      ['inputs', 'programs'], 'all matrices, bounds, index vectors, sizes, offsets and target rows of the 20 task forms and 4 containers',
      'The tests only exercise a few fixed problems with two or three of the twenty forms; an error in one conversion needs that form, a nonzero offset or a bound of one sign to show.',
      [CH + 'constraints.h', CH + 'constraints_mixins.h', CH + 'constraints_base.h'],
      [('copyTo overloads of the constraint classes', CH + 'constraints.h'), ('container copy methods', CH + 'constraints_mixins.h')]),
    P('C02', 'A hierarchy level stacks all its tasks\' rows exactly once and consistently',
      'For any sequence of tasks on a level (any mix of equality, inequality, one- and two-sided, simple and general tasks) the rows handed to a solver, the row ranges used for active sets and violations, '
      'and the reported row counts all describe the same partition: every row of every task appears exactly once, its rows contiguous and in the task\'s own order, at the position reported for that task. '
      'The same holds when the level is split into equality and inequality parts or into simple bounds and general constraints.',
      ['inputs', 'histories', 'configurations'], 'all task sequences on a level, all task sizes, all splits requested by solvers',
      'Tests solve a handful of fixed hierarchies; an off-by-one row offset only shows for particular orders and kinds of tasks.',
      [CH + 'hierarchy_level.h', CH + 'qp_problem.h', CH + 'hierarchy.h'],
      [('level row bookkeeping', CH + 'hierarchy_level.h'), ('constraint splitting', CH + 'qp_problem.h')]),
    P('C03', 'The quadratic objective is the sum of squared residuals of the objective tasks',
      'For every equality task form, the Hessian and gradient contributions equal the transpose-products of its rows with themselves and with its right hand side, summed over all tasks of the objective level, '
      'with the gradient negated and the triangle requested filled; inequality objectives are refused. '
      'The declared Hessian type is never stronger than what was filled in, and regularization only adds to the diagonal.',
      ['inputs', 'programs'], 'all equality task forms, sizes, offsets, values and all task sequences on the objective level',
      'Numerical tests compare a few solutions; a wrong contribution of one form shows only with that form and with particular values.',
      [CH + 'constraints.h', CH + 'qp_problem.h', CH + 'hierarchy_level.h'],
      [('transpose products of the task forms', CH + 'constraints.h'), ('objective accumulation', CH + 'qp_problem.h')]),
    P('C04', 'Active set and violations classify every row relative to its bounds',
      'For every task form, the active set derived from a solution marks a row as lower (upper) active exactly when the row value is at or below its lower (at or above its upper) bound '
      'equality rows as equality and all others as inactive, and the violation of a row is zero inside the bounds and the signed distance to the violated bound outside. '
      'Merging the activity reported for the two one-sided halves of a two-sided constraint, and merging bounds on the same variable, loses no information.',
      ['inputs'], 'all task forms, matrices, bounds, solutions, row offsets',
      'The tests never look at active sets of most forms; a swapped side or sign at a boundary value needs a solution exactly on that bound.',
      [CH + 'constraints.h', CH + 'constraints_base.h', CH + 'active_set.h', CH + 'violations.h'],
      [('active set and violations of the task forms', CH + 'constraints.h'), ('bounds containers', CH + 'constraints_mixins.h')]),
    P('C05', 'Active sets are transported unchanged; stale guesses are never reused',
      'The part of an active set (or of the violations) that belongs to a task or level is copied to and from the whole without altering, dropping or shifting any entry, '
      'fresh ones start undefined and zero-filled with the sizes of the rows they describe. '
      'A warm start offers the previous active set of a task only when the task is unmodified and the lengths match; a modified or new task starts from an inactive (equality, for equality tasks) guess.',
      ['inputs', 'histories'], 'all sizes, ranges and contents of active sets; all numbers of levels up to 3; all previous states of a task',
      'Tests do not warm start hierarchies whose sizes change between iterations, which is when stale activity would be reused.',
      [CH + 'active_set.h', CH + 'violations.h', CH + 'task.h', CH + 'hierarchy.h', CH + 'hierarchy_level.h'],
      [('active set containers', CH + 'active_set.h'), ('guess construction', CH + 'task.h'), ('routing between levels', CH + 'hierarchy.h')]),
    P('C06', 'The program given to a solver is the hierarchy, and the KKT solver solves it',
      'A hierarchy of one or two levels becomes a quadratic program whose objective is exactly its last level and whose constraints are exactly its first level (none, over the same variables, when there is one level), '
      'independently of any problem converted before; every other hierarchy (no or more levels, inequality or empty objective, inequalities where unsupported) is refused with an exception. '
      'The built-in equality constrained solver returns the primal part of the solution of the KKT system of exactly that program (with the configured regularization when constraints are eliminated), '
      'reports success, and refuses unknown methods and elimination with a Hessian that is not diagonal.',
      ['inputs', 'histories', 'configurations'], 'all hierarchies with 0 to 3 levels, all previous states of the program object, all matrices and sizes, all solver parameters',
      'Tests solve a few two-level problems with fresh solvers; stale constraints need a reused solver, a sign slip in one solution method needs that method and a nonzero right hand side.',
      [CH + 'hierarchy.h', CH + 'qp_problem.h', 'core/include/kktsolver.h'],
      [('conversion to a QP', CH + 'hierarchy.h'), ('constraint sets of a QP', CH + 'qp_problem.h'), ('KKT solver', 'core/include/kktsolver.h')]),
    P('C07', 'Every solve call runs the same pipeline with the given data and reports failures',
      'Whichever solve overload is used, the problem is validated before anything else, the solver is initialized with that problem and the structure of the solution, the given guesses (and only those) are set before solving, '
      'and the active set is extracted after solving exactly when it is requested, all with the parameters given in the call or stored before. '
      'A failure is reported by an exception exactly when the parameters ask for it; QP solvers refuse disabled conversions and hierarchies that are not quadratic programs.',
      ['inputs', 'configurations', 'fault_sequences'], 'all overloads of solve, all parameters, all solver outcomes, hierarchies with 0 to 3 levels',
      'Only one of the ten overloads is ever exercised by the tests and no test makes a solver fail.',
      [CH + 'solver.h', 'core/include/kktsolver.h'],
      [('solver interface classes', CH + 'solver.h')]),
    P('C08', 'Named parts tile the solution vector; reading, slicing and guessing agree',
      'Parts with distinct names occupy consecutive, disjoint ranges in the order they were added, together exactly the whole vector; unknown names denote the empty part and resetting forgets everything. '
      'Reading a part, slicing matrix columns and initializing a solution from a structure, a constant or an old solution all use that same range; in a guess a part is copied by name exactly when its length is unchanged and is zero otherwise, '
      'and access outside of the vector is refused.',
      ['inputs', 'histories'], 'all part names, lengths, vectors and old solutions; guesses for structures with up to 3 (thorough: 5) parts',
      'The tests use one part or fixed part lists; an overlap or a mismatched guess needs a structure that changes between solutions.',
      [CH + 'solution.h', CH + 'utility.h'],
      [('structure of a solution', CH + 'solution.h'), ('locations', CH + 'utility.h')]),
    P('C09', 'Discrete-time models are exact solutions of the continuous dynamics',
      'For every sampling interval, subsampling instant and model height, the state and control matrices of the triple integrator (jerk, position, velocity and acceleration controlled, any number of dimensions) '
      'and of the six-dimensional point mass model controlled by the centre of pressure equal the closed-form solution of the continuous dynamics over that interval, '
      'and the output matrices (centre of pressure, capture point, jerk) agree with the same states. '
      'State vectors and states are converted into each other without mixing axes or derivatives, and evaluation inside an interval follows the same dynamics.',
      ['inputs'], 'all intervals, subsampling instants, frequencies, heights, states; integrators of 1 to 3 dimensions',
      'The tests compare the integrator matrices at one sampling time against a stored table and never touch the point mass model.',
      ['core/include/rigid_body/triple_integrator.h', 'core/include/walking/point_mass_model_6z.h'],
      [('triple integrator matrices', 'core/include/rigid_body/triple_integrator.h'), ('point mass model', 'core/include/walking/point_mass_model_6z.h')]),
    P('C10', 'Trajectories meet their boundary conditions and derivatives are consistent',
      'A cubic polynomial starts and ends exactly with the requested position and velocity, its velocity, acceleration and jerk are the derivatives of its position at every admissible time, and other times are refused. '
      'A foot trajectory starts and ends with the given pose and velocity, passes the step height in the middle of the step at rest vertically with both halves meeting smoothly, refuses ends above the step height, '
      'and reports the same values through the vector and the state interfaces. Rescaling maps a range affinely onto the requested one.',
      ['inputs'], 'all boundary conditions, times in the unit interval and outside of it, step heights, scaled vectors',
      'No test evaluates a trajectory; a wrong velocity term shows only for nonzero boundary velocities.',
      ['core/include/rigid_body/cubic_polynomial.h', 'core/include/walking/foot_trajectory.h'],
      [('cubic polynomial', 'core/include/rigid_body/cubic_polynomial.h'), ('foot trajectory', 'core/include/walking/foot_trajectory.h')]),
    P('C11', 'Orientation utilities and rigid body states are mutually consistent',
      'The rotation matrix, the rate transform, the rotation errors and the conversion back to angles all refer to the same composition of elementary rotations for each Euler angle convention, unsupported conventions are refused, '
      'and integrating an angular velocity multiplies the orientation by the first order respectively exact rotation (identity for negligible velocities). '
      'Rigid body states store every component under its own name, default to rest at the origin, and translation changes the position only.',
      ['inputs'], 'all angles, matrices, angular velocities, time steps, tolerances and states',
      'The tests sample a few angles of the conversions; errors, integration and states are not tested.',
      ['core/include/rigid_body/rotary_state.h', 'core/include/rigid_body/point_mass_state.h', 'core/include/rigid_body/rigid_body_state.h', 'core/include/eigentools.h'],
      [('rotations', 'core/include/rigid_body/rotary_state.h'), ('states', 'core/include/rigid_body/rigid_body_state.h')]),
    P('C12', 'The walking state machine alternates stances as configured',
      'From any well formed configuration the machine starts in the configured stance, alternates left and right single supports separated by transitional double supports with the configured durations, '
      'performs exactly the configured number of steps and then stays in double support; malformed configurations and states are refused. '
      'Shifting the time elapses exactly the given time and performs a transition for every completed stance, and previews list the stances that such shifts would pass through, with durations adding up to the preview, without changing the machine.',
      ['inputs', 'histories', 'configurations'], 'all parameters, states, times; shifts and previews over up to 3 (thorough: 6) transitions from every kind of stance',
      'No test checks the stance sequence; an error at the end of the walk or at a stance boundary needs a shift that ends exactly there.',
      ['core/include/walking/stance_finite_state_machine.h'],
      [('stance state machine', 'core/include/walking/stance_finite_state_machine.h')]),
    P('C13', 'Left and right are mirror images; foot geometry follows its parameters',
      'For every set of foot parameters the bounds and positions of the right foot are those of the left foot mirrored in the lateral axis, with lower bounds below upper ones, and support polygons are the configured rectangles centred under the feet. '
      'The position of a foot relative to a double support and of a double support relative to a foot are inverse to each other for any orientation; derived values are up to date after loading defaults. '
      'Containers of left and right parts keep the sides apart, mirroring a side twice gives that side, and anything that is not a side is refused.',
      ['inputs', 'configurations'], 'all parameter values, orientations, positions, sides and bound types; all container instances',
      'No test uses the right foot separately from the left; a swapped bound or sign on one side shows only while standing on that foot.',
      ['core/include/walking/robot_foot_parameters.h', 'core/include/humoto/leftright.h', 'core/include/eigentools/eigentools.h'],
      [('foot parameters', 'core/include/walking/robot_foot_parameters.h'), ('sides', 'core/include/humoto/leftright.h')]),
    P('C14', 'Condensing of linear dynamics reproduces the recursion',
      'For discrete linear systems with constant or time variant matrices, the stacked matrices obtained by condensing predict exactly the sequence of states that applying the recursion step by step to the same initial state and controls produces. '
      'The condensed outputs are exactly the outputs along those states, with and without direct feedthrough and for several groups of controls, and dense and block structured inputs give the same result.',
      ['inputs'], 'all entries of the system matrices; every horizon up to 4 (thorough: 8), several state, control and output dimensions',
      'No test condenses a system; a wrong power or block shows only with a horizon of three or more, or with time variant matrices.',
      ['core/include/humoto/control_problem.h'],
      [('condensing', 'core/include/humoto/control_problem.h')]),
    P('C15', 'Block matrices behave as the dense matrices they denote',
      'For every sparsity pattern (general, block diagonal, lower triangular) and for block sizes fixed at compile time or given at run time, the blocks, block rows, block columns, parts of them and rows selected in all blocks are exactly the corresponding entries of the raw matrix, and the reported numbers of rows, columns and blocks are consistent. '
      'Products of block matrices and of block Kronecker products with dense, diagonal and triangular operands equal the dense products, and a Kronecker product equals the matrix with every block repeated on the diagonal.',
      ['inputs'], 'all entries; every instantiated block size and sparsity, matrices of up to 3x3 (thorough: 4x4) blocks, up to 3 (thorough: 4) copies',
      'The tests compare products for random square shapes with sizes of blocks fixed at compile time; rectangular blocks of run time size and views are not tested.',
      ['core/include/eigentools/blockmatrix_base.h', 'core/include/eigentools/blockmatrix.h', 'core/include/eigentools/blockmatrix_kronecker.h'],
      [('block matrices', 'core/include/eigentools/blockmatrix_base.h'), ('block matrix types', 'core/include/eigentools/blockmatrix.h'), ('Kronecker products', 'core/include/eigentools/blockmatrix_kronecker.h')]),
    P('C16', 'Predictions of the walking pattern generator follow its model',
      'The prediction matrices which the controller of the walking pattern generator computes for a preview horizon give, for every sequence of jerks and foot displacements, exactly the sequence of states obtained by stepping its model interval by interval, and the parsed solution consists of these states, controls and footsteps. '
      'Its tasks compare predicted velocities, CoP, capture point and footsteps with the references and bounds of the same interval in the frame of its support. '
      'Initial guesses are the previous solution moved by one interval, and states between samples follow the model.',
      ['inputs'], 'all states, parameters, references and bounds; several horizons with and without footstep variables',
      'No test runs the walking pattern generator; a wrong rotation or block needs a rotated support and a step in the preview.',
      ['modules/wpg04/include/wpg04/mpc_wpg.h', 'modules/wpg04/include/wpg04/task_copbounds.h', 'modules/wpg04/include/wpg04/task_footstepbounds.h', 'modules/wpg04/include/wpg04/task_comvelocity.h', 'modules/wpg04/include/wpg04/task_terminalconstraint.h'],
      [('controller', 'modules/wpg04/include/wpg04/mpc_wpg.h')]),
    P('C17', 'The walking preview covers its horizon; steps end where they were planned',
      'The preview horizon of the walking pattern generator has exactly the configured number of intervals, which last for what remains of the current stance and then for the sampling times of the previewed stances in their order; every interval refers to its support, with the heading, reference velocity and bounds of that support, and every transition within the horizon starts a variable step. '
      'When a transition starts, the foot in the air lands on the first planned footstep, other feet do not move, and the CoM follows the model under the first control; the model takes over exactly the feet determined by the stance and stands on the centre of its support.',
      ['inputs', 'histories', 'configurations'], 'all poses, velocities, parameters; enumerated sequences and durations of stances; all pairs of consecutive stances',
      'No test runs the generator; an error at the end of the walk, within a transition or with a short first interval is not exercised by anything.',
      ['modules/wpg04/include/wpg04/preview_horizon.h', 'modules/wpg04/include/wpg04/model.h', 'modules/wpg04/include/wpg04/mpc_wpg.h', 'modules/wpg04/include/wpg04/model_state.h', 'modules/wpg04/include/wpg04/common.h'],
      [('preview', 'modules/wpg04/include/wpg04/preview_horizon.h'), ('model', 'modules/wpg04/include/wpg04/model.h')]),
    P('C18', 'Predictions of the mobile base controller follow its model',
      'For every preview horizon the prediction matrices of the controller of the mobile base give, for every sequence of base velocities and body jerks, exactly the states of the base and body, the CoP of the two point masses relative to the base, the jerks and the displacement of the body in the frame of the base which stepping the model interval by interval gives; its tasks compare these with the references and bounds of the same interval. '
      'States extracted from a solution at any time of the horizon are those of the model under the controls of that interval, with the interpolated heading and the masses of the model, and the guess is the previous solution moved by one interval.',
      ['inputs'], 'all states, parameters, times, references and bounds; horizons of 2 and 3 (thorough: 1 to 4) intervals',
      'No test runs this controller; a control taken from a wrong interval or a wrong sign needs a moving base and a state later than the first interval.',
      ['modules/pepper_mpc/include/pepper_mpc/mpc_mg.h', 'modules/pepper_mpc/include/pepper_mpc/model.h', 'modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h', 'modules/pepper_mpc/include/pepper_mpc/model_state.h', 'modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h', 'modules/pepper_mpc/include/pepper_mpc/task_coppositionbounds.h'],
      [('controller', 'modules/pepper_mpc/include/pepper_mpc/mpc_mg.h'), ('model', 'modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h')]),
    P('C19', 'Base motion commands are previewed in order and consumed by elapsed time',
      'A command or a queue of commands of the mobile base is previewed exactly when it lasts for the whole horizon; then every sampling interval follows, in the order of the queue, the first command which still lasts at the end of that interval, its heading is the previous heading turned by the angular velocity of this command, and its reference velocity and position, masses, heights and bounds are those of the command and of the robot. '
      'Shifting by a time consumes exactly this time from the front of the queue, drops the commands which have elapsed, never makes an unlimited command finite and happens only when the controller has been updated. '
      'The bounds of the robot are the largest squares within the circles of its limits.',
      ['inputs', 'histories'], 'all velocities, positions, headings and limits; all durations of a single command; enumerated queues of durations',
      'No test runs the controller of the mobile base; an error needs a command that ends within an interval or exactly at the end of one.',
      ['modules/pepper_mpc/include/pepper_mpc/preview_horizon.h', 'modules/pepper_mpc/include/pepper_mpc/mpc_mg.h', 'modules/pepper_mpc/include/pepper_mpc/common.h'],
      [('preview', 'modules/pepper_mpc/include/pepper_mpc/preview_horizon.h'), ('shift', 'modules/pepper_mpc/include/pepper_mpc/mpc_mg.h'), ('parameters', 'modules/pepper_mpc/include/pepper_mpc/common.h')]),
    P('C20', 'Matrix utilities compute the products, arrangements and selections they name',
      'The products of a transposed matrix with itself (alone, added, or placed at an offset of a larger matrix) have the exact lower triangle and nothing else there, and mirroring a lower triangle gives the symmetric matrix. '
      'Placing matrices on a diagonal, below or next to each other (any of them may be empty), repeating blocks, removing any row or column, selecting every n-th row, transforming columns and multiplying with cross product matrices give exactly the entries of the operands in their places, and the names of the matrix types state their sizes.',
      ['inputs'], 'all entries; shapes of up to 3x3 (thorough: 4x4), longer ones for removal and selection, all positions of empty matrices among up to 5',
      'The tests concatenate a few matrices; empty matrices in a row, removal from wide matrices and offsets are not sampled.',
      ['core/include/eigentools/eigentools.h', 'core/include/eigentools/cross_product.h'],
      [('utilities', 'core/include/eigentools/eigentools.h'), ('cross products', 'core/include/eigentools/cross_product.h')]),
    P('C21', 'A written configuration restores the object, missing entries follow the policy',
      'For every configurable class (parameters, states, footsteps, tasks) the written node has the requested name, announces exactly the entries it contains, and reading it in strict or relaxed mode into any object restores every entry, including scalars, enums, vectors and matrices of any shape, whatever other nodes the file contains. '
      'When an entry or a member node is missing, strict reading is refused, and relaxed reading sets it to its default - which never depends on what the object contained - and restores all others; values of a wrong size are refused. '
      'After an accepted reading the reader is at the level where it started.',
      ['inputs', 'configurations'], 'all values of all entries of all configurable classes except optimization problems; each single missing entry; msgpack format; matrices of up to 3 rows and 2 columns',
      'No stable test reads or writes a configuration; stale values and transposed matrices show up only for particular contents of files.',
      ['core/include/config.h', 'core/include/config/define_accessors.h', 'bridges/config_msgpack/interface/config_msgpack/reader.h', 'bridges/config_msgpack/interface/config_msgpack/writer.h'],
      [('policy', 'core/include/config.h'), ('accessors', 'core/include/config/define_accessors.h'), ('reader', 'bridges/config_msgpack/interface/config_msgpack/reader.h')]),
    P('C22', 'A configuration of a hierarchy creates exactly the tasks it names',
      'For every configurable problem (core, walking pattern generator, mobile base controller) a written hierarchy read into any problem, whatever it contained before, gives the same levels with the same tasks: classes, identifiers, order and contents. '
      'Missing parts, unknown classes and lists which do not match are refused - relaxed reading without the node gives an empty problem - and never end in an access to an absent task. '
      'Generic tasks (zero variables, zero selected variables, infeasible inequality) denote their definition after any history of changes of gains and structures.',
      ['inputs', 'configurations', 'histories'], 'hierarchies of up to 3 levels and all classes of tasks of each module; each missing entry; histories of up to 3 changes of generic tasks',
      'No stable test reads a hierarchy; stale tasks and gains show up only when an object is configured again.',
      ['core/include/humoto/configurable_optimization_problem.h', 'core/include/humoto/task_generic.h', 'core/include/humoto/hierarchy.h', 'modules/wpg04/include/wpg04', 'modules/pepper_mpc/include/pepper_mpc'],
      [('hierarchy', 'core/include/humoto/configurable_optimization_problem.h'), ('generic tasks', 'core/include/humoto/task_generic.h')]),
    P('C23', 'Third party solvers get the given program, and their answer is what is reported',
      'For qpOASES, qpmad and QuadProg++ the matrices, bounds, limits and options given to the library denote the program of the given problem in the convention of that library - regularized when requested, a negative factor refused - whatever has been solved before. '
      'Guesses reach the library exactly in the call they are given to, with the documented encoding of active sets, and pointers and buffers are valid during the calls. '
      'The solution, the status (success only if the library reports it) and the active set are those returned by the library, rows of the objective being equalities.',
      ['inputs', 'histories'], 'all values of programs with 3 variables, 0 to 2 general constraints and 0 to 3 bounds including several on one variable; sequences of 3 solves; the libraries are represented by their documented interfaces',
      'None of the three libraries is available to the tests; the bridges are not even compiled by them.',
      ['bridges/qpOASES/interface/qpoases/solver.h', 'bridges/qpmad/interface/qpmad/solver.h', 'bridges/QuadProgpp/interface/quadprogpp/solver.h'],
      [('qpOASES', 'bridges/qpOASES/interface/qpoases/solver.h'), ('qpmad', 'bridges/qpmad/interface/qpmad/solver.h'), ('QuadProg++', 'bridges/QuadProgpp/interface/quadprogpp/solver.h')]),
    P('C24', 'Warm starts of the controllers follow the shift of the preview horizon',
  'For the bounds of both controllers the guess of the active set always has one entry per constraint: inactive when nothing is known, otherwise the active set of the previous solution one interval (for footsteps: one completed step) later with new entries inactive, fixed steps being equalities, and sets of a wrong size are refused. When several samples fall in one interval the tasks of the mobile base are guessed as tasks which do not move with time. Without a previous solution the guess of the solution is a zero vector of the size of the problem.',
  ['histories', 'inputs'],
  'every previous active set (all entries arbitrary) of a matching or different size, over previews of the mobile base of 2..4 intervals and of the walking pattern generator with every kind of stance sequence',
  'a test runs a controller from one initial state in which few bounds are active; a wrong shift only costs iterations or gives a wrong start to a solver that trusts it',
  ['modules/pepper_mpc/include/pepper_mpc/task_basevelocitybounds.h', 'modules/wpg04/include/wpg04/task_footstepbounds.h', 'modules/wpg04/include/wpg04/task_copbounds.h', 'core/include/humoto/active_set.h'],
  [('tasks of the mobile base', 'modules/pepper_mpc/include/pepper_mpc/task_basevelocitybounds.h'), ('tasks of the walking pattern generator', 'modules/wpg04/include/wpg04/task_footstepbounds.h')]),
    P('C25', 'Task forms have their kind and shapes; malformed ones never reach a solver',
      'Every form of a task is an equality, simple, or two-sided inequality exactly as its body and bounds say, has one constraint per row, and after a reset its parts have the requested sizes whatever they contained before: '
      'no offset, neutral gains, and with initialization zero matrices and bounds which do not restrict anything; containers of solvers are reset likewise. '
      'A formed task is refused exactly when the sizes of its matrices, bounds, gains and columns do not fit together and the variables, or when the guess of its active set has another number of entries.',
      ['inputs', 'histories'], 'all 20 forms of tasks and the containers, in arbitrary previous states, with independent arbitrary sizes of every part',
      'Stable tests form only wellformed tasks, from fresh objects.',
      ['core/include/humoto/constraints.h', 'core/include/humoto/constraints_base.h', 'core/include/humoto/constraints_mixins.h', 'core/include/humoto/task.h'],
      [('consistency', 'core/include/humoto/constraints.h'), ('reset', 'core/include/humoto/constraints_mixins.h'), ('kinds', 'core/include/humoto/constraints_base.h')]),
    P('C26', 'Objects start determinate and controllers follow parameters and protocol',
      'No constructor leaves a member of an object with the former contents of the memory, setters keep every parameter as given, and a constructor with parameters does what a default constructor followed by the setter does. '
      'Sampling times in seconds, units, measured durations and states are exactly those that follow from the given parameters. '
      'A controller reports OK while there is something to preview and stops otherwise, and gives a state only after a solution for its latest update, the same whether the solution is parsed explicitly or on the way.',
      ['inputs', 'histories'], 'all constructors, setters and members of all classes with arbitrary memory and parameters, and all orders of update, parse and query of both controllers',
      'Tests cannot see what indeterminate memory happens to contain, use default parameters mostly, and call the methods of controllers in one order only.',
      ['core/include/humoto/qp_problem.h', 'core/include/humoto/time.h', 'modules/wpg04/include/wpg04/mpc_wpg.h', 'modules/pepper_mpc/include/pepper_mpc/mpc_mg.h'],
      [('update', 'modules/wpg04/include/wpg04/mpc_wpg.h'), ('QPObjective', 'core/include/humoto/qp_problem.h'), ('convertSecondToMillisecond', 'core/include/humoto/time.h')]),
    P('C27', 'The logger writes every entry once, in order, under its name, without data races',
      'Whatever the interleaving of the program with the writing thread, every entry logged before the logger is stopped, redirected or destroyed is written exactly once, in the order of the calls, and flushed before that ends, which it does. '
      'Members used on both sides are accessed under a common lock, messages are released once, a stream is replaced only while no thread runs, and each stream or file gets what is logged while it is current. '
      'An entry is `name = value;` in the syntax of Octave: parts of names are separated by points, indices count from one in braces, vectors, matrices and strings keep their form and values the data given to the call.',
      ['schedules', 'inputs', 'histories'], 'all interleavings of a few messages and the end with the synchronisation points of the thread, all types of logged data, and reinitializations of the logger',
      'Tests never compare logs of concurrent runs, and a lost last message or a race shows only for rare timings.',
      ['core/include/humoto/logger.h'],
      [('processQueue', 'core/include/humoto/logger.h'), ('formatAndOutputEntry', 'core/include/humoto/logger.h'), ('appendEntryName', 'core/include/humoto/logger.h')]),
    P('C28', 'The headers can be used from any number of translation units of a program',
      'A program may include the headers of the library in any number of its translation units, any number of times each, and be linked: every function and every variable which a header defines with external linkage is inline, a template or a constant. '
      'No variable exists once per translation unit and is changed by the library. '
      'Everything which the library calls, or forms a reference to, is defined.',
      ['programs'], 'all functions, variables, classes and headers of the library, its modules and its solver and configuration interfaces, and all references between them',
      'Each test is a program of one translation unit, where a second definition or a missing one in an unused path cannot show.',
      ['core/include/walking/stance_finite_state_machine.h', 'modules/wpg04/include/wpg04/preview_horizon.h', 'core/include/humoto/constants.h'],
      [('previewStances', 'core/include/walking/stance_finite_state_machine.h'), ('previewStates', 'modules/wpg04/include/wpg04/preview_horizon.h'), ('g_infinity', 'core/include/humoto/constants.h')]),
]
NA = []
