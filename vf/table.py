"""The properties: what is claimed, where it is anchored, which monitored workloads decide it."""
PROPS = [
    dict(id="C01", title="QP solutions satisfy every hard constraint, infeasible problems raise",
         statement="Whenever solving a problem returns, the returned values are finite and satisfy every hard equality and hard "
                   "inequality of the problem, and each variable's value is its slice of the solution. When the hard constraints "
                   "contradict each other, solving raises an error instead of returning a point.",
         quant="all convex problems (numerically well-conditioned objective), variable layouts, declaration orders and solver options",
         why="problem_test.py solves a dozen hand-written problems; feasibility over arbitrary mixes of hard/soft "
             "equalities/inequalities, variable sizes and options is a statement about all inputs",
         files=["src/placo/problem/problem.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/qp_error.cpp"],
         mech=[("Problem::solve", "src/placo/problem/problem.cpp"), ("QR rewriting of equalities", "src/placo/problem/problem.cpp")],
         modules=["qp"], families=["qp_hard", "qp_infeasible", "qp_limits"],
         require_events=["hard_equality_rows", "hard_inequality_rows_active", "errors_raised"],
         rule="random problems with a known feasible point (or a planted contradiction); a case is non-trivial when it holds at "
              "least one constraint; distinct by rounded data",
         assume=["scope: the QP Hessian (with slacks) has eigenvalues >= 1e-4 and condition <= 1e6; below that the third-party "
                 "dual active-set solver gives no guarantee (see DESIGN.md)"]),
    dict(id="C02", title="QP solutions minimize the documented objective whatever the options",
         statement="A returned solution minimizes regularization*|x|^2 plus the weighted squared residuals of soft equalities and the "
                   "weighted squared violations of soft inequalities, subject to the hard constraints. The optimum does not depend on "
                   "declaration order, on equality rewriting, nor on sparsity detection.",
         quant="all well-conditioned convex problems, weights, option combinations and declaration orders",
         why="tests check a few known optima with default options; optimality is a for-all over problems and option combinations",
         files=["src/placo/problem/problem.cpp", "src/placo/problem/sparsity.cpp"],
         mech=[("objective assembly with sparsity", "src/placo/problem/problem.cpp"),
               ("slack variables of soft inequalities", "src/placo/problem/problem.cpp")],
         modules=["qp"], families=["qp_optimal", "qp_invariance", "qp_limits"],
         require_events=["kkt_certificates", "option_combinations"],
         rule="random problems; the oracle checks a KKT certificate (nnls) of the documented objective, and equality of the optimum "
              "over all option combinations and shuffled orders"),
    dict(id="C03", title="A reused problem behaves like a fresh one",
         statement="After any history of adding, clearing, reconfiguring, solving and failing, the next solution, variable values, "
                   "counters, slacks and active flags are those of a freshly built identical problem. Active flags and slacks "
                   "describe the returned solution: soft inequality slacks are the positive part of the expression, and inactive hard "
                   "inequalities are never flagged active.",
         over=["histories", "inputs"], quant="all histories of add/clear/configure/solve, including failed solves in between",
         why="tests build each problem once; history independence quantifies over operation sequences",
         files=["src/placo/problem/problem.cpp", "src/placo/problem/variable.cpp"],
         mech=[("clear_constraints / clear_variables / solve bookkeeping", "src/placo/problem/problem.cpp")],
         modules=["qp"], families=["qp_histories", "qp_optimal"], require_events=["history_solves", "failed_solves", "active_flags"],
         rule="random histories of 3-8 steps on one problem object, each solve compared with a fresh twin"),
    dict(id="C04", title="Expression arithmetic is exact affine algebra",
         statement="Evaluating any combination of sums, differences, scalings, products, stackings, slices, sums and means of "
                   "expressions gives the same combination of the evaluated operands, in double precision, without modifying operands. "
                   "Operations on inconsistent sizes raise an error.",
         quant="all expression trees over variables, constants, vectors and matrices, all decision values",
         why="tests evaluate a handful of two-operand expressions",
         files=["src/placo/problem/expression.cpp", "src/placo/problem/variable.cpp", "bindings/expose-problem.cpp"],
         mech=[("Expression operators", "src/placo/problem/expression.cpp")],
         modules=["expr", "ext"], ext=["problem"], families=["expr_algebra", "expr_misuse", "x_operators"], require_events=["errors_raised"],
         rule="random expression trees of 3-13 operations, each evaluated at a random point against dense numpy algebra"),
    dict(id="C05", title="Relations and polygon constraints denote the stated set",
         statement="A constraint built from a <=, >= or == b is satisfied exactly by the points where the relation holds row by row, "
                   "whatever the operand types and order. An in-polygon constraint is satisfied exactly by the points at least `margin` "
                   "inside the clockwise polygon, and solving with it returns the closest such point to a soft target.",
         quant="all relations, operand types and orders; all convex clockwise polygons, margins and points",
         why="tests use a square and a few relations",
         files=["src/placo/problem/expression.cpp", "src/placo/problem/polygon_constraint.cpp", "src/placo/problem/sparsity.cpp"],
         mech=[("comparison operators", "src/placo/problem/expression.cpp"), ("in_polygon_xy", "src/placo/problem/polygon_constraint.cpp"),
               ("column intervals", "src/placo/problem/sparsity.cpp")],
         modules=["expr", "ext"], ext=["problem"], families=["expr_relations", "expr_polygon", "expr_sparsity", "x_operators"],
         require_events=["relations_solved", "points_inside", "points_outside"],
         rule="random relations/polygons/interval sets, judged on random points and through a solve"),
    dict(id="C06", title="Integrator expressions and values follow the integrated system exactly",
         statement="For a decision variable integrated through a linear system, the expressions at any step or time of the horizon, the "
                   "value at any time (clamped outside the horizon) and the detached trajectory all equal the exact simulation of the "
                   "system from its initial state under the solved piecewise-constant input. They follow re-solves and start-time changes, while "
                   "detached trajectories never change.",
         over=["inputs", "histories"], quant="all orders, system matrices, step counts, initial states (also symbolic), times and re-solve histories",
         why="tests check three integrators at grid points",
         files=["src/placo/problem/integrator.cpp", "src/placo/problem/problem_polynom.cpp"],
         mech=[("transition matrices, powers", "src/placo/problem/integrator.cpp"), ("version cache", "src/placo/problem/integrator.cpp")],
         modules=["integ"], families=["int_integrator", "int_misuse"], require_events=["instants_compared"],
         rule="random systems simulated with scipy expm and compared at every step and random instants, over two solves"),
    dict(id="C07", title="LIPM quantities obey inverted pendulum dynamics and chain continuously",
         statement="Position, velocity, acceleration, jerk, DCM and ZMP (and its derivative) given by a LIPM, as expressions and as "
                   "trajectories, satisfy the linear inverted pendulum relations of the solved jerk at every step and time. A LIPM "
                   "built from a previous one continues it without discontinuity.",
         quant="all horizons, time steps, heights, initial states and solved jerks",
         why="lipm_test.py checks one problem", files=["src/placo/humanoid/lipm.cpp", "src/placo/problem/integrator.cpp"],
         mech=[("LIPM expressions and trajectories", "src/placo/humanoid/lipm.cpp")],
         modules=["integ"], families=["int_lipm"], require_events=["chained", "instants_compared"],
         rule="random LIPM problems (70% chained), compared with an independent simulation"),
    dict(id="C08", title="Splines and polynomials interpolate their data smoothly",
         statement="A cubic spline passes through its points with the requested speeds, is the Hermite cubic in between, is clamped "
                   "outside, and is unaffected by queries or clears made before; angular splines take the short way. Polynomials and "
                   "polynomial problems evaluate values and derivatives exactly.",
         over=["inputs", "histories"], quant="all knot sequences, angles, query times, coefficients and derivative orders",
         why="tests check a few knots", files=["src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp",
                                              "src/placo/tools/polynom.cpp", "src/placo/problem/problem_polynom.cpp"],
         mech=[("CubicSpline", "src/placo/tools/cubic_spline.cpp"), ("Polynom", "src/placo/tools/polynom.cpp")],
         modules=["tools", "integ"], families=["tool_spline", "tool_spline_angular", "tool_spline3d", "int_polynom"],
         require_events=["instants_compared"],
         rule="random knots compared with scipy's CubicHermiteSpline, random polynomials with numpy"),
    dict(id="C09", title="Geometry helpers return exact, proper transformations",
         statement="Angle wrapping, yaw extraction, floor flattening, frame interpolation, axis rotations, axis masks, direction sets "
                   "and segment predicates return the mathematically defined result for every input, including degenerate ones "
                   "(parallel, opposite, planar). Fitted transformations are proper rigid motions minimizing the squared distance.",
         quant="all angles, frames, vectors, point clouds, masks and segments",
         why="tests sample a few values", files=["src/placo/tools/utils.cpp", "src/placo/tools/segment.cpp",
                                                "src/placo/tools/axises_mask.cpp", "src/placo/tools/directions.cpp"],
         mech=[("utils", "src/placo/tools/utils.cpp"), ("Segment", "src/placo/tools/segment.cpp")],
         modules=["tools", "ext"], ext=["robot"], families=["x_tools", "tool_angles", "tool_interpolate", "tool_axis_rotation", "tool_optimal_transformation",
                                      "tool_mask", "tool_directions", "tool_segment"],
         require_events=["crossing", "not_crossing", "parallel"],
         rule="random and degenerate inputs, judged by closed-form numpy oracles"),
    dict(id="C10", title="Robot state, frames and centre of mass follow the model exactly",
         statement="Joint, velocity, acceleration and limit accessors read and write exactly the named joint; unknown names raise. "
                   "Frame poses, relative poses and the centre of mass equal forward kinematics of the current state, placing a frame "
                   "or the floating base puts it exactly there without moving joints, and integration advances the state by the model's "
                   "velocity and acceleration. A model loaded from a file, a directory or its content gives the same robot.",
         over=["inputs", "histories"], quant="all robot trees, states, setter histories and frames",
         why="robot_wrapper_test.py checks one robot and a few poses",
         files=["src/placo/model/robot_wrapper.cpp"],
         mech=[("joint accessors", "src/placo/model/robot_wrapper.cpp"), ("set_T_world_frame", "src/placo/model/robot_wrapper.cpp"),
               ("integrate", "src/placo/model/robot_wrapper.cpp")],
         modules=["robot"], families=["rb_state", "rb_urdf_limits", "rb_frames", "rb_integrate", "rb_load"],
         require_events=["setter_events", "errors_raised", "integration_steps", "robot_random_tree", "robot_sigmaban"],
         rule="random URDF trees (revolute, prismatic, fixed) and the two repository robots in random states, against a pinocchio twin"),
    dict(id="C11", title="Jacobians and their variations are true derivatives",
         statement="Frame, joint, CoM and relative-position Jacobians in every reference frame map velocities to the actual motion of "
                   "the frame or point; their time variations and frame hessians are the derivatives of these Jacobians along the motion "
                   "or along one joint.",
         quant="all robot trees, states, velocities, frames and reference frames", why="no test differentiates a Jacobian",
         files=["src/placo/model/robot_wrapper.cpp"], mech=[("Jacobian queries", "src/placo/model/robot_wrapper.cpp")],
         modules=["robot", "ext"], ext=["robot"], families=["rb_jacobian", "rb_jacobian_dot", "x_robot"], require_events=["jacobians_compared"],
         rule="central finite differences on a pinocchio twin"),
    dict(id="C12", title="Mass, momentum, gravity and static torques are physically consistent",
         statement="Mass matrix (with rotor inertias), centroidal map, gravity and non-linear effects agree with energy, momentum and "
                   "potential of the bodies. Static gravity compensation and fixed-frame torques balance the equation of motion with a "
                   "wrench at the given frame only.",
         quant="all robot trees, states, velocities, gravities, rotor settings and frames", why="no test checks dynamic quantities beyond a sample",
         files=["src/placo/model/robot_wrapper.cpp"],
         mech=[("static_gravity_compensation_torques", "src/placo/model/robot_wrapper.cpp"),
               ("torques_from_acceleration_with_fixed_frame", "src/placo/model/robot_wrapper.cpp")],
         modules=["robot"], families=["rb_dynamics"], rule="energies and momenta summed body by body on a pinocchio twin"),
    dict(id="C13", title="Self-collision queries report exactly the declared pairs",
         statement="Distances and self-collision queries measure exactly the configured pairs (all pairs of different joints by default, "
                   "those of the model's pair file by names or indices, or none when ignored), report a collision iff the geometries intersect, with right distance, "
                   "nearest points and bodies; unknown bodies or files raise.",
         quant="all robot trees, states and pair files", why="tests use one model without collisions",
         files=["src/placo/model/robot_wrapper.cpp"], mech=[("self_collisions, distances, load_collision_pairs", "src/placo/model/robot_wrapper.cpp")],
         modules=["robot"], families=["rb_collisions", "rb_load"], require_events=["colliding_pairs", "free_pairs", "pair_files_loaded"],
         rule="random trees of spheres, against closed-form distances"),
    dict(id="C14", title="IK steps respect limits and masks, impossible requests raise",
         statement="Every displacement returned by the kinematics solver keeps enabled joint and velocity limits, leaves masked DoFs and "
                   "a masked floating base still, and reaches hard tasks exactly. Contradictory hard requests (tasks, masks, limits, "
                   "velocity limits without a time step) raise and leave the robot untouched.",
         over=["inputs", "configurations"], quant="all robots, states, task sets, limits and masks",
         why="the single kinematics test only adds and removes tasks, it never solves",
         files=["src/placo/kinematics/kinematics_solver.cpp"],
         mech=[("compute_limits_inequalities, masked DoFs", "src/placo/kinematics/kinematics_solver.cpp")],
         modules=["kin"], families=["ik_solve", "ik_infeasible", "ik_histories"],
         require_events=["hard_inequality_rows_active", "hard_equality_rows", "errors_raised"],
         rule="random robots (URDF trees, quadruped, humanoid), states and task sets with a known feasible displacement"),
    dict(id="C15", title="IK tasks state the true error and its derivative, and converge",
         statement="Each kinematics task reports the documented error of the robot's current state and the derivative of the controlled "
                   "quantity, along the axes of its mask, and follows its target and the state. Iterating on targets that a nearby "
                   "configuration reaches drives every task error to zero.",
         quant="all robots, states, frames, targets and masks", why="no test evaluates a task",
         files=["src/placo/kinematics/position_task.cpp", "src/placo/kinematics/orientation_task.cpp",
                "src/placo/kinematics/relative_position_task.cpp", "src/placo/kinematics/relative_orientation_task.cpp",
                "src/placo/kinematics/axis_align_task.cpp", "src/placo/kinematics/com_task.cpp", "src/placo/kinematics/joints_task.cpp",
                "src/placo/kinematics/gear_task.cpp", "src/placo/kinematics/wheel_task.cpp", "src/placo/kinematics/distance_task.cpp",
                "src/placo/kinematics/manipulability_task.cpp", "src/placo/kinematics/centroidal_momentum_task.cpp",
                "src/placo/kinematics/regularization_task.cpp", "src/placo/kinematics/kinetic_energy_regularization_task.cpp",
                "src/placo/tools/axises_mask.cpp"],
         mech=[("Task::update", "src/placo/kinematics/task.h")],
         modules=["kin"], families=["ik_task_rows", "ik_converge"],
         require_events=["task_Position", "task_Wheel", "task_Manip", "task_Gear", "converged_runs"],
         rule="every task type on random robots, against a pinocchio twin; closed-loop runs towards reachable targets"),
    dict(id="C16", title="IK steps optimize exactly the weighted tasks that were requested",
         statement="The returned displacement minimizes the weighted squared residuals of the soft tasks and soft constraint violations "
                   "under the hard ones; scaled tasks are met up to one common factor in [0, 1] that is as close to 1 as the weights allow. "
                   "Applying a solution integrates exactly this displacement (and its velocity and acceleration when a time step is set); "
                   "solving without applying changes nothing.",
         quant="all robots, states, mixes of priorities and weights", why="no test solves an inverse kinematics problem",
         files=["src/placo/kinematics/kinematics_solver.cpp", "src/placo/tools/prioritized.cpp", "src/placo/problem/problem.cpp"],
         mech=[("KinematicsSolver::solve", "src/placo/kinematics/kinematics_solver.cpp")],
         modules=["kin"], families=["ik_solve", "ik_histories"],
         require_events=["kkt_certificates", "scale_reduced", "scale_saturated", "soft_tasks", "hard_tasks"],
         rule="KKT certificate of the documented problem, rebuilt from a pinocchio twin"),
    dict(id="C17", title="Hard geometric constraints hold along motions and never bite when inactive",
         statement="CoM polygon (position or DCM, with margin), cone, yaw, distance, joint half-space and self-collision constraints bound "
                   "the documented quantity to first order at each step, so a motion that starts inside stays inside up to the "
                   "linearization error. While they are not binding they do not change the solution.",
         over=["inputs", "histories"], quant="all robots, states, constraint parameters and motions pushing against them",
         why="no test uses a constraint", files=["src/placo/kinematics/com_polygon_constraint.cpp", "src/placo/kinematics/cone_constraint.cpp",
                "src/placo/kinematics/yaw_constraint.cpp", "src/placo/kinematics/distance_constraint.cpp",
                "src/placo/kinematics/joint_space_half_spaces_constraint.cpp", "src/placo/kinematics/avoid_self_collisions_constraint.cpp"],
         mech=[("Constraint::add_constraint", "src/placo/kinematics/constraint.h")],
         modules=["kin"], families=["ik_constraints", "ik_avoid", "ik_solve"],
         require_events=["binding_com", "binding_cone", "binding_yaw", "binding_distance", "binding_half", "avoid_active_rows"],
         rule="closed-loop motions of 20-100 steps pushing against one constraint; self collisions of spheres in closed form"),
    dict(id="C18", title="A reused IK solver behaves like a fresh one",
         statement="After any history of adding, removing, reconfiguring and retargeting tasks and constraints, masking, toggling limits, "
                   "clearing and failing, the next solution is the one of a freshly configured solver, and the number of tasks is right.",
         over=["histories"], quant="all histories of solver operations", why="the only test adds and removes two tasks",
         files=["src/placo/kinematics/kinematics_solver.cpp", "src/placo/kinematics/frame_task.cpp",
                "src/placo/kinematics/relative_frame_task.cpp"],
         mech=[("add/remove/clear/mask bookkeeping", "src/placo/kinematics/kinematics_solver.cpp")],
         modules=["kin"], families=["ik_histories"], require_events=["history_solves", "failed_solves", "frame_tasks"],
         rule="random histories of 8-25 operations, each solve compared with a fresh solver"),
    dict(id="C19", title="Inverse dynamics solutions obey the equation of motion",
         statement="Every successful solve returns accelerations, torques and contact forces that satisfy the equation of motion of the "
                   "robot (gravity, Coriolis, rotor inertia, damping, extra force and every active contact), with zero torque on a free "
                   "floating base. The result minimizes the requested weighted costs under the hard "
                   "tasks, contacts and limits.",
         quant="all robots, states, velocities, contact sets, task mixes and weights", why="the tests solve two fixed scenes",
         files=["src/placo/dynamics/dynamics_solver.cpp", "src/placo/dynamics/contacts.cpp", "src/placo/model/robot_wrapper.cpp",
                "src/placo/problem/problem.cpp"],
         mech=[("DynamicsSolver::solve", "src/placo/dynamics/dynamics_solver.cpp")],
         modules=["dyn"], families=["id_solve", "id_infeasible", "id_histories"],
         require_events=["motion_equations", "rotor_inertias", "kkt_certificates", "soft_tasks", "hard_tasks", "active_inequalities_at_optimum"],
         rule="random problems; equation of motion recomputed by a pinocchio twin, KKT certificate of the documented problem"),
    dict(id="C20", title="Contact wrenches stay in their cones and act where declared",
         statement="Point, planar, line, external and puppet contacts only yield wrenches that are unilateral, inside the friction cone and "
                   "whose center of pressure stays inside the contact surface, and they act on the declared frame. Inactive contacts "
                   "exert nothing, and force, moment and tangential costs weigh exactly the documented components.",
         quant="all robots, states, contact types, friction, sizes, weights and activations", why="tests only stand on flat feet",
         files=["src/placo/dynamics/contacts.cpp", "src/placo/dynamics/dynamics_solver.cpp"],
         mech=[("Contact::add_wrench / add_constraints", "src/placo/dynamics/contacts.cpp")],
         modules=["dyn"], families=["id_solve", "id_histories", "id_loop"],
         require_events=["contact_Point", "contact_Planar", "contact_Line", "contact_External", "contact_Puppet", "contact_TaskContact",
                         "hard_inequality_rows_active", "held_frames"],
         rule="random contact sets on random robots; the wrench is rebuilt from the documented variables by a pinocchio twin"),
    dict(id="C21", title="Dynamics tasks ask for the documented acceleration",
         statement="Each dynamics task reports the documented position and velocity errors and requests target acceleration + kp*error + "
                   "kd*velocity error for its quantity, drift included, along its mask, with critical damping when kd is negative. It "
                   "follows every change of target, gain and state.",
         quant="all robots, states, velocities, frames, targets, gains and masks", why="no test evaluates a dynamics task",
         files=["src/placo/dynamics/position_task.cpp", "src/placo/dynamics/orientation_task.cpp", "src/placo/dynamics/com_task.cpp",
                "src/placo/dynamics/relative_position_task.cpp", "src/placo/dynamics/relative_orientation_task.cpp",
                "src/placo/dynamics/joints_task.cpp", "src/placo/dynamics/gear_task.cpp", "src/placo/dynamics/torque_task.cpp",
                "src/placo/dynamics/task.cpp"],
         mech=[("Task::update", "src/placo/dynamics/task.h")],
         modules=["dyn"], families=["id_task_rows", "id_loop", "id_solve"],
         require_events=["task_Position", "task_CoM", "task_Orientation", "task_RelPosition", "task_RelOrientation", "task_Joints", "task_Gear",
                         "task_Torque", "damped_runs"],
         rule="every task type on random moving robots; A and b recomputed by a pinocchio twin, and closed loops"),
    dict(id="C22", title="Inverse dynamics limits and collision avoidance bound the motion",
         statement="Enabled joint, velocity and torque limits hold in each solution and along simulated motions up to the time step, and "
                   "self-collision avoidance lets no pair close in faster than it can brake before the margin. Disabled or non-binding "
                   "limits do not change the solution.",
         over=["inputs", "histories"], quant="all robots, states, limit values and toggles", why="no test enables a limit",
         files=["src/placo/dynamics/dynamics_solver.cpp", "src/placo/dynamics/avoid_self_collisions_constraint.cpp"],
         mech=[("DynamicsSolver::compute_limits_inequalities", "src/placo/dynamics/dynamics_solver.cpp")],
         modules=["dyn"], families=["id_loop", "id_avoid", "id_solve"],
         require_events=["limit_steps", "avoid_exact", "avoid_active_rows", "hard_inequality_rows_active"],
         rule="random problems with limits, closed loops pushing beyond joint limits, sphere pairs in closed form"),
    dict(id="C23", title="A reused dynamics solver behaves like a fresh one and fails cleanly",
         statement="After any history of adding, removing, (de)activating and reconfiguring tasks and contacts, toggling limits, clearing "
                   "and failing, the next solution is the one of a freshly configured solver. Infeasible or misused problems report "
                   "failure or raise without moving the robot; successful integration applies exactly the returned acceleration.",
         over=["histories", "inputs"], quant="all histories of solver operations, infeasible problems and misuses",
         why="tests build each solver once",
         files=["src/placo/dynamics/dynamics_solver.cpp", "src/placo/dynamics/contacts.cpp", "bindings/expose-dynamics.cpp"],
         mech=[("add/remove/clear/mask bookkeeping", "src/placo/dynamics/dynamics_solver.cpp")],
         modules=["dyn"], families=["id_histories", "id_infeasible", "id_misuse"],
         require_events=["history_solves", "failed_solves", "errors_raised"],
         rule="random histories of 6-18 operations, each solve judged against the oracle of the current configuration"),
    dict(id="C24", title="Footstep planning stays within limits and reaches its goal",
         statement="Planned footsteps alternate sides, each step stays within the step limits and never overlaps the support foot, and "
                   "the planner reaches its goal when unconstrained. Supports built from footsteps start and end as "
                   "requested, keep every foot still between two supports holding it, and have exactly the documented polygons and frames.",
         quant="all parameter sets, goals, starting sides, footstep sequences and truncations",
         why="footsteps tests plan a few fixed goals with one parameter set",
         files=["src/placo/humanoid/footsteps_planner.cpp", "src/placo/humanoid/footsteps_planner_naive.cpp",
                "src/placo/humanoid/footsteps_planner_repetitive.cpp", "src/placo/humanoid/humanoid_parameters.cpp"],
         mech=[("FootstepsPlanner::make_supports", "src/placo/humanoid/footsteps_planner.cpp"),
               ("FootstepsPlannerNaive::plan_impl", "src/placo/humanoid/footsteps_planner_naive.cpp"),
               ("HumanoidParameters::footstep_clipping", "src/placo/humanoid/humanoid_parameters.cpp")],
         modules=["humanoid", "ext"], ext=["walk"], families=["x_clipping", "fs_polygon", "fs_overlap", "fs_support", "fs_frames", "fs_clip", "fs_repetitive", "fs_naive",
                                         "fs_supports"],
         require_events=["polygons_compared", "inside", "outside", "overlapping", "apart", "clipped", "plans", "steps", "supports",
                         "truncations", "errors_raised"],
         rule="random parameters, footstep sequences and goals; polygons and overlaps recomputed by independent planar geometry"),
    dict(id="C25", title="Swing foot trajectories lift off, clear and land as specified",
         statement="A swing trajectory starts and lands exactly at the given positions with zero velocity, reaches and holds the "
                   "requested height in between, never goes below the floor, and its velocity is the derivative of its position. "
                   "Retargeting during the flight keeps position and velocity continuous and lands on the new target.",
         quant="all start times, durations, heights, plateau ratios, end points and retargeting instants",
         why="no test evaluates a swing trajectory", files=["src/placo/humanoid/swing_foot.cpp", "src/placo/humanoid/swing_foot_cubic.cpp",
                "src/placo/humanoid/swing_foot_quintic.cpp"],
         mech=[("SwingFoot::make_trajectory / remake_trajectory", "src/placo/humanoid/swing_foot.cpp"),
               ("SwingFootCubic::make_trajectory", "src/placo/humanoid/swing_foot_cubic.cpp")],
         modules=["humanoid"], families=["swing_cubic", "swing_poly", "swing_quintic"],
         require_events=["instants_compared", "retargets"],
         rule="random trajectories, sampled against closed-form splines and boundary conditions"),
    dict(id="C26", title="A planned walk is balanced, continuous and follows its supports",
         statement="In a planned walk the ZMP stays in the support polygon with its margin at every time step, the CoM trajectory is the "
                   "optimal jerk-integrated one, starts at the given CoM and stops over the last support, and an impossible plan raises. "
                   "Feet stay on their footsteps while supporting and swing between them, trunk yaw follows the feet, and every query "
                   "(phases, supports, DCM, ZMP, support-frame quantities) is consistent, also after any planar transform.",
         quant="all parameters, support sequences, initial CoM, planning times, query instants and transforms",
         why="wpg tests check a couple of walks at sampled times", files=["src/placo/humanoid/walk_pattern_generator.cpp",
                "src/placo/humanoid/lipm.cpp", "src/placo/humanoid/kick.cpp"],
         mech=[("WalkPatternGenerator::plan", "src/placo/humanoid/walk_pattern_generator.cpp"),
               ("constrain_lipm", "src/placo/humanoid/walk_pattern_generator.cpp"), ("LIPM", "src/placo/humanoid/lipm.cpp")],
         modules=["humanoid", "ext"], ext=["walk"], families=["wpg_plan", "wpg_infeasible", "wpg_transform", "x_trajectory"],
         require_events=["zmp_checked", "zmp_on_border", "kkt_certificates", "swing_foot_instants", "support_foot_instants",
                         "phase_queries", "soft_plans", "errors_raised"],
         rule="random walks; the jerks are read back and the whole problem restated independently (integration, ZMP rows, KKT)"),
    dict(id="C27", title="Replanning a walk is continuous and falls back safely",
         statement="Replanning keeps the current support and the landing time, and the new trajectory continues the old one in CoM, feet and "
                   "trunk position and velocity while satisfying everything a planned walk does; when it cannot succeed, the old motion "
                   "continues unchanged. DCM-based support updates return the optimal landing point and ZMP of the documented problem.",
         over=["inputs", "histories"], quant="all histories of replans at arbitrary instants, transforms and DCM measurements",
         why="tests replan at most at fixed instants", files=["src/placo/humanoid/walk_pattern_generator.cpp"],
         mech=[("WalkPatternGenerator::replan / replan_supports", "src/placo/humanoid/walk_pattern_generator.cpp"),
               ("update_supports / get_optimal_zmp", "src/placo/humanoid/walk_pattern_generator.cpp")],
         modules=["humanoid"], families=["wpg_replan", "wpg_optimal_zmp", "wpg_update"],
         require_events=["replans", "replan_fallbacks", "reachable_dcm", "clamped_zmp", "updates_optimal"],
         rule="random walks replanned 1-3 times at random instants, judged like planned walks plus continuity"),
    dict(id="C28", title="Humanoid support bookkeeping keeps the support where it is",
         statement="Switching support never moves the robot; placing the robot on the floor or from an IMU keeps the support foot position "
                   "and the requested orientation; CoM velocity, DCM, ZMP and torques from foot pressures follow from the kinematics of "
                   "the named support; aiming the camera at a point puts it on the optical axis.",
         over=["inputs", "histories"], quant="all histories of support switches, floor/IMU updates and joint moves",
         why="humanoid_wrapper_test.py checks a couple of calls", files=["src/placo/humanoid/humanoid_robot.cpp"],
         mech=[("update_support_side / ensure_on_floor / update_from_imu", "src/placo/humanoid/humanoid_robot.cpp")],
         modules=["robot", "ext"], ext=["walk"], families=["rb_humanoid", "x_camera"], require_events=["humanoid_op0", "humanoid_op1", "humanoid_op2", "humanoid_op4"],
         rule="random histories on the repository's humanoid (with added pressure frames)"),
    dict(id="C29", title="Walk tasks and dummy walk drive the robot along the requested steps",
         statement="Walk tasks always hold the targets of the trajectory (with CoM offsets, CoM delay and DCM error feedback, in either trunk or CoM mode), report the "
                   "matching errors, own exactly their own tasks of the solver, and raise when used uninitialized; following a planned "
                   "walk with them keeps support feet still and brings the feet onto the planned footsteps. The dummy walk alternates "
                   "supports, bounds its steps like the planner, tracks swing, support and trunk poses, and relocates rigidly.",
         over=["inputs", "histories"], quant="all histories of initialization, updates, mode changes, removals and steps; all reachable walks",
         why="no test uses walk tasks or the dummy walk", files=["src/placo/humanoid/walk_tasks.cpp", "src/placo/humanoid/dummy_walk.cpp",
                "bindings/expose-walk-pattern-generator.cpp"],
         mech=[("WalkTasks::update_tasks / reach_initial_pose", "src/placo/humanoid/walk_tasks.cpp"),
               ("DummyWalk::update / next_step", "src/placo/humanoid/dummy_walk.cpp")],
         modules=["walk", "ext"], ext=["walk"], families=["wt_targets", "wt_walk", "dummy_walk", "x_walk_tasks"], scale=dict(quick=3.0),
         require_events=["walk_targets_checked", "trajectory_updates", "initial_poses", "walks_followed", "dummy_instants", "dummy_steps",
                         "support_updates", "errors_raised"],
         rule="random histories on the repository's humanoid; complete closed-loop walks (initial pose, plan, inverse kinematics)"),
    dict(id="C30", title="Objects keep working whatever else is dropped, in any order",
         statement="Any object obtained from Python (robots, solvers, tasks, problems, variables, expressions, trajectories, supports, "
                   "properties of all of them) keeps giving the same values whatever other objects are deleted and collected, and "
                   "deleting objects in any order is harmless. Tasks given to a solver live as long as it does, and a task owned by "
                   "another solver is refused.",
         over=["histories"], quant="all creation, derivation, use, deletion and garbage collection orders",
         why="tests keep every object alive until the end", files=["bindings/expose-kinematics.cpp", "bindings/expose-dynamics.cpp",
                "bindings/expose-problem.cpp", "bindings/expose-walk-pattern-generator.cpp", "bindings/expose-footsteps.cpp",
                "bindings/expose-robot-wrapper.cpp", "bindings/expose-tools.cpp"],
         mech=[("call policies", "bindings/expose-kinematics.cpp"), ("call policies", "bindings/expose-problem.cpp"),
               ("solver memory ownership", "src/placo/kinematics/kinematics_solver.cpp")],
         modules=["memory"], san_quick=True, families=["mem_lifetime", "mem_walk_lifetime"],
         technique="runtime monitoring: randomized object histories on the real module, with a hostile allocator (freed memory is "
                   "overwritten), and on an ASan+UBSan build",
         require_events=["objects_used", "objects_dropped", "derived_objects", "user_tasks", "used_ktask", "used_traj", "used_integ"],
         rule="random histories of creating, deriving, dropping and using objects of every class"),
    dict(id="C31", title="No use of the API corrupts memory or crashes the process",
         statement="Every call of the API returns a value or raises an exception: it never reads or writes outside of its objects, uses "
                   "uninitialized or freed memory, overflows or crashes, and it always terminates. This covers the workloads of all the "
                   "other properties and arbitrary argument values (sizes, indices, names, signs) of every bound function. (Objects that were "
                   "removed from their owner, and references into a support that changed or moved since, are not used.)",
         over=["inputs", "histories"], quant="all bound functions and properties, argument values and object states (see DESIGN.md for the exclusions)",
         why="tests run neither under sanitizers nor with unexpected arguments", files=["src/placo/problem/problem.cpp",
                "src/placo/model/robot_wrapper.cpp", "src/placo/kinematics/kinematics_solver.cpp", "src/placo/dynamics/dynamics_solver.cpp",
                "src/placo/humanoid/walk_pattern_generator.cpp", "src/placo/tools/polynom.cpp"],
         mech=[("bound and size checks", "src/placo/problem/expression.cpp"), ("matrix blocks", "src/placo/dynamics/dynamics_solver.cpp")],
         modules=["qp", "expr", "integ", "tools", "robot", "kin", "dyn", "humanoid", "walk", "memory", "ext", "fuzz"], san_only=True,
         ext=["walk", "problem", "robot"], crash_only=True,
         scale=dict(quick=0.7), technique="sanitizers: AddressSanitizer, UBSan and Eigen/std assertions on the library, driven by the "
                   "workloads of every property and an API fuzzer",
         require_events=["api_calls", "api_errors", "objects_used", "kkt_certificates", "zmp_checked", "motion_equations"],
         rule="all workloads of the other properties at a reduced scale, plus random sequences of calls over all members found by "
              "introspection of the module"),
    dict(id="C32", title="Memory use stays bounded when work is repeated",
         statement="Building, using and dropping robots, solvers, tasks, problems, planners and trajectories over and over does not hold "
                   "more and more memory, whatever succeeded or failed in between, and neither does repeating any call that stores "
                   "nothing, even when it raises.",
         over=["histories", "inputs"], quant="all repeated create/use/drop cycles and repeated calls",
         why="a leak is invisible to functional tests", files=["src/placo/model/robot_wrapper.h", "src/placo/problem/problem.cpp",
                "src/placo/kinematics/kinematics_solver.cpp", "src/placo/dynamics/dynamics_solver.cpp", "bindings/expose-eigen.cpp"],
         mech=[("clear / destructors", "src/placo/kinematics/kinematics_solver.cpp"), ("destructor", "src/placo/problem/problem.cpp")],
         modules=["leak"], families=["mem_leak", "mem_leak_calls"], san_thorough=False,
         technique="runtime monitoring: allocator statistics (glibc in-use bytes, Python blocks) over repeated windows",
         require_events=["leak_windows", "leak_repetitions", "repeated_members"],
         rule="six workloads repeated in windows, and each member of the API repeated in bursts; a leak grows in every window"),
    dict(id="C33", title="Results never depend on uninitialized memory",
         statement="No value that the library returns, branch that it takes or index that it uses depends on memory that was not "
                   "initialized: objects are complete as soon as they are constructed, and functions that are called before the ones "
                   "that prepare their data (solve, configure, update) raise or work from documented defaults. Nothing is read or "
                   "written outside of the allocated memory either.",
         over=["inputs", "histories"], quant="all bound functions and properties, argument values and object states",
         why="uninitialized memory happens to be zero in most test runs", files=["src/placo/humanoid/walk_tasks.h",
                "src/placo/humanoid/footsteps_planner_repetitive.h", "src/placo/kinematics/kinematics_solver.h",
                "src/placo/dynamics/contacts.h", "src/placo/humanoid/swing_foot_cubic.cpp", "src/placo/problem/integrator.cpp"],
         mech=[("default member values", "src/placo/humanoid/humanoid_parameters.h"),
               ("trajectory construction", "src/placo/humanoid/walk_pattern_generator.cpp")],
         modules=["qp", "expr", "integ", "tools", "robot", "kin", "dyn", "humanoid", "walk", "memory", "ext", "fuzz"],
         ext=["walk", "problem", "robot"], memcheck=dict(quick=3, thorough=60, api_fuzz=16), crash_only=True, san_thorough=False,
         technique="runtime monitoring: valgrind memcheck on the release build (definedness of every bit), Python instances constructed "
                   "over undefined memory, driven by the workloads of every property and an API fuzzer that inspects what it gets",
         require_events=["memcheck_cases", "api_calls", "values_inspected"],
         rule="a few cases of each workload of the other properties, and random sequences of calls over all members"),
    dict(id="C34", title="Settings are kept as written and queries change nothing",
         statement="Writing an attribute of any object (solvers, tasks, constraints, contacts, parameters, supports, footsteps, walk tasks, "
                   "tools) makes it read back as that value and changes no other attribute of this or any other object. Asking a query "
                   "of a robot, solver, task, problem, integrator, spline, trajectory or support any number of times, with any other "
                   "queries in between, always gives the same answer, and values that were returned earlier do not change.",
         over=["inputs", "histories"], quant="all attributes, written values, orders of writes; all sequences of queries of an unchanged object",
         why="tests write and read the few attributes they use, once, in one order", files=["bindings/expose-kinematics.cpp",
                "bindings/expose-dynamics.cpp", "bindings/expose-parameters.cpp", "bindings/expose-footsteps.cpp", "src/placo/model/robot_wrapper.cpp",
                "src/placo/tools/cubic_spline.cpp", "src/placo/problem/integrator.cpp", "src/placo/humanoid/walk_pattern_generator.cpp"],
         mech=[("attributes of the Python classes", "bindings"), ("lazily computed polygons, splines and matrices", "src/placo")],
         modules=["attrs"], require_events=["attributes_written", "queries_repeated", "arrays_kept"],
         rule="random writes over pools of up to 21 live objects, every attribute of all of them compared with a model after each write; "
              "random sequences of queries (3 times their number) compared with the first answers"),
]
NOT_APPLICABLE = []
