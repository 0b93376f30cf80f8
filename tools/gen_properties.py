#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the wording is reviewable in one place)."""
import json, os
BM = "safe_autonomy_dynamics/base_models.py"
DUB = "safe_autonomy_dynamics/dubins.py"
PT = "safe_autonomy_dynamics/cwh/point_model.py"
ROT = "safe_autonomy_dynamics/cwh/rotational_model.py"
SIX = "safe_autonomy_dynamics/cwh/sixdof_model.py"
SUN = "safe_autonomy_dynamics/cwh/sun_model.py"
INT = "safe_autonomy_dynamics/integrators.py"
UT = "safe_autonomy_dynamics/utils.py"
AB = "safe_autonomy_dynamics/external/aerobench/"
LL = AB + "lowlevel/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Commanded controls are saturated to actuator limits, with a truthful warning",
  "For every entity, a step taken with any action gives the same result as a step taken with that action clipped element by element into the entity's control limits, and actions inside the limits act exactly as given. "
  "A warning is issued on that step if and only if some commanded element lies outside its limit, whether the action was given as a name map, a list or an array. "
  "The caller's action object and the entity's default control and limits are never modified, and an action containing NaN is rejected with an error instead of reaching the dynamics.",
  ["inputs", "configurations", "histories"], "every entity kind, custom control limits, every action vector over {below, at, just inside, zero, just above, far above limit, inf, NaN} per actuator, every encoding, also after earlier steps",
  "Tests use a few scalar over-limit dict actions; they never check the warning, the encodings, mixed saturation of several actuators, or that the caller's objects survive.",
  [BM, DUB, ROT, SIX, PT, INT], [("control assembly and np.clip in BaseEntity.step", BM), ("control_min/control_max set by each entity constructor", DUB)],
  ["entity.state, entity.state_dot after step", "warnings emitted by step", "the action object after step"],
  [("control_min, control_max, control_default", "actuator limits and neutral command", BM)])

p("C02", "Named, list and array actions are equivalent; bad actions are rejected",
  "Every documented actuator name of an entity drives exactly its own control channel (thrust_x accelerates along x, and so on), different names drive different channels, and actuators not named keep their default command. "
  "Giving the same command as a name map in any key order, a list, a numpy array or (where jax is installed) a jax array gives the same step. "
  "An unknown actuator name raises KeyError and an unsupported action type raises ValueError; a list or array with more elements than the entity has actuators, and a value for a named actuator that is not a single number, raise an exception too. In all these cases the entity is left unchanged.",
  ["inputs", "configurations"], "every entity kind, every subset of actuator names in every order, values over a small alphabet, all encodings, invalid names and types in every position",
  "Tests drive single-key or full dict actions on a few entities; the integrator entities are never built and no encoding is ever compared with another.",
  [BM, DUB, ROT, SIX, PT, INT], [("control_map lookup in BaseEntity.step", BM), ("control_map literals of each entity", INT)],
  ["entity.state, entity.state_dot after step", "exceptions raised by step"], [("control_map", "actuator name to channel index", BM)])

p("C03", "Limited states never leave their limits after a step",
  "After every step, every state component that has a limit (Dubins speed, flight path angle and roll; rotational spacecraft angular rates; any user supplied bound on a dynamics model) lies within its configured limits, whatever the history of actions, step durations and integration method, and even when the state before the step was outside them. "
  "Components strictly inside their limits are not altered by the limiting.",
  ["inputs", "histories", "configurations"], "all action sequences over saturating alphabets up to a depth, from initial states inside, at and outside the limits, default and custom limits, step sizes from 1e-3 to 1e3 s, all integration methods",
  "Tests sample single constant-action runs to one limit at a time with 1 s steps and RK45 only.",
  [BM, DUB, ROT, SIX], [("np.clip with state_min/state_max in BaseDynamics.step", BM), ("limits built in the entity constructors", SIX)],
  ["entity.state and scalar accessors after each step"], [("state_min, state_max", "per component limits", BM)])

p("C04", "Angle wrapping yields the equivalent angle in the interval about its center",
  "After every step each wrapped state component lies within [center - pi, center + pi] of its configured wrap center and differs from the unwrapped value by an integer multiple of 2 pi; components without a wrap center are returned unwrapped. "
  "This holds for any center, for angles arbitrarily many turns away, and identically with the jax backend.",
  ["inputs", "configurations"], "every mask of wrapped components, centers over a finite set including 0, pi, -pi, 3 and values beyond one turn, angles on a grid including the seam and its neighbouring floats and +-100 turns, both backends, and entity histories crossing the seam",
  "The test suite normalises angles before comparing, so it cannot see an unwrapped or wrongly wrapped angle, and it never uses a non-zero center.",
  [BM, DUB, ROT], [("angle wrapping in BaseDynamics.step", BM)], ["next state returned by dynamics.step", "entity heading, gamma, roll, theta"],
  [("angle_wrap_centers", "NaN or center per state component", BM)])

p("C05", "State derivatives respect rate limits and never push past a state limit",
  "The state derivative a dynamics model reports lies within its derivative limits, has no component pointing outward where the state is at or beyond the corresponding limit, and is otherwise exactly the model's own derivative; in particular motion back into the limits is never blocked. "
  "The derivative reported with a completed step obeys the same rule at the returned state, for every integration method.",
  ["inputs", "configurations"], "every combination of {below, at, inside, at upper, above} per component times derivative sign times derivative-limit placement for small dimensions, scalar and vector limits, both backends, and all limited zoo models",
  "No test evaluates a state derivative; only integrated states of saturated runs are compared with loose bounds.",
  [BM, ROT, DUB], [("clipping in BaseODESolverDynamics.compute_state_dot", BM)], ["dynamics.compute_state_dot", "second result of dynamics.step"],
  [("state_dot_min, state_dot_max", "derivative limits", BM)])

p("C06", "A step is the model's flow over the whole duration",
  "With the default RK45 method (and RK45_JAX), a step of duration T from state x with a constant control returns, to solver tolerance, the solution at time T of the model's differential equation including its limits; one step of T and several steps adding up to T agree, and a zero length step changes nothing. "
  "With the Euler method a step is exactly one explicit Euler update x + T f(x, u) followed by limiting and wrapping. "
  "A negative duration (Euler, RK45) steps backwards by the same rules. In all cases the derivative reported with the step is the model derivative at the end of the step, and an unknown method name is rejected.",
  ["inputs", "configurations", "histories"], "every zoo dynamics model and user supplied linear and control affine models, durations from 1e-3 to 1e3 s, all small control and state alphabets, all splittings of a duration into parts",
  "Tests compare a handful of 1 s step runs with loose error bounds for RK45; Euler and RK45_JAX are not run by any reliable test.",
  [BM], [("numerical integration in BaseODESolverDynamics", BM)], ["dynamics.step return values", "entity.state, entity.state_dot"])

p("C07", "A step that fails leaves the entity untouched and usable",
  "If a step cannot be completed - the action is invalid, the model raises at any evaluation during integration, a warning has been turned into an error, or the solver cannot reach the end of the step - an exception is raised, and the entity's state and state derivative are exactly what they were before the step. (The RK45_JAX integrator runs traced code and cannot raise on values: a step past the end of the solution shows in a state or derivative that is not finite.) "
  "A later valid step then behaves as if the failed one had never been attempted; a step never silently returns a state for an earlier time.",
  ["fault_sequences", "inputs", "histories"], "a fault injected at every model evaluation of a step in turn, for every entity and method, every rejected action kind, values that are not finite returned at every evaluation, and finite-time blow-up models with the blow-up before, at and after the step end",
  "No test makes a step fail.",
  [BM], [("single assignment of state and derivative at the end of BaseEntity.step; solver status check", BM)], ["entity.state, entity.state_dot after an exception", "exceptions raised by step"])

p("C08", "Trajectory sampling is faithful and does not change the step",
  "When k > 0 trajectory samples are requested, after each RK45 step exactly k samples are stored at k equally spaced times ending at the step duration, each sample is the solution at its time (within the state limits), and the last sample is the state the step returned up to angle wrapping. "
  "The number of samples requested does not change the resulting state, and samples always belong to the most recent step; requesting samples from a method that cannot provide them is rejected.",
  ["inputs", "configurations", "histories"], "every entity that offers sampling, sample counts 0..12, durations and action sequences over a finite alphabet",
  "No test requests trajectory samples.",
  [BM, DUB, PT, ROT, SIX, INT], [("t_eval and trajectory storage in BaseODESolverDynamics", BM)], ["entity.dynamics.trajectory, entity.dynamics.trajectory_t", "entity.state"],
  [("trajectory, trajectory_t", "samples of the last step", BM)])

p("C09", "A step depends only on own state, action and duration",
  "Two entities with the same configuration and state that take the same action for the same duration end in exactly the same state, whatever either has done before and whatever other entities of any kind have been created, stepped, queried or reconfigured in between. "
  "Restoring a previously read state therefore replays the same future.",
  ["histories", "schedules"], "all interleavings of operation sequences on two or three entities (same and different kinds, same and different configurations) up to a depth, and breadth first over reached states with a restore-and-replay differential at each state",
  "Each test builds one entity, runs one action sequence and compares the end point; nothing is interleaved or replayed.",
  [BM, DUB, PT, ROT, SIX, SUN, INT], [("no state outside the entity's own state vector", BM)], ["entity.state, entity.state_dot"])

p("C10", "Entity state is private: no aliasing through arguments or results",
  "Arrays returned by an entity's state, position, velocity, orientation and angular velocity accessors are snapshots: writing into them never changes the entity, and later steps never change them. The derivative and the trajectory samples read after a step are not changed by later steps either. "
  "Arrays given to an entity or a dynamics model (initial or assigned state, action, step arguments, system and inertia matrices) are copied in: the library never writes to them, and writing to them afterwards never changes the entity.",
  ["histories", "inputs"], "every entity kind, every array-valued accessor and argument, every order of read / write-into-copy / step up to a depth",
  "No test writes into a returned or passed array.",
  [BM, PT, ROT, SIX, DUB, INT], [("copies in the state property, setter and array accessors", BM)], ["all accessors after writes into returned or passed arrays"])

p("C11", "Entities stepped from different threads do not interfere",
  "Stepping different entities, of the same or different kinds, concurrently from different threads gives each entity exactly the state it would have reached alone, for every interleaving of the threads.",
  ["schedules"], "all schedules of two threads with at most two preemptions at source line granularity inside the library, over entity pairs sharing a class, a module or the base machinery",
  "Tests are single threaded.",
  [BM, DUB, PT, ROT, SIX, INT, SUN], [("no mutable module or class level state", BM)], ["entity.state, entity.state_dot, trajectory after both threads finish"])

p("C12", "Point mass spacecraft follow Clohessy-Wiltshire dynamics",
  "The translational derivative of the point mass spacecraft, and of the system matrices offered in 2d and 3d, is xdd = 3 n^2 x + 2 n yd + Fx/m, ydd = -2 n xd + Fy/m, zdd = -n^2 z + Fz/m for any mass and mean motion, with positions driven by velocities. "
  "Stepped trajectories agree with the closed form Clohessy-Wiltshire solution for constant thrust, and the map from state and thrust to next state is linear.",
  ["inputs", "configurations", "histories"], "all states and thrusts over basis vectors and pairs, several masses and mean motions, both modes, step sizes up to a full orbit, action sequences up to a depth",
  "Tests check a few endpoint values near the origin with default mass and mean motion.",
  [PT], [("generate_cwh_matrices", PT), ("linear dynamics", BM)], ["generate_cwh_matrices results", "entity.dynamics.compute_state_dot", "entity.state"])

p("C13", "Planar rotating spacecraft: Clohessy-Wiltshire motion with body-fixed thrust",
  "The planar rotating spacecraft's translation obeys the in-plane Clohessy-Wiltshire equations with the thrust vector rotated from the body frame by its heading angle, and its rotation obeys thetad = wz, wzd = moment / inertia, for any mass, inertia and mean motion. "
  "Its moment limit, angular acceleration limit and angular rate limit are the smaller of the configured limit and what the reaction wheel can deliver.",
  ["inputs", "configurations"], "all states over a grid (including headings in all quadrants and rates at the limit), all controls over basis vectors and pairs, several masses, inertias, wheel parameters, both backends",
  "The test file of this entity does not collect on the installed Python, so none of this is tested.",
  [ROT], [("state transition functions and limit derivation of the planar rotating spacecraft", ROT)], ["entity.dynamics.compute_state_dot", "entity.control_min, entity.control_max", "entity.state"])

p("C14", "Six degree of freedom translation: Clohessy-Wiltshire with framed thrust",
  "The six degree of freedom spacecraft's translation obeys the three dimensional Clohessy-Wiltshire equations with specific thrust F/m, where F is rotated from the body frame to Hill's frame by the attitude quaternion when body frame thrust is selected, and applied directly otherwise. "
  "For a unit quaternion the thrust acceleration has magnitude |F|/m and its direction agrees with the entity's reported orientation; rotation never affects translation in any other way.",
  ["inputs", "configurations"], "all 24 cube rotations and a grid of generic unit quaternions with both signs, all thrusts over basis vectors and pairs, both frames, several masses and mean motions, with and without angular rates",
  "Tests cover a few single axis rotations with default parameters.",
  [SIX], [("state transition functions and quaternion rotation of the six degree of freedom model", SIX)], ["entity.dynamics.compute_state_dot", "entity.orientation", "entity.state"])

p("C15", "Six degree of freedom attitude: quaternion kinematics and rigid body rates",
  "The attitude quaternion (scalar last, body to Hill) evolves by half the quaternion product with the body angular rate, keeping unit norm, and the body rates obey Euler's equations for the configured principal inertias with the commanded moments. "
  "Without moments the rotational kinetic energy and the inertial angular momentum are conserved to solver tolerance, and per-axis moment, acceleration and rate limits are the smaller of the configured value (one number, a list or an array) and what the reaction wheels can deliver.",
  ["inputs", "configurations", "histories"], "all attitudes and rates over finite sets, spherical, axisymmetric and triaxial inertias, all moments over basis vectors and pairs, limit specifications in every accepted form, histories up to a depth",
  "Tests use only the default spherical inertia, so gyroscopic terms and per-axis limits are never exercised.",
  [SIX, UT], [("state transition functions of the six degree of freedom model", SIX), ("limit conversion", UT)], ["entity.dynamics.compute_state_dot", "entity.control_max", "entity.state, entity.quaternion, entity.angular_velocity"])

p("C16", "2D Dubins aircraft kinematics",
  "The planar Dubins aircraft moves with velocity (v cos heading, v sin heading), its heading and speed change at exactly the commanded (saturated) heading rate and acceleration, and its position, velocity, acceleration and orientation accessors agree with that motion at all times and speeds, including zero speed. "
  "Stepped trajectories agree with the closed form arc or straight line.",
  ["inputs", "histories", "configurations"], "headings in all quadrants and at the seam, speeds inside and at the limits, all control combinations, step sizes 0.01 to 100 s, action sequences up to a depth, custom limits",
  "Tests compare end points of a few constant action runs.",
  [DUB], [("2d Dubins state transition functions and accessors", DUB)], ["entity.dynamics.compute_state_dot", "entity.state, entity.velocity, entity.acceleration, entity.orientation"])

p("C17", "3D Dubins aircraft kinematics",
  "The 3D Dubins aircraft moves with velocity v (cos heading cos gamma, sin heading cos gamma, -sin gamma), turns at (g / v) tan roll with g = 32.17 ft/s^2, and its flight path angle, roll and speed change at exactly the commanded (saturated) rates. "
  "Its velocity, acceleration and orientation accessors agree with that motion: the nose axis of the orientation is the direction of velocity, and acceleration is the speed rate along it.",
  ["inputs", "histories", "configurations"], "a grid over heading, gamma, roll and speed including signs, zero and limits, all control combinations, step sizes, action sequences up to a depth, custom limits",
  "Tests compare end points of a few constant action runs, mostly with zero roll or a constant level turn.",
  [DUB], [("3d Dubins state transition functions and accessors", DUB)], ["entity.dynamics.compute_state_dot", "entity.state, entity.velocity, entity.acceleration, entity.orientation"])

p("C18", "Point mass integrators are damped double integrators in 1, 2 and 3 dimensions",
  "The 1d, 2d and 3d point mass integrator entities can be built and stepped, and each axis independently obeys xdd = F/m - damping * xd with its own thrust, for any mass and damping; stepped trajectories agree with the closed form solution. "
  "Their position, velocity, component and orientation accessors report that state.",
  ["inputs", "configurations", "histories"], "all dimensions, masses and dampings, basis and pair states and thrusts, step sizes, action sequences up to a depth",
  "The test suite does not touch the integrators module at all.",
  [INT], [("generate_dynamics_matrices", INT), ("integrator entities", INT)], ["entity.state and accessors", "generate_dynamics_matrices", "entity.dynamics.compute_state_dot"])

p("C19", "The sun angle advances at the mean motion",
  "The sun entity's angle increases at exactly the configured mean motion whatever the step durations, integration method or backend, starting from its configured angle, independently of how a duration is split into steps.",
  ["inputs", "configurations", "histories"], "several mean motions, initial angles, all step duration sequences over an alphabet up to a depth, all methods and both backends",
  "The only sun tests compare two entities for equality.",
  [SUN], [("sun dynamics", SUN)], ["entity.theta, entity.state, entity.state_dot"])

p("C20", "Configuration quantities are converted to base units or rejected",
  "An entity built with initial values given as quantities in any compatible unit has the same state as one built with the equivalent plain numbers in base units; every named initial value lands in its own state component and unspecified ones take their documented defaults. "
  "A quantity of the wrong dimension, a missing name, or an unknown parameter is rejected when the entity is built.",
  ["inputs", "configurations"], "every entity kind, every initial value parameter, every unit in a list of compatible and incompatible units, every subset of parameters specified, unknown parameters",
  "Tests use one or two mixed unit constructions per entity and one wrong-dimension value against the validator function.",
  [BM, DUB, PT, ROT, SIX, SUN, INT], [("unit conversion validators and pydantic config models", BM)], ["entity.state after construction", "exceptions at construction"])

p("C21", "Unit tagged accessors report the same quantity as the plain ones",
  "For every entity, each accessor that returns a quantity with units has the same magnitude as its plain counterpart in the entity's base units (feet, seconds and radians for aircraft; meters, seconds and radians otherwise), with the correct dimension, at every reachable state, and converting it to other units follows the exact conversion factor; quantities of different entities, and of the application's unit registry, combine with one another.",
  ["inputs", "histories", "configurations"], "every entity kind, every unit tagged accessor, at every state reached by breadth first exploration of actions",
  "Tests never read a unit tagged accessor.",
  [BM, DUB, PT, ROT, SIX], [("*_with_units properties and BaseUnits", BM)], ["*_with_units and *_with_unit accessors"])

p("C22", "Observables agree with the state vector and with each other",
  "At every reachable state of every entity, scalar components, position, velocity, angular velocity, orientation and quaternion accessors describe the same state: vectors are made of the scalar components, the orientation is a proper rotation consistent with the angles or quaternion (scalar last), unused axes read zero, and component setters change exactly the component they name. "
  "The reported velocity equals the rate of change of the reported position.",
  ["inputs", "histories"], "every entity kind, every accessor and setter, at every state reached by breadth first exploration and from a grid of assigned states",
  "Tests look at a few attributes at the end of single runs; setters, quaternion/orientation consistency and zero axes are never read.",
  [BM, DUB, PT, ROT, SIX, INT], [("accessor properties of each entity", DUB)], ["all accessors and setters"])

p("C23", "Entity equality is exact state equality within a kind",
  "For vehicle entities, equality is reflexive and symmetric, holds whenever two entities of the same kind have identical configuration and history, fails whenever any kinematic observable (position, velocity, attitude, angular rate, and for aircraft speed and angles) differs, and fails for entities of different kinds or other objects. "
  "Comparison never modifies either entity.",
  ["inputs", "histories"], "all ordered pairs over a set of states that differ in exactly one component (by a small and a large amount) or in kind, before and after equal and different steps",
  "Tests compare about two dozen hand-picked pairs and skip several components and all integrators.",
  [DUB, PT, ROT, SIX, INT], [("__eq__ of each entity", DUB)], ["== between entities"])

p("C24", "Relative position and velocity between spacecraft",
  "A spacecraft's relative position and velocity with respect to a named entity of the registered simulation are that entity's current position and velocity minus its own, so they are antisymmetric, additive over a third entity, zero with respect to itself, and always reflect the current states and the currently registered simulation; unknown names are rejected.",
  ["inputs", "histories", "configurations"], "all ordered pairs and triples of spacecraft kinds and states over a finite set, interleaved with steps, simulation replacement and renaming",
  "Tests check six fixed pairs once, before any step.",
  [PT, ROT, SIX], [("entity_relative_position / entity_relative_velocity / set_sim", PT)], ["entity_relative_position, entity_relative_velocity"])

p("C25", "The jax backend computes the same dynamics as numpy",
  "For every model that offers the jax backend, derivatives and steps computed with jax equal those computed with numpy to single precision (or solver tolerance for different integrators), including limiting, wrapping and saturation, with and without just-in-time compilation of the derivative. "
  "Requesting the jax integrator without the jax backend is rejected.",
  ["inputs", "configurations", "histories"], "all jax capable models, methods, states and controls over finite grids including limits and seams, action sequences up to a depth",
  "The only jax tests are in the file that does not collect on the installed Python.",
  [BM, ROT, SUN, PT, INT], [("backend selection in BaseDynamics, RK45_JAX branch", BM)], ["dynamics.compute_state_dot, dynamics.compute_state_dot_jax, dynamics.step, entity.state"])

p("C26", "F-16 aerodynamic tables interpolate the published data",
  "Each tabulated F-16 aerodynamic coefficient equals the published table value at every breakpoint and the linear (or bilinear) interpolation between neighbouring breakpoints elsewhere, is continuous, extrapolates linearly from the boundary cell outside the table, and is odd in sideslip where the lateral symmetry requires it. "
  "The polynomial (Morelli) coefficients equal the published polynomials of angle of attack, sideslip, surface deflections and normalised rates, with angles and deflections saturated at the model's validity limits.",
  ["inputs"], "every cell of every table at a sub-grid including all breakpoints, boundaries and both neighbouring floats, plus the extrapolation bands; for the polynomial model a full tensor grid with more points per variable than its degree, plus saturation bands",
  "The aerobench package has no tests.",
  [LL + f for f in ("cl.py", "cm.py", "cn.py", "cx.py", "cy.py", "cz.py", "dampp.py", "dlda.py", "dldr.py", "dnda.py", "dndr.py", "morellif16.py")] + [AB + "util.py"],
  [("table lookups and polynomial model", LL + "cx.py")], ["the coefficient functions' return values"])

p("C27", "F-16 atmosphere and engine model",
  "Mach number and dynamic pressure follow the Stevens and Lewis atmosphere in both altitude regimes, throttle gearing and engine lag follow their published piecewise definitions, and thrust is the bilinear interpolation of the idle, military and maximum tables blended by power level, continuous in power at 50 percent. "
  "Along any throttle history the engine power moves towards the commanded power, never overshooting it, and stays within 0 to 100.",
  ["inputs", "histories"], "every cell of the thrust tables and every piece of each piecewise function at sub-grids including both sides of each breakpoint; all throttle sequences over an alphabet up to a depth on the power lag",
  "The aerobench package has no tests.",
  [LL + f for f in ("adc.py", "tgear.py", "pdot.py", "rtau.py", "thrust.py")], [("engine and air data functions", LL + "thrust.py")], ["adc, tgear, pdot, rtau, thrust results"])

p("C28", "F-16 equations of motion",
  "The F-16 state derivative is the rigid body six degree of freedom motion of Stevens and Lewis driven by the selected aerodynamic model (tables or polynomial), engine and damping derivatives, for every state and surface command; navigation rates have the magnitude of the airspeed. "
  "Position and heading do not influence any derivative except through the navigation rates' direction, the input state and control are not modified, and invalid model names or vector sizes are rejected.",
  ["inputs", "configurations"], "a full grid over airspeed, angles, rates, altitude, power and all four controls for both models and both lateral accelerometer options, against an independent vector/quaternion free formulation",
  "The aerobench package has no tests.",
  [LL + "subf16_model.py"], [("subf16_model", LL + "subf16_model.py")], ["subf16_model results"])

p("C29", "F-16 low level controller and closed loop derivative",
  "The low level controller's surface and throttle commands are the fixed LQR feedback on the deviation from trim plus trim, each saturated to its actuator limits, and its integrator derivatives are the tracking errors in normal load, stability roll rate (taken about the angle of attack relative to trim) and side force plus yaw rate; the alternative integrator definition of the reference model takes the roll and yaw terms from the airframe's derivatives. "
  "The closed loop derivative combines them with the airframe derivative consistently (sixteen states, angles reported in radians), without modifying its inputs or any controller data, so repeated and interleaved use gives identical results.",
  ["inputs", "configurations", "histories"], "a grid over all feedback states and references reaching every saturation combination, both aerodynamic models, both integrator definitions, and all interleavings of calls on two controllers up to a depth",
  "The aerobench package has no tests.",
  [LL + "low_level_controller.py", AB + "controlled_f16.py"], [("LowLevelController, controlled_f16", LL + "low_level_controller.py")], ["get_u_deg, get_integrator_derivatives, controlled_f16 results"],
  [("K_lqr, xequil, uequil, ctrlLimits", "controller data", LL + "low_level_controller.py")])

p("C30", "F-16 trim constraints and trim cost",
  "For each flight condition (level, climb, coordinated turn, pull up) the trim constraint function sets exactly the documented states (attitude, body rates and engine power) from the condition's parameters, and the trim cost is the documented weighted sum of squared derivative residuals at the constrained point, square-rooted below one. "
  "With the table model, the published trim points (Stevens and Lewis nominal condition and the controller's own equilibrium) give near-zero residual derivatives.",
  ["inputs", "configurations"], "all four conditions, both optimisation vector lengths, grids over trim variables and condition parameters, both aerodynamic models",
  "The aerobench package has no tests.",
  [LL + "clf16.py", LL + "conf16.py"], [("conf16, clf16", LL + "clf16.py")], ["conf16 and clf16 results, the modified state and control vectors"])

p("C31", "Fixed step Euler integrator reaches its end time exactly",
  "The fixed step Euler integrator visits start, start + step, ... and finishes exactly at the end time (shortening or absorbing only the last step within its time tolerance), each update is current state plus elapsed time times the derivative at the step's start, and after finishing further steps change nothing. "
  "A dense output obtained after a step interpolates linearly between the two ends of that step, also after further steps; invalid steps or intervals are rejected and the caller's initial state is never modified.",
  ["inputs", "histories"], "all combinations of start, step and end over a finite set including exact multiples, near multiples on both sides of the tolerance, and steps longer than the interval; all interleavings of step and dense output calls to completion",
  "The aerobench package has no tests.",
  [AB + "util.py"], [("Euler", AB + "util.py")], ["Euler.t, Euler.y, Euler.status, dense_output results"], [("t, y, tprev, yprev, status", "integration progress", AB + "util.py")])

p("C32", "Safety verification accepts exactly the histories within all limits",
  "Verifying a simulation history succeeds if and only if at every tick altitude, normal load, airspeed and angle of attack lie within their specified closed intervals the magnitude of sideslip, in degrees, does not exceed its maximum and neither does the stability roll rate; limits that are not specified (left out or None) are ignored, values that are not numbers are within no limit. "
  "This holds for histories with and without low level controller states, whatever tick and whichever limit is violated, and each verification judges the history and limits as they are then, whatever was verified before.",
  ["histories", "inputs", "configurations"], "all histories up to four ticks where every tick is safe or violates any one limit on either side, for every subset of specified limits, with and without controller states, and values exactly on the limits",
  "The aerobench package has no tests.",
  [AB + "util.py"], [("SafetyLimits, SafetyLimitsVerifier", AB + "util.py")], ["verify raising or returning"])

p("C33", "F-16 utilities: result extraction, frozen attributes, rounding",
  "Extracting one aircraft from a multi-aircraft result returns exactly that aircraft's columns and per-aircraft lists and leaves the input unchanged; a single-aircraft result is returned as it is. "
  "A frozen object rejects every new attribute while its existing ones stay assignable; rounding towards zero and sign agree with their mathematical definitions for every finite float. A printed matrix shows the label, column labels, row labels and entries it was given, and the state names and state indices are those of the 13 states in model order.",
  ["inputs", "histories"], "all result layouts with 1 to 4 aircraft, every index and optional key set, every order of attribute writes before and after freezing, and all floats on a grid with neighbours of integers",
  "The aerobench package has no tests.",
  [AB + "util.py"], [("extract_single_result, Freezable, fix, sign", AB + "util.py")], ["return values and exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
