#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

EL, EOM, INT, LY, SY, CV, PT, TR, Q, PL, PH = ["pyqlaw/_%s.py" % s for s in
   ("elements","eom","integrate","lyapunov","symbolic","convergence","perturbations","transformations","qlaw","plot_methods","plot_helper")]

prop("C01", "Every element-set conversion path describes the same physical orbit",
 "For every elliptic orbit, converting among Keplerian elements, modified equinoctial elements (with semilatus rectum or with semimajor axis) and Cartesian position/velocity, along any path of public conversions and back, gives the same physical position and velocity and the same elements up to whole turns of angle. This includes circular and equatorial orbits given in equinoctial elements, any quadrant of node, periapsis and anomaly, zero-valued angles, and any gravitational parameter.",
 ["inputs"], "all elliptic orbits (0<=e<1, 0<=i<pi), all angles and turns, mu>0, all composition paths of the conversions",
 "The tests convert four near-identical GTO element sets; they never visit equatorial, circular, retrograde or other-quadrant orbits nor mixed paths.",
 [EL, TR], [("kep2sv/sv2kep", EL), ("kep2mee/mee2kep and the semimajor-axis variants", EL), ("rotation matrices", TR)],
 ["return values of the public conversion functions"])

prop("C02", "Orbital elements extracted from a Cartesian state are the defined ones",
 "For every non-rectilinear two-body state, elliptic or hyperbolic, the semimajor axis, eccentricity vector, inclination, node, argument of periapsis, true anomaly and period computed from position and velocity equal their textbook definitions (energy, angular momentum, eccentricity vector) wherever these are defined, are finite, and lie in the right quadrant. This includes states whose periapsis lies on the node line and exactly equatorial prograde orbits.",
 ["inputs"], "all Cartesian states with non-zero angular momentum, e != 1, mu>0",
 "The tests evaluate three elliptic prograde states with the same shape; arccos edge cases, hyperbolae and other quadrants are never reached.",
 [EL], [("get_* extraction functions and sv2kep", EL)], ["return values of the public extraction functions"])

prop("C03", "Anomaly, angle-wrapping and orbit-sampling helpers are geometrically exact",
 "For every elliptic orbit the true-to-eccentric anomaly conversions (from Keplerian or equinoctial input) satisfy r = a(1-e cos E) in the same half-plane as the true anomaly, whatever number of turns the angle carries; angle wrapping returns an equivalent angle in [-pi, pi]; orbit sampling returns the requested number of states, all on the given orbit, covering one full revolution in equal true-anomaly steps; and the elementary rotation matrices are the proper frame rotations about their axes.",
 ["inputs"], "all e in [0,1), all anomalies with any number of turns, all orbits, all sample counts",
 "One anomaly and one orbit sample are tested; angle wrapping is only exercised inside a plot whose data nobody checks.",
 [EL, TR], [("ta2ea, mee2ea, get_orbit_coordinates", EL), ("wrap", TR)], ["return values of the helpers"])

prop("C04", "Equations of motion equal the true derivative of the osculating elements",
 "For every elliptic orbit and every acceleration expressed in the radial-tangential-normal frame (thrust plus perturbation), the time derivative given by the Keplerian, equinoctial and semimajor-axis-equinoctial equations of motion equals the derivative of the osculating elements of a body moving under two-body gravity plus that acceleration, in all quadrants of periapsis, node and anomaly and for any gravitational parameter.",
 ["inputs"], "all non-singular elliptic states of each element set, all acceleration vectors, mu>0",
 "The EOM tests compare one state per element set, and their assertion (all(abs(diff)) <= tol) is true for almost any value.",
 [EOM, SY], [("eom_*_gauss", EOM), ("Gauss coefficient columns of the symbolic law", SY)], ["doe/dt returned by each EOM fed with the law's coefficient columns"])

prop("C05", "The Lyapunov function and its gradient are the documented Q and dQ/d(element)",
 "For every non-singular state, target, weight set and parameter set, the returned Q equals the documented weighted, penalised quadratic distance (periapsis penalty, semimajor-axis scaling, maximum element rates, shortest angular distance), is non-negative and vanishes exactly when all weighted elements are at target; the returned gradient is its exact derivative. All functions generated by one symbolic derivation (with or without common-subexpression elimination) agree with each other.",
 ["inputs", "configurations"], "all non-singular elliptic states, targets (including elements equal to target), weights >= 0 and law parameters of both element sets",
 "No test looks at the value of Q or of its gradient; the symbolic test only calls the generators.",
 [SY, LY], [("symbolic_qlaw_keplerian / symbolic_qlaw_mee_with_a", SY)], ["outputs of the generated functions"])

prop("C06", "The commanded thrust direction is the steepest-descent direction of Q",
 "For every state where the Q-gradient can be influenced by thrust, the control law returns finite angles and a unit vector, angles and vector agree, and flying the commanded angles yields the lowest dQ/dt attainable by any thrust direction; the reported Q rate is the magnitude of that minimum and agrees with the separately generated rate function. This includes purely radial, tangential or out-of-plane commands, any thrust magnitude and thrust-sign (backward propagation).",
 ["inputs"], "all non-singular states/targets/weights of both element sets, all non-zero raw control vectors",
 "One raw vector is converted to angles without an assertion; optimality over directions is never checked.",
 [LY, SY], [("raw vector to unit vector and angles", LY), ("rate evaluation", LY)], ["angles, vector, rate returned by the control law"])

prop("C07", "Runge-Kutta steps have their order and a faithful error-controlled step proposal",
 "For every smooth right-hand side, state size, parameter, start time and positive or negative step, one step of the fixed integrator and of the embedded integrator reproduces the exact solution with local error of fifth order in the step (fourth-order methods) and evaluates time-dependent right-hand sides at the right times. The embedded method's proposed next step keeps the sign and scales with the fourth root of tolerance over the true local error estimate, shrinking when the error is above tolerance and growing when below.",
 ["inputs"], "all smooth ODEs, autonomous or not, any dimension, any step size and sign, any tolerance",
 "One step at h=0.01 is compared between the integrators with tolerances that hide a wrong tableau.",
 [INT], [("rk4", INT), ("rkf45", INT)], ["returned next state and proposed step for analytic ODEs"])

prop("C08", "Every recorded step of a solve is flown as recorded",
 "In every solve, the command recorded for a step is the law's command at the recorded state with acceleration thrust/current mass, and the next recorded state is the previous one integrated over the recorded time difference under two-body motion, plus that acceleration when the recorded throttle is one, plus perturbations; with throttle zero and no perturbation the slow elements do not move and the anomaly follows Kepler's motion. The Lyapunov value and rate recorded for a step are those of its starting state, in both element sets, both integrators, and forward or backward propagation.",
 ["inputs", "configurations", "histories"], "all transfers, element sets, integrators, step modes, throttle patterns and time directions",
 "Tests only look at the final converge flag of a few transfers; a wrong step can still converge.",
 [Q, EOM, INT, LY], [("propagation loop", Q)], ["times, states, masses, controls, Qs, dQdts histories and user callbacks"],
 state=[("states/times/masses/controls", "recorded trajectory", Q)])

prop("C09", "Recorded histories are aligned and the time grid is the requested one",
 "In every solve, all histories have matching lengths (one entry per node or one per step), start from the given initial condition at time zero, contain finite values while the motion is finite, and time advances strictly in the direction of the step. Every step lasts exactly the requested step (or the requested anomaly step, or is shortened only to stop at the battery floor), and propagation stops at the first node at or beyond the allotted time, never later.",
 ["inputs", "configurations"], "all problems, integrators, step modes and signs, time limits, battery and duty settings",
 "No test inspects the histories' lengths or spacing.",
 [Q], [("history storage and step selection", Q)], ["lengths and contents of every history after solve"])

prop("C10", "Sundman stepping advances the eccentric anomaly by the requested angle",
 "With anomaly stepping enabled, every unshortened step lasts exactly the Keplerian time for the eccentric anomaly of the osculating orbit to advance (or, for negative steps, recede) by the requested angle, so a coasting spacecraft gains exactly that angle per step. This holds at every anomaly including across periapsis, apoapsis and revolution boundaries, in both element sets and for any gravitational parameter.",
 ["inputs", "configurations"], "all elliptic orbits and anomalies, all step angles of either sign, both element sets, mu>0",
 "The Sundman tests only check that a forward transfer converges, which does not depend on the step lengths being right.",
 [Q, EL], [("anomaly-step to time-step conversion", Q), ("ta2ea, mee2ea", EL)], ["differences of recorded times against recorded states"])

prop("C11", "Propellant accounting is exact and depletion stops the solve",
 "In every solve the mass drops by mass-flow rate times step duration on exactly the steps whose recorded throttle is one and is unchanged on all others (rising when propagating backward), so total mass change equals flow rate times total thrusting time. Thrust acceleration always uses the current mass, and a solve that has not reached its target ends with the mass-depleted status at the first node after the start whose mass is at or below the minimum.",
 ["inputs", "histories"], "all problems, throttle patterns, integrators, step modes and time directions",
 "One depletion run checks only the exit code; consumption against thrust arcs is never compared.",
 [Q], [("mass update and minimum-mass test", Q)], ["masses, controls, times histories and exit code"],
 state=[("masses", "mass at each node", Q)])

prop("C12", "The reported outcome is truthful and reported at the first opportunity",
 "Before the first solve the status is 0 and the converged flag unset. After every solve the converged flag is set exactly for the two success statuses; status 1 means the final state and no earlier one is within tolerance of every weighted element, status 2 means exactly the configured number of nodes have been within the relaxed tolerance, -1 the mass minimum was hit, -2 the time ran out, -3 the law produced more undefined commands than allowed. The printed summary reports that status, flag, final state, time and mass.",
 ["inputs", "configurations", "histories"], "all problems, tolerances, relaxation settings, weights, nan thresholds and time limits",
 "Three of the five outcomes are never produced by a test and none is checked against the trajectory.",
 [Q, CV], [("convergence, relaxed, mass, nan and time tests of the loop", Q)], ["exit code, flag, histories, stdout of the summaries"])

prop("C13", "Duty cycles are respected: no thrust in OFF windows",
 "With a duty cycle (ON time, OFF time), in either time direction, thrusting is possible only inside ON windows: an ON window ends at the first step starting more than the ON time after it began, an OFF window ends at the first step starting more than the OFF time after it began, and the windows alternate starting with ON at time zero. No step inside an OFF window has throttle one or consumes propellant, and inside ON windows the cycle never inhibits thrust.",
 ["inputs", "configurations", "histories"], "all ON/OFF durations, step sizes and modes, time directions, combined with coasting and battery limits",
 "One example runs with a duty cycle and asserts nothing.",
 [Q], [("duty-cycle state machine", Q)], ["controls and times histories"],
 state=[("duty flag, last ON/OFF times", "window state machine", Q)])

prop("C14", "Battery energy is conserved and thrust is impossible without charge",
 "In forward propagation the battery level always stays within its capacity bounds, falls by discharge rate times step duration on steps with the thruster enabled and rises by charge rate times step duration on the others, clipped only at the upper bound, never at the floor: a step that would cross the floor is shortened to end on it. No step thrusts from the floor, and when full recharge is required no step thrusts after reaching the floor until the battery has been full.",
 ["inputs", "configurations", "histories"], "all capacities, rates, initial levels (including at the bounds), recharge rules, integrators, step modes and duty cycles",
 "One transfer with a battery checks only convergence.",
 [Q], [("battery state machine and step shortening", Q)], ["battery, controls, times histories, callback arguments"],
 state=[("battery level, charging flag", "energy store", Q)])

prop("C15", "Coasting happens exactly when effectivity is below the thresholds",
 "On every step with thrust enabled and a positive threshold, the recorded absolute and relative effectivities equal the current best Q-rate relative to the best, respectively to the best-worst range, over equally spaced anomalies of the osculating orbit (so they lie in [0,1], in both time directions), and throttle is zero exactly when either is below its threshold. Thresholds given as functions are called with the step's current time, state, mass and battery, their values are recorded, and a function returning a constant acts like that constant.",
 ["inputs", "configurations"], "all states, thresholds in [0,1], grid sizes, constant or callable thresholds, both element sets and directions",
 "Tests use thresholds but check only convergence; backward and callable argument values are never examined.",
 [Q, LY], [("effectivity evaluation and throttle decision", Q)], ["etas, etas_bounds, controls histories; threshold callback arguments"])

prop("C16", "Solving is a pure function of the problem",
 "The outcome and all histories of a solve depend only on the law settings and the problem last set: repeating a solve, solving other problems before it on the same object, an exception raised by a user callback in an earlier solve, other solver objects, and verbosity or print frequency change nothing. Neither setting nor solving a problem modifies the caller's arrays.",
 ["histories", "configurations", "fault_sequences"], "all sequences of set/solve/failed solve/export/plot calls over one or several objects, all verbosity settings",
 "Tests build one object per transfer and solve it once.",
 [Q, CV], [("per-solve initialisation", Q), ("element clipping", CV)], ["histories, exit code and flag across call sequences; caller's arrays"],
 state=[("exit code, converged flag, histories", "per-solve results kept on the object", Q)])

prop("C17", "Perturbation accelerations equal the physics they model",
 "For all geometries, epochs and units, the oblateness acceleration is the gradient of the J2 potential in the body's principal axes, third-body acceleration equals direct minus indirect attraction without cancellation error, solar pressure is anti-sunward with inverse-square magnitude, and the radial-tangential-normal transformation is the right-handed orthonormal frame of the orbit. The combined model is their sum for the enabled terms and listed bodies at the ephemeris time of the query, expressed in the orbital frame, for both element sets.",
 ["inputs", "configurations"], "all spacecraft and body positions, frames, epochs, unit scalings and term selections (none, some, all)",
 "The only tests touching perturbations need unavailable SPICE kernels, so nothing is exercised.",
 [PT], [("perturbation_third_body_battin, perturbation_J2, perturbation_SRP, pxformECI2RTN", PT), ("SpicePerturbations", PT)], ["returned acceleration vectors"])

prop("C18", "Perturbations act on the propagation exactly once per step as given",
 "With a perturbation model attached, every step queries it exactly once with the step's start time, start state and element set, and the returned radial-tangential-normal acceleration acts over that step in addition to thrust, whether thrusting or coasting, in both element sets, both integrators and both time directions. A model returning zero leaves the solve identical to having none, and perturbations never change commands, mass or battery bookkeeping other than through the state.",
 ["inputs", "configurations", "fault_sequences"], "all perturbation sequences (including injected impulses), element sets, integrators, throttle patterns",
 "No runnable test attaches a perturbation model.",
 [Q, EOM, PT], [("perturbation query and EOM forcing", Q)], ["calls received by an attached model; histories"])

prop("C19", "Cartesian and interpolated histories are the recorded trajectory",
 "The Cartesian history has one column per node equal to the physical position and velocity of the recorded elements; the interpolated one spans exactly the first to last node time with the requested number of evenly spaced samples (by default about one per 0.01 time units, 2 to 8000, in either direction of time), and interpolants pass through every recorded node and converge to the true path between them. This holds for both element sets, any gravitational parameter, and forward or backward trajectories.",
 ["inputs", "configurations"], "all recorded trajectories, sample counts, interpolation kinds, both element sets",
 "These functions are only used to draw pictures in tests.",
 [Q, EL], [("get_cartesian_history, interpolate_states", Q)], ["returned arrays and interpolants"])

prop("C20", "Exported results reproduce the flown trajectory",
 "The exported dictionary, and the JSON file when a path is given, contains the recorded times, the recorded orbit at each node as modified equinoctial elements with mass appended, whatever element set was flown, and one control row per node: unit thrust direction in radial-tangential-normal components with throttle, or the raw angles and throttle, ending with a zero-throttle row. File and dictionary carry the same numbers to full precision, and exporting does not alter the solver's histories.",
 ["inputs", "configurations", "histories"], "all solved problems of both element sets, both control formats, repeated exports",
 "The tests write a file and delete it without reading it; Keplerian runs are never exported.",
 [Q, EL], [("save_to_dict", Q)], ["returned dictionary and written file"])

prop("C21", "Plots depict the recorded histories and targets",
 "Every plotting call draws exactly the recorded quantities of the solve in the requested time, energy and angle units: element, mass, periapsis, battery, control, effectivity and Q curves, initial/target orbits and trajectory, target bands or lines, also after conversion to Keplerian elements. Drawing never alters the solver's results.",
 ["inputs", "configurations"], "all solved problems of both element sets, all option combinations and unit factors",
 "Tests call the plot functions and close the figures without looking at the data.",
 [PL, PH, TR], [("plot_* methods", PL), ("sphere/ellipsoid/axis helpers", PH)], ["line, collection and axis data of the returned figures"])

prop("C22", "Compiled numeric kernels are memory-safe and equal their Python semantics",
 "For every valid input, the just-in-time compiled numeric functions and whole solves give the same results as the identical code run by the Python interpreter, never read or write outside their arrays (in particular with minimally sized inputs such as five-element bounds and targets), and do not modify input arrays other than where clipping is documented.",
 ["inputs", "configurations"], "all public compiled functions over random, boundary-size and extreme inputs; whole solves in both modes",
 "Tests compare compiled and interpreted results at single points and never run with bounds checking.",
 [EL, EOM, INT, LY, CV, PT, TR], [("@njit functions", EL)], ["results of identical workloads under bounds-checked compilation and with compilation disabled"])

prop("C23", "Results do not depend on units, node origin or whole turns of angle",
 "Re-expressing a problem in other length and time units (with the gravitational parameter, thrust, rates, bounds and tolerances converted), or adding whole turns to the starting fast angle, gives the same physical trajectory, commands, coasting decisions and outcome. In Keplerian elements so does rotating the initial and target node by the same angle, and target angles matter only modulo whole turns.",
 ["inputs", "configurations"], "all unit scalings and gravitational parameters, all turn counts and node rotations, both element sets, all step modes",
 "All tests use mu=1 and one angle convention.",
 [Q, SY, EOM, EL, CV], [("mu-dependence of the law, EOM, Sundman step and convergence test", SY)], ["pairs of solves related by the transformation"])

prop("C24", "The closed loop makes progress: Q falls while thrusting and transfers converge",
 "For well-posed low-thrust problems away from singular elements, the Lyapunov function (at fixed thrust acceleration) decreases on every sufficiently short unperturbed thrusting step at the reported rate and stays constant while coasting. Transfers of the documented classes (low thrust, moderate changes, adequate time and step, both element sets, forward or backward, with constant step or anomaly step) reach the target within a bounded time and report success with the final errors inside tolerance.",
 ["inputs", "configurations", "histories"], "all well-posed transfers within the documented scope, restated as bounded progress",
 "A handful of fixed transfers are run; many have no assertion at all.",
 [Q, SY, LY, EOM], [("closed loop of law, dynamics and bookkeeping", Q)], ["Qs, dQdts, controls, states, exit code"])

prop("C25", "Invalid problem definitions are rejected before anything happens",
 "Every invalid setting (non-positive gravitational parameter, unknown element set or integrator, state, target, weight or tolerance vectors of the wrong length, minimum mass too small, relaxation factor below one, threshold of a wrong type for either effectivity, solving before a problem is set) raises an error at the call that introduces it: at construction, problem definition or solve, or on later assignment of the gravitational parameter, element set or integrator. A rejected call leaves the object's previous settings and problem intact and still solvable; every valid boundary value is accepted.",
 ["inputs", "configurations"], "all invalid and boundary-valid argument values at construction, attribute assignment, problem definition and solve",
 "No test passes an invalid argument.",
 [Q], [("assertions and validating properties", Q)], ["exceptions raised and object state afterwards"])

prop("C26", "Target test and element safeguards decide element by element",
 "The target test of each element set is true exactly when every element with non-zero weight differs from its target by at most its tolerance, measuring Keplerian node and periapsis differences along the shortest arc and ignoring zero-weight elements and the fast angle; undefined elements never count as reached. Element safeguarding returns each of the five slow elements clipped to its bounds and leaves the fast angle and already valid values untouched.",
 ["inputs"], "all element, target, weight, tolerance and bound vectors, including ties, infinities, NaN and angles many turns apart",
 "One element set with two tolerances is tested.",
 [CV], [("check_convergence_*, elements_safety", CV)], ["returned booleans and arrays"])

prop("C27", "Equivalent statements of a problem solve identically",
 "Leaving an option out of the construction, the problem definition or the solve is the same as passing its documented default. Lists, tuples, integer, strided or read-only arrays, numpy scalars, positional or keyword arguments, and targets of five or six elements give the same solve as plain float arrays of the same values, in both element sets.",
 ["inputs", "configurations"], "all valid problems, all subsets of options left at their default, all documented container and argument forms",
 "The tests pass one form of each argument and never compare two statements of a problem.",
 [Q], [("constructor, set_problem and solve argument handling", Q)], ["outcome and histories of pairs of solves"])

prop("C28", "Console output reports the problem and the solve as they are",
 "The printed transfer (initial and target elements, weights) and settings (element type and names, integrator, tolerances, relaxed tolerance and count) are those that will be used; at verbosity two and above the progress rows are every print-frequency-th step with its index, time, remaining difference per element and fast angle; the closing message matches the status; and the printed final elements and errors (shortest arc for Keplerian angles), time and mass are the recorded ones. Verbosity zero prints nothing during a solve.",
 ["inputs", "configurations"], "all problems and outcomes, all verbosity levels and print frequencies, both element sets, both time directions",
 "The tests print, but nothing compares the text with the solve.",
 [Q], [("pretty, pretty_settings, pretty_results and the progress printing of solve", Q)], ["captured standard output", "recorded histories"])

prop("C30", "An interrupted solve leaves a truthful beginning of the flight",
 "If a solve is interrupted at any call to a threshold callback, the perturbation model or the console, the very exception reaches the caller, the recorded histories are aligned and equal the beginning of the uninterrupted flight, no outcome is claimed that the flight did not have, exports work on what was flown, and a later solve of this or another problem is unaffected. A keyboard interrupt at any other point leaves every history a beginning of the uninterrupted one, at most one entry apart.",
 ["inputs", "crash_points"], "all problems, every client call and every source line as interruption point, all exception types",
 "No test raises inside a solve.",
 [Q], [("order of callback, propagation and recording in solve", Q), ("status initialisation", Q)], ["exception seen by the caller", "histories and status left behind", "next solve"])

prop("C31", "Solver objects are independent of each other",
 "Any number of solver objects may solve in threads of one process, interleaved in any way, may be built, solved and plotted while others are in the middle of a solve, and may be copied (shallow or deep) at any time: every one gives exactly the results and plots it gives alone, and solving a copy leaves the histories and status of the original untouched.",
 ["inputs", "schedules", "histories"], "all interleavings of two to four solves at client calls and source lines, all copy times",
 "The tests solve one object at a time in one thread.",
 [Q, PL, INT, LY, PT], [("instance state of QLaw", Q), ("plotting methods", PL)], ["histories, outcomes and figures of every object"])

prop("C32", "Stopping conditions only cut a flight, and flights can be resumed",
 "Where a flight ends decides nothing before its end: with a later time limit, a lower mass minimum, tighter tolerances or larger relaxed or undefined-command counts, the same steps are flown first, number for number. A flight restarted from any recorded node (its state, mass and battery level as initial condition, time counted from there, on the same or another object; at the opening of an ON window, and with no full recharge pending) continues as the unbroken flight does: same nodes, commands, coasting, battery and outcome.",
 ["inputs", "histories"], "all problems, all stopping conditions, all nodes of a flight and any number of segments",
 "The tests fly each problem once with one set of limits.",
 [Q], [("loop, bookkeeping and termination of solve", Q)], ["histories and outcome of the cut, extended and segmented flights"])

prop("C33", "Mirrored and time-reversed problems give mirrored and time-reversed flights",
 "Mirroring a problem at the reference plane (target and perturbations alike) mirrors the flight: same times, masses, battery, Lyapunov values, effectivities and coasting, with the out-of-plane angle of every command negated. At constant mass and without a battery, flying a time-reversed problem backward (motion reversed, which exchanges prograde and retrograde, or turned half a turn about a line in the reference plane; in equinoctial elements where the weights allow) retraces the image of the forward flight, with the in-plane angle negated, and ends with the same outcome.",
 ["inputs", "histories"], "all problems in both element sets, both integrators and step modes, with duty cycle, thresholds and perturbations, all compositions of the symmetries",
 "The tests contain no retrograde, mirrored or backward counterpart of any problem.",
 [Q, EOM, SY, EL], [("solve in both directions of time", Q), ("equations of motion", EOM), ("control laws", SY)], ["histories and outcome of a problem and its image"])

prop("C29", "Drawing helpers give the requested surfaces and equal axes",
 "Sphere and ellipsoid coordinates, and the wireframes drawn from them, lie on the surface of the requested radii about the requested centre and cover all of it with the requested mesh size; equal-axis scaling gives every axis the same range, the largest of the three times the scale, centred on the middle of its own limits, in two and three dimensions.",
 ["inputs"], "all positive radii, centres, mesh sizes, axis limits in any order (also of zero extent) and scales",
 "The helpers are only reached incidentally by drawing tests that check nothing.",
 [PH], [("sphere, ellipsoid and axis helpers", PH)], ["returned coordinates", "drawn segments and axis limits"])

prop("C34", "Weights act relatively, and settings not in force have no influence",
 "A flight does not depend on targets or tolerances of elements of zero weight, on a common factor of all weights (which the Lyapunov value and its rate carry), on penalty parameters at zero penalty weight, on whether a battery is stored that cannot run empty, on a duty cycle that never switches off, on the anomaly grid when no thresholds are used, or on element bounds it never reaches (in equinoctial elements, on any bounds). The direction first commanded does not depend on the size of the thrust, while the Lyapunov value there goes with its inverse square and the rate with its inverse.",
 ["inputs", "configurations"], "all problems in both element sets, all weights, and all combinations of settings that are not in force",
 "The tests leave almost all of these settings at one value and compare no two flights.",
 [Q, LY, SY, CV], [("solve", Q), ("Q with penalty and weights", SY), ("effectivity evaluation", LY), ("weighted target test and safeguards", CV)],
 ["histories and outcome of pairs of problems"])

prop("C35", "Results are the same in any process, and the library has no side effects",
 "The same problem gives the same histories, bit for bit, in every interpreter process (whatever the hash seed, working and home directory, locale, time zone, import order, thread count or optimisation level) and under any state of process-wide settings (random generators, print options, floating-point warnings, plot parameters, arbitrary precision). Importing and using the library, including rejected and interrupted solves, changes none of these, leaves no file, open file, thread or figure except those asked for, and writes nothing to the console at verbosity zero.",
 ["inputs", "configurations", "histories"], "all problems, process environments and process-wide settings, all public operations",
 "All tests run in one process with one environment and look at nothing outside the solver.",
 [Q, SY, LY, INT, PL], [("solver", Q), ("code generation at import and set-up", SY), ("compiled kernels", LY), ("exports", Q), ("plotting methods", PL)],
 ["histories in fresh processes", "process-wide settings, files, figures and console before and after each operation"])

out = os.path.join(HERE, "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
