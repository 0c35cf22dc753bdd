"""One entry per property: what is claimed, by which rule module it is decided, and how.

tools/gen.py derives properties.jsonl and MANIFEST.json from this table.
"""
RULES = {}
NA = {}

INST = ("The sources are analysed on a layout instance (two or three contact points per foot, a five link / four joint branched tree robot with "
        "symbolic geometry and inertia); code that special-cases other sizes is not distinguished.")
REALS = ("Arithmetic is taken over the reals: rounding and overflow are not modelled. Two value graphs are equal when they agree at 192 pseudo-random real "
         "points (relative tolerance 1e-7, drawn so that every gate condition takes both values); a difference confined to a thin set is not seen.")
LIB = "iDynTree, Eigen and the C++ library behave as documented (their calls are replaced by algebraic models, dpa/models.py and dpa/kin.py)."
LEVI = "The geometric expressions of the expressions server have their mathematical meaning (decided separately by C11 and C12)."


def rule(pid, title, statement, over, qtext, why, files, mech, module, text, assumptions, technique, note, observe=(), state=()):
    RULES[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, module=module, rule=text,
                      assumptions=assumptions, technique=technique, note=note, observe=list(observe), state=list(state))


def na(pid, title, statement, over, qtext, why, files, mech, reason, observe=()):
    NA[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason,
                   observe=list(observe), state=[])


GVN = "abstract interpretation of the clang AST over a gated value-graph (global value numbering) domain"
CC = "src/private/*Constraint*.cpp"
EVALS = ["src/private/%s.cpp" % c for c in (
    "CentroidalMomentumConstraint", "ClassicalComplementarityConstraint", "ClassicalPlanarComplementarityConstraint", "CoMPositionConstraint",
    "ContactForceControlConstraints", "ContactFrictionConstraint", "ContactPositionConsistencyConstraint", "DynamicalComplementarityConstraint",
    "DynamicalConstraints", "FeetLateralDistanceConstraint", "FeetRelativeHeightConstraint", "NormalVelocityControlConstraints",
    "PlanarVelocityControlConstraints", "QuaternionNormConstraint", "ComplementarityCost", "FeetDistanceCost", "FootYawCost", "ForceMeanCost",
    "ForceRatioCost", "FrameAngularVelocityCost", "FrameOrientationCost", "JointsVelocityForPosturalCost", "MeanPointPositionCost",
    "PhantomForcesCost", "StaticTorquesCost", "SwingCost")]


LEVIA = "levi composes, slices and differentiates expressions as documented."
LEVIS = ["src/private/%s.cpp" % c for c in (
    "AbsoluteVelocityExpression", "AdjointTransformExpression", "CoMInBaseExpression", "MomentumInBaseExpression", "QuaternionErrorExpression", "QuaternionExpressions",
    "RelativeJacobianExpression", "RelativePositionExpression", "RelativeQuaternionExpression", "RelativeVelocityExpression", "TransformExpression")]


def M(name, where):
    return {"name": name, "where": where}


rule("C01", "Evaluations fail exactly when a reference they follow is not valid",
     "Evaluating a cost, constraint or the dynamics, or any of their derivatives, reports failure whenever the result would be computed from the value of a "
     "time-varying reference or weight that declares itself not valid at that time, and succeeds otherwise, at every time, state and control.",
     ["inputs", "faults"], "all times, states and controls; every combination of valid and not valid references",
     "the tests only use references that are valid everywhere",
     EVALS + ["src/private/CoMVelocityCost.cpp"], [M("validity tests after get(time, isValid)", "src/private/*Cost.cpp")], "evaluables",
     "Rule: for each method, (returned success) AND NOT (reference valid at that time) must be unsatisfiable for every reference the output's value graph depends on, "
     "and (all consulted references valid) AND NOT (returned success) must be too.",
     [INST, REALS, LIB, LEVI], GVN + ": the returned flag's graph against the validity of the references in the output's graph",
     "every method of every class; each reference's validity is an unknown function of time",
     ["bool results of evaluateConstraint/costEvaluation/dynamics and their derivatives"])

rule("C02", "Evaluations do not depend on the history of earlier calls",
     "Evaluating a constraint, a cost or the dynamics, or any of their derivatives, at a given time, state, control and multipliers gives the same "
     "result whatever was evaluated before on the same object or on the shared kinematics, and never reads storage that was not set.",
     ["histories", "inputs"], "all sequences of calls on one problem instance, all points and times",
     "the tests call each method a handful of times around one default configuration, always in the same order",
     EVALS + ["src/private/SharedKinDynComputations.cpp", "src/private/ExpressionsServer.cpp"],
     [M("each method copies its point into the object's buffers before using them", "src/private/*.cpp, every evaluate*/…Jacobian…/…PartialDerivative… method"),
      M("shared kinematics and expression cache refresh on a state change", "src/private/SharedKinDynComputations.cpp sameState/updateRobotState; src/private/ExpressionsServer.cpp updateRobotState")],
     "evaluables",
     "Rule: for each evaluable class and each method, the value graph of the result after a sequence of calls at other points (outputs reused, the shared kinematics "
     "moved by another client) must equal the value graph of a fresh object with the point substituted; no result may depend on an uninitialised storage cell.",
     [INST, REALS, LIB, LEVI],
     GVN + ": result graphs after call sequences compared with those of a fresh object",
     "all classes, all methods; sequences cover every method preceded by every other and by itself at points that share the state, the control, the time or nothing",
     ["results of evaluateConstraint/costEvaluation/dynamics and their derivatives"])

rule("C03", "Declared sparsity patterns cover every possibly nonzero derivative entry",
     "Every first or second derivative entry that a constraint, cost or the dynamics can make nonzero is part of the sparsity pattern it declares, "
     "declared entries lie within the matrix, and the state and control sizes a constraint expects are those of the variables it was built with.",
     ["inputs", "configurations"], "all points, all variable layouts",
     "the tests look at one configuration, where many entries happen to vanish, and only at the assembled problem's Jacobian",
     EVALS, [M("sparsity members filled in the constructors", "src/private/*.cpp, constructors and …Sparsity methods")], "evaluables",
     "Rule: the value graph of each entry outside the pattern declared by the matching sparsity method must be identically zero.",
     [INST, REALS, LIB, LEVI], GVN + ": entries outside the declared pattern must have the zero value graph",
     "every entry of every derivative matrix of every class, two variable orders", ["…Sparsity methods of constraints, costs and dynamics"])

rule("C04", "First derivatives are the derivatives of the values, everywhere",
     "For every constraint, cost and the dynamics, the returned first derivatives with respect to state and control are exactly the partial derivatives of the "
     "returned value, at every point, for all settings and for every placement of the variables.",
     ["inputs", "configurations"], "all states, controls, times, settings and variable layouts",
     "the tests compare finite differences around one default configuration with loose tolerances, and several terms vanish there",
     EVALS, [M("hand-written and expression-generated derivatives", "src/private/*.cpp …Jacobian…, …FirstPartialDerivative…, …FirstDerivative methods")], "evaluables",
     "Rule: the value graph of every derivative entry must equal the symbolic derivative of the value graph returned by the evaluation method.",
     [INST, REALS, LIB, LEVI], GVN + ": each Jacobian entry against the derivative of the value's graph",
     "every entry of every Jacobian/gradient of every class, both feet, several points, two variable orders",
     ["constraintJacobianWRT…, costFirstPartialDerivativeWRT…, dynamics…FirstDerivative"])

rule("C05", "Second derivatives are the derivatives of the first ones, everywhere",
     "Where a constraint, cost or the dynamics provides second derivatives, they are exactly the second partial derivatives of its value (weighted by the given "
     "multipliers), at every point and for all settings.",
     ["inputs", "configurations"], "all states, controls, times, multipliers, settings and variable layouts",
     "the tests compare finite differences around one default configuration, where many second derivatives vanish",
     EVALS, [M("hand-written and expression-generated Hessians", "src/private/*.cpp …SecondPartialDerivative… methods")], "evaluables",
     "Rule: the value graph of every Hessian entry must equal the second symbolic derivative of the (multiplier weighted) value graph.",
     [INST, REALS, LIB, LEVI], GVN + ": each Hessian entry against the second derivative of the value's graph",
     "every entry of the three Hessian blocks of every class that provides them",
     ["constraintSecondPartialDerivativeWRT…, costSecondPartialDerivativeWRT…, dynamicsSecondPartialDerivativeWRT…"])


rule("C06", "Constraints, costs and dynamics have their physical meaning",
     "At every point, each constraint's feasible set, each cost's value and the dynamics equal what the rigid-body and contact model prescribes for the configured "
     "settings: friction cone, complementarity, contact point consistency with forward kinematics, centre of mass and centroidal momentum, unit quaternion, feet "
     "distance and height, force and velocity control limits, foot yaw, orientation, force mean and ratio, swing, static torques, and the "
     "derivatives of forces, points, momentum, base and joints.",
     ["inputs", "configurations"], "all states, controls, times and settings",
     "the tests check derivatives against finite differences of the code's own values, so a wrong value with a consistent derivative passes; no test compares values with physics",
     EVALS + ["src/private/ExpressionsServer.cpp"],
     [M("value methods and bounds", "src/private/*.cpp evaluateConstraint, get{Lower,Upper}Bound, costEvaluation; DynamicalConstraints.cpp dynamics")],
     "values",
     "Rule: the value graph of every constraint row with its bounds (up to sign with exchanged bounds), every cost and every state derivative must equal an "
     "independently written formula (dpa/rules/values.py) over forward kinematics, inertias and contact variables of a symbolic branched robot.",
     [INST, REALS, LIB, LEVI,
      "The formulas in dpa/rules/values.py are the intended physics."],
     GVN + ": value graphs against independently written formulas",
     "every row and bound of 14 constraints, 12 costs and the dynamics, both feet, two points, two variable orders",
     ["constraint rows and bounds, cost values, state derivatives"])


rule("C07", "Parameters can be replaced, and refused ones change nothing",
     "After a parameter of a constraint or cost (friction coefficient, minimum distance, torque weights, equality tolerance, desired ratio, rotation, position, yaw, "
     "weight) is set again, every evaluation, derivative and bound is the one of an object given the new value from the start; a call that refuses its value "
     "(a friction coefficient that is not positive, a negative distance, weights of the wrong number, a missing reference) returns false and changes nothing.",
     ["inputs", "histories"], "all values, all points, calls before or after evaluations",
     "the tests set each parameter once, before the first evaluation",
     EVALS, [M("parameter setters", "src/private/*Cost.cpp, src/private/*Constraint*.cpp, set… methods")], "evaluables",
     "Rule: the value graphs of all evaluations and bounds after a second accepted call equal the first ones with the parameter renamed; after a refused call they equal the earlier ones.",
     [INST, REALS, LIB, LEVI], GVN + ": result graphs before and after each setter call",
     "every parameter setter of every class, all evaluations and bounds",
     ["set… methods of constraints and costs and the evaluations after them"])

rule("C08", "Concurrent queries of the shared kinematics never interleave",
     "Every public query of SharedKinDynComputations that is given a robot state, and every setter, does all its work on the object's data (kinematics, stored state, buffers) in one "
     "critical section of the object's own mutex: nothing of it is read or written before the mutex is taken or after it is released, on any path, the mutex is not taken twice, "
     "and no two methods rely on different mutexes. So, whatever the schedule of the calling threads, each query computes with the state it was given.",
     ["schedules"], "all schedules of concurrent queries and setters on one object",
     "a race shows only under a particular interleaving of the constraint evaluations that run in parallel",
     ["src/private/SharedKinDynComputations.cpp"], [M("lock_guard at the head of the public methods", "src/private/SharedKinDynComputations.cpp")], "locks",
     "Rule: a must-hold lock analysis of the methods, interprocedural over the helpers they call: each access to a field of SharedKinDynComputations::Data happens with the mutex "
     "certainly held and in the first critical section of the call; lock objects, scopes, explicit lock/unlock and lock-returning helpers are followed; a second acquisition while "
     "held, a different mutex, or mutable static storage is a violation.",
     ["std::mutex and its guards behave as the standard says.", "Accessors without a state parameter (model, gravity, isValid, currentState, ...) are used while no query runs; "
      "the reference returned by getBaseTransform is read before the next query at another state."],
     "lock-order and must-hold dataflow over the methods' syntax trees",
     "every access of every public query and setter", ["public methods of SharedKinDynComputations"])

rule("C09", "Kinematic answers depend only on the state asked for, not on the history",
     "Whatever was asked of, set on or loaded into a SharedKinDynComputations before (other states, other queries in other velocity representations, another floating base, gravity, "
     "tolerance or model, an update the library refused, copies of the object), a query answers for the state it is given and the settings in force; two states are taken for the same "
     "only if every component of the six parts of the state differs by no more than the tolerance in force; the instances of different times never share a state; and the variables "
     "of an ExpressionsServer and its current state are those of the instance of the time it was last updated for, whichever times were updated in between.",
     ["histories", "inputs"], "all sequences of queries, updates and setters",
     "tests ask a few queries in one order on fresh objects",
     ["src/private/SharedKinDynComputations.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/private/ExpressionsServer.cpp"],
     [M("sameStatePrivate, updateRobotStatePrivate, updateNecessary", "src/private/SharedKinDynComputations.cpp"), M("updateRobotState", "src/private/ExpressionsServer.cpp")], "kindyn",
     "Rule: the object is interpreted through histories over symbolic states: all ordered pairs of queries at two states, pairs of states that differ in exactly one component, changes of "
     "base, gravity, tolerance and model between two queries, failing library updates, copies; and the server through all histories of up to three updates at three times. Each answer must "
     "be, as a value graph, that of the library in the state asked for.",
     [INST, REALS, LIB, "Histories are composed of at most three steps; the object's memory is its fields, so a longer history only repeats such steps."],
     GVN + " through histories of calls", "all ordered query pairs; every component of the state; every pair of floating bases; server histories up to length 3 (4 in the thorough tier)",
     ["queries, setters and updates of SharedKinDynComputations; ExpressionsServer::updateRobotState"])

rule("C10", "Kinematic queries are the rigid-body quantities of the state they are given",
     "For every robot state, floating base, frame (by name or number) and velocity representation, the queries of SharedKinDynComputations (world, base and relative transforms, frame "
     "velocities, free-floating and relative Jacobians, centre of mass and its Jacobian, momentum and its Jacobian, mass matrix, static torques and link wrenches) return the rigid-body "
     "quantity at exactly that state, with the base velocity in the body frame and the angular velocity that belongs to the quaternion derivative; the joint-derivative queries return "
     "the exact partial derivatives of the body frame velocity, momentum and static torques; and what cannot be answered (unknown base or frame, negative tolerance, no model) is refused "
     "without changing anything.",
     ["inputs", "configurations"], "all robot states, floating bases, frames and representations",
     "the tests compare derivatives at one random state with loose tolerances and one floating base",
     ["src/private/SharedKinDynComputations.cpp", "include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h"],
     [M("updateRobotStatePrivate, computeStaticForces", "src/private/SharedKinDynComputations.cpp"), M("get*JointsDerivative", "src/private/SharedKinDynComputations.cpp")], "kindyn",
     "Rule: each query is interpreted over the symbolic robot and its value graph compared with the formula of dpa/kin.py for that state; derivative queries with the symbolic derivative of "
     "the formula.",
     [INST, REALS, LIB, "The names and numbers given identify frames of the model."],
     GVN + ": each query against rigid-body formulas", "5 floating bases; 8 frames by name and number; 64 frame pairs; 3 velocity representations; all joint derivatives",
     ["the public queries of SharedKinDynComputations"])

rule("C11", "Kinematic expressions have their meaning and exact derivatives",
     "Each symbolic kinematic expression (relative adjoint transforms for motions and wrenches, relative position, quaternion, Jacobian and velocity, absolute velocity, "
     "centre of mass, momentum, quaternion error, the quaternion expressions, transform composition) evaluates to the rigid-body quantity it is named after at every "
     "robot state, for links and additional frames and for any floating base; its declared dependencies include every variable its value depends on; and its column "
     "derivatives with respect to joint positions and velocities, base quaternion and twist, as well as the expressions of those derivatives, are the exact derivatives "
     "of that quantity (the quaternion error has none with respect to the desired quaternion).",
     ["inputs", "configurations"], "all robot states, frame pairs and variables",
     "the tests compare one frame pair at one random state with tolerances that hide errors of a few centimetres per radian",
     LEVIS + ["src/private/ExpressionsServer.cpp"],
     [M("evaluate() of the expression classes", "src/private/*Expression*.cpp"), M("getColumnDerivative/getNewColumnDerivative, col() and element()", "src/private/*Expression*.cpp"),
      M("addDependencies in the constructors", "src/private/*Expression*.cpp")],
     "expressions",
     "Rule: with the other expressions of the server standing for what they denote, the value graph of evaluate(), of each column and element, and of each (second) column "
     "derivative must equal the rigid-body formula of dpa/kin.py over the server's variables, or its symbolic derivative; variables occurring in the formula must be "
     "among the declared dependencies.",
     [INST, REALS, LIB, LEVIA, "The twist variable given to the joint derivative of the momentum is the "
      "server's own base twist (as it is at its only use)."],
     GVN + ": each expression class against rigid-body formulas, compositionally",
     "every expression factory; all pairs of links and additional frames; two floating bases; first and second derivatives",
     ["evaluate(), col(), element(), getColumnDerivative() of the expressions"])

rule("C12", "The expressions server answers every request with what was asked for",
     "Whatever was requested from an expressions server before, in whatever order and however often, each accessor returns the expression for exactly its arguments: "
     "the frames in their order, the column, the joint with its direction, the link, the given twist or desired quaternion variable; equal frames give the identity or "
     "zero. Names that collide when run together are kept apart. The base rotation, normalised quaternion, twist and pose are those of the server's variables.",
     ["histories", "inputs"], "all sequences of requests, all frame, joint and link names",
     "the tests ask one server for few expressions, and never for two that share a memo key",
     ["src/private/ExpressionsServer.cpp"],
     [M("memo maps and their keys", "src/private/ExpressionsServer.cpp, every accessor with a find/insert pair"), M("expressions of the base", "src/private/ExpressionsServer.cpp constructor")],
     "expressions",
     "Rule: after any of the analysed request sequences (all accessors with all arguments, each at least twice, in mixed orders, on a branched robot and on one whose names "
     "and numbers collide when concatenated) the value graph of each returned expression must equal that of its arguments.",
     [INST, REALS, LIB, LEVIA, "The expression classes behind the accessors have their meaning (decided separately by C11).", "Variables are identified by their names (levi's convention)."],
     GVN + ": results of mixed request sequences against those of their arguments",
     "every accessor, all ordered frame pairs, all joints in both directions, all links and columns, three twists and three desired quaternions",
     ["the accessors of ExpressionsServer"])

rule("C14", "Settings are accepted exactly when they are consistent",
     "Settings::setFromStruct (and the constructor taking a structure) accepts a settings structure if and only if it is consistent: all limits and tolerances that the "
     "messages call non-negative are, maximumDt exceeds twice minimumDt, percentages and force ratios lie in [0, 1], frame and link names exist in the model, lower "
     "joint limits do not exceed upper ones, vectors have the required sizes, and every active cost or constraint has its references. Data of inactive features "
     "do not matter. The default settings of a model with the default frame names and proper joint limits are consistent.",
     ["inputs", "configurations"], "all settings structures",
     "the tests only use a few accepted settings; a dropped, inverted or misdirected check is seen by none of them",
     ["src/Settings.cpp", "include/DynamicalPlanner/Settings.h"],
     [M("checkError calls, one per consistency condition", "src/Settings.cpp Settings::setFromStruct"), M("default values", "src/Settings.cpp Settings::Defaults")],
     "settings",
     "Rule: interpreted over a structure with a symbolic value per field, setFromStruct must return false for every box of field values that breaks one condition while all "
     "other fields are unknown (interval evaluation of the value graph), and true for the box of all consistent values, for every combination of complementarity types, "
     "with all features, none, and each feature alone active. Relations between two fields are evaluated at sample points.",
     ["Two contact points per foot and a four-joint robot stand for all sizes.", LIB], GVN + " with interval evaluation over boxes of field values",
     "every condition, every active flag, all complementarity types",
     ["return value of Settings::setFromStruct", "Settings::isValid"])

rule("C15", "Refused settings leave the stored ones untouched",
     "After any sequence of calls, a Settings object holds exactly the last accepted structure, every field unmodified; a refused structure changes nothing. The object "
     "is valid if and only if some structure has been accepted, and one constructed from a structure is valid if and only if that structure is accepted.",
     ["histories", "inputs"], "all sequences of accepted and refused structures",
     "no test refuses settings after accepting some",
     ["src/Settings.cpp"], [M("assignment of the stored structure guarded by the error count", "src/Settings.cpp Settings::setFromStruct, constructors")], "settings",
     "Rule: after two calls with independent symbolic structures, the gated value of every stored field must be the field of the last accepted structure, and the validity "
     "flag the disjunction of the two results; compared at sample points of the four accepted/refused combinations.",
     ["Two contact points per foot and a four-joint robot stand for all sizes.", LIB], GVN + ": gated values of the stored fields compared with the inputs'",
     "all fields, all four accepted/refused histories of length two (an arbitrary earlier state, then one call)",
     ["Settings::getSettings", "Settings::isValid"])

rule("C16", "The optimal control problem built is the one the settings describe",
     "After Solver::specifySettings accepts settings, the problem handed to the optimiser is exactly the one they describe: the running cost is the sum of the active costs, each with "
     "its own overall weight, active range, component weights and reference; every constraint of the chosen complementarity formulations is present for every contact point of "
     "both feet, with the settings' tolerances and parameters, and no other; the dynamics follow the chosen formulation; variables are bounded by the settings' limits, "
     "the feet and forces are frozen after the active control portion, the centre of mass is held in its target box in the requested interval; horizon, step sizes, control "
     "period, regularisation, gravity, floating base, optimiser and integrator are the requested ones.",
     ["configurations", "inputs"], "all accepted settings, all combinations of active costs and complementarity types, all states, controls and times",
     "no test builds a Solver; with 24 switchable costs and 12 formulations only a handful of the configurations could ever be sampled, and a swapped weight or reference merely changes the plan",
     ["src/Solver.cpp", "src/private/CoMVelocityCost.cpp", "include/DynamicalPlanner/Settings.h"],
     [M("costs and their weights", "src/Solver.cpp Solver::Implementation::setCosts"), M("constraints and their parameters", "src/Solver.cpp Solver::Implementation::setConstraints"),
      M("bounds", "src/Solver.cpp Solver::Implementation::setBounds, VariableBound::get"), M("horizon, transcription and dynamics", "src/Solver.cpp Solver::specifySettings")],
     "solver",
     "Rule: Solver::specifySettings is interpreted with symbolic settings (every number, switch and reference free) against recording models of the optimal control "
     "framework; the value graph of the registered running cost, each constraint row with its bound, the dynamics, each variable bound and each framework parameter must equal "
     "the formula the settings prescribe.",
     [INST.replace("two or three", "four"), REALS, LIB, LEVI, "L2NormCost is half the weighted squared distance from the reference; terms of one problem need distinct names.",
      "The initial state is at time zero when the bounds of the active control portion are evaluated.",
      "Limits and tolerances are nonnegative, as accepted settings guarantee (C14)."],
     GVN + ": graph of the assembled problem against formulas over the settings",
     "24 cost switches (each alone and all combinations at once), 12 formulation pairs, all variables and framework parameters",
     ["OptimalControlProblem::addLagrangeTerm, addConstraint, set*BoxConstraints, setTimeHorizon", "MultipleShootingSolver configuration calls"])


UT = ["src/Utilities.cpp", "include/DynamicalPlanner/Utilities.h"]
SMALL = "Symbolic numbers, but container sizes and numbers of points, labels or timings up to the ones listed in the scope."

rule("C20", "Time-varying references and guesses give what they were built from",
     "At every time, the mean position reference is the position of the last entry of the generator whose active range contains that time (zero when there is none) and its weight is "
     "(1 + k·s)² per axis with s the elapsed fraction of that range (zero when there is none), for any number of entries, after any resizing (which keeps the remaining entries) and "
     "re-initialisation; the exponential weight is a·exp(b·(t−d))+c; the translating guess is the initial state moved rigidly so that its centre of mass follows the "
     "reference, at rest, whatever the caller did to the positions, joints and momentum of the guesses it got before, and it is valid exactly when the reference is. No reference returns uninitialised memory.",
     ["inputs", "configurations"], "all times, entries, ranges and resizings",
     "the tests use one fixed reference inside its range",
     ["src/PositionReferenceGenerator.cpp", "src/Utilities.cpp"],
     [M("search of the active entry", "src/PositionReferenceGenerator.cpp TimeVaryingWeight::get, PositionReference::get"),
      M("guess from the CoM reference", "src/Utilities.cpp TranslatingCoMStateGuess::get, ExponentialWeight::get")], "utils",
     "Rule: the value graph of each reference's get(t), with all positions, ranges and times symbolic, must equal the stated formula; storage that was never written is a distinct unknown.",
     [SMALL, REALS, LIB, "Active ranges have positive length."], GVN + ": value graphs of the references against formulas",
     "0 to 5 entries, every resize by one, a second initialisation; all values symbolic", ["timeVaryingReference()->get, timeVaryingWeight()->get, ExponentialWeight::get, TranslatingCoMStateGuess::get"])

rule("C21", "The variables labeller is a partition of the vector into labels",
     "After any sequence of additions, refused duplicates, assignments, zeroing and clearing, the labels of a VariablesLabeller own consecutive, disjoint ranges that cover the vector in "
     "the order of addition; every access by label or range reads and writes exactly the owner's elements; new elements are zero and adding a label changes no other value; "
     "an existing label is refused without any effect, and unknown labels give an invalid, empty range.",
     ["histories", "inputs"], "all sequences of operations, all labels and values",
     "no test addresses the labeller directly; every other class relies on its offsets",
     ["src/private/VariablesLabeller.cpp", "include/DynamicalPlannerPrivate/Utilities/VariablesLabeller.h"],
     [M("label map, list and offsets", "src/private/VariablesLabeller.cpp")], "utils",
     "Rule: after every operation, everything observable (size, list, each range, values through every accessor) must equal the abstract partition, with symbolic values.",
     [SMALL, LIB], GVN + ": observable state after each operation against an abstract partition",
     "7 layouts of 0 to 9 labels of length 0 to 7, both ways of adding, duplicates refused after every addition, assignment, zeroing, clearing and reuse", ["all public methods of VariablesLabeller"])

rule("C22", "States and controls are sized, zeroed, compared and measured correctly",
     "A State or Control built or resized for given joints and contact points has exactly these sizes; construction with sizes and zero() clear every field (the base transform to the identity); "
     "checkSize and sameSize are true exactly when the joints and both feet's points all agree; the feet centroid, the forward foot and its least "
     "point force are the mean of all contact points, the foot whose mean position is farther along the direction, and the least force norm on it. A time invariant state or control is, valid, "
     "at every time the one last stored in it.",
     ["inputs", "configurations"], "all sizes and values",
     "no test compares differently sized states, and none calls the measures",
     ["src/State.cpp", "src/Control.cpp"], [M("sizes and zero", "src/State.cpp, src/Control.cpp"), M("time invariant objects", "src/State.cpp, src/Control.cpp TimeInvariantObject"), M("measures", "src/State.cpp computeFeetCentroid, leftIsForward, minimumPointForceOnForwardFoot")], "utils",
     "Rule: each size predicate over all combinations of small sizes, each field's value graph after construction and zero(), and the measures' graphs against formulas over symbolic states.",
     [SMALL, REALS, LIB, "Both feet have contact points when the forward one is asked for, at least one of them when the centroid is."], GVN + ": fields and predicates over size combinations, measures against formulas",
     "sizes 0 to 4 of joints, left and right points independently; 0 to 4 points measured", ["State::*, Control::*"])

rule("C23", "The rectangular foot gives its corners and splits wrenches exactly",
     "A RectangularFoot refuses to give points or forces before it is set, and refuses sizes that are not positive without changing itself; getPoints gives its four corners, starting from the top left point, moved by the "
     "frame transform; the normal ratios for a centre of pressure inside the foot sum to one, are not negative and have that centre of pressure; the forces given for a "
     "wrench with its centre of pressure inside the foot (edges and corners included) have its resultant and its moment, carried in the normal direction by those ratios; a foot without positive normal force is given zero forces.",
     ["inputs", "histories"], "all foot sizes and positions, transforms and wrenches; outputs and objects reused",
     "the one test uses a fixed foot and wrench, with the centre of pressure strictly inside",
     ["src/RectangularFoot.cpp"], [M("ratios and pseudoinverse", "src/RectangularFoot.cpp getNormalRatiosFromCoP, getForces, setFoot, getPoints")], "utils",
     "Rule: value graphs over symbolic sizes, transforms and wrenches, one per stratum of the centre of pressure (inside, each edge, each corner), must satisfy the balance equations; linear systems are modelled by their general solution.",
     ["The moments of a wrench that the contact model cannot carry (torsion at a single corner) are excluded.", REALS, LIB,
      "Conditions on the stratum are decided by evaluating them on 192 points of that stratum."],
     GVN + " per stratum of the centre of pressure: balance equations of the result graphs",
     "9 strata, each with fresh and reused outputs; symbolic everything", ["setFoot, getPoints, getNormalRatiosFromCoP, getForces"])

rule("C24", "Quaternion utilities are the maps and derivatives they are named after",
     "At every quaternion, the quaternion utility functions are exact: left trivialised derivative and inverse map angular velocity to quaternion rate and back, normalisation, norms, conjugate, error "
     "quaternion, bounds check and every Jacobian (normalised quaternion, rotated vector, rate with respect to the quaternion, angular velocity with respect to the quaternion, conjugate) is "
     "the derivative of the map it differentiates.",
     ["inputs"], "all quaternions, velocities and vectors",
     "the tests compare finite differences at one random quaternion",
     ["src/private/QuaternionUtils.cpp", "include/DynamicalPlannerPrivate/Utilities/QuaternionUtils.h"], [M("quaternion algebra", "src/private/QuaternionUtils.cpp")], "utils",
     "Rule: value graph of each function against quaternion algebra and its symbolic derivative; the bounds check by intervals.",
     [REALS, LIB, "The bounds check has a tolerance of at most 2e-6."], GVN + ": value graphs against quaternion algebra and its derivatives",
     "13 functions, all components symbolic", ["functions of QuaternionUtils.h"])

rule("C25", "The smooth activations and their derivatives are exact",
     "HyperbolicSecant and HyperbolicTangent evaluate sech(k·x) and tanh(k·x) for the last scaling set, with exact first and second derivatives; when disabled they are the "
     "given constant with zero derivatives, whatever scaling is set.",
     ["inputs", "histories"], "all arguments, scalings and sequences of settings",
     "the tests check derivatives of constraints that use them at one scaling",
     ["src/private/HyperbolicSecant.cpp", "src/private/HyperbolicTangent.cpp"], [M("activations", "src/private/HyperbolicSecant.cpp, HyperbolicTangent.cpp")], "utils",
     "Rule: value graphs of eval, evalDerivative and evalDoubleDerivative against the formula and its symbolic derivatives.",
     [REALS, "Arguments are far from the overflow of cosh."], GVN + ": value graphs against the formula and its derivatives",
     "both classes; default, set and reset scaling; disabled before and after setting the scaling", ["eval, evalDerivative, evalDoubleDerivative"])

rule("C26", "The walking state machine steps under its stated conditions only",
     "SimpleWalkingStateMachine refuses a negative force threshold and a minimum step longer than the horizon or the step, and cannot advance until initialised; once initialised the first reference is the "
     "starting one during the first step and none is planned. Each advance plans the next position (present plus increment, starting at the horizon) exactly when none is planned, the present step "
     "ends within 60% of the horizon, and either the future mean point error is below its threshold or the step lasts more than twice its duration. With a planned step: if the present one starts before 30% of the horizon and the least point force on the "
     "forward foot is below its threshold, it is stretched keeping its end; otherwise, if it ends before the minimum step, the planned step becomes the present one and none is planned; otherwise both move back by the "
     "elapsed time. Without one, the present step moves back by the elapsed time but ends no earlier than 60% of the horizon. Verbosity changes nothing.",
     ["histories", "inputs"], "all machine states, parameters and robot states",
     "the walking tests are not part of the suite",
     UT, [M("transitions", "src/Utilities.cpp SimpleWalkingStateMachine::advance"), M("parameters", "src/Utilities.cpp SimpleWalkingStateMachine::initialize")], "utils",
     "Rule: advance is interpreted once from an arbitrary symbolic machine state; the gated value graph of both references' positions and ranges must equal the stated transition function, on samples that take every branch.",
     ["One to two contact points per foot (up to four in the thorough run).", REALS, LIB], GVN + ": one-step transition graph against the stated transition function",
     "one transition from an arbitrary machine state (hence all histories), all verbosity settings, refused and repeated initialisation", ["references() after initialize and advance"])

rule("C27", "The kinematics of the nearest time node are used",
     "For any list of increasing timings, TimelySharedKinDynComputations::get(time) returns the instance of the timing nearest to the requested time, whatever was requested or set before; different timings never share an instance, "
     "without timings the common instance is used, and timings are refused before a model is loaded. Every instance carries the model, gravity, floating base and update tolerance set before the timings; an unknown base or a negative tolerance is refused.",
     ["inputs", "histories"], "all times, all lists of timings, all sequences of queries and changes of the timings",
     "the tests use two timings and query them exactly",
     ["src/private/TimelySharedKinDynComputations.cpp"], [M("search from the previous index", "src/private/TimelySharedKinDynComputations.cpp get, setTimings")], "utils",
     "Rule: get is interpreted with an interval for the time, once per cell of the partition of the time axis by timings and midpoints and per previous query; the instance returned must be the nearest one's.",
     ["Lists of up to seven timings (twelve in the thorough run) in three spacings; earlier lists both shorter and longer.", LIB,
      "Around a timing or midpoint (1e-5) either neighbour is accepted."], "abstract interpretation of the clang AST with intervals over a partition of the time axis",
     "every cell and every previous index of each list, three earlier histories", ["TimelySharedKinDynComputations::get"])

rule("C28", "The default initial state is a resting, balanced robot",
     "FillDefaultInitialState fails on invalid settings, when the robot model or state is refused, when a foot cannot give its forces or gives another number of them than its contact points; otherwise, whatever the state held before, it becomes: the given joints, time zero, zero momentum, the base and contact points where forward "
     "kinematics puts them with the left foot frame on the world frame, the true centre of mass, and contact forces given by the feet for wrenches that carry the robot's weight, shared so that "
     "each foot's load times its lateral distance from the centre of mass is the same, with the pressure centre below the centre of mass.",
     ["inputs", "configurations"], "all joint configurations, contact point placements and feet",
     "the tests build this state once and look only at the solver's result",
     UT, [M("kinematics and wrenches", "src/Utilities.cpp FillDefaultInitialState")], "utils",
     "Rule: the value graph of every field of the state and of the wrench asked from each foot against forward kinematics and statics of the symbolic robot.",
     [INST, REALS, LIB, "Gravity is 9.81."], GVN + ": value graph of the state against kinematics and statics",
     "every field, fresh and previously filled states, two to six points per foot", ["the state filled by FillDefaultInitialState"])


rule("C29", "The lowest contact point is put on the ground by moving the base vertically",
     "SetMinContactPointToZero fails on invalid settings or when the robot model or state is refused; otherwise it succeeds and moves the base along the vertical only, so that the lowest of the contact points of both feet "
     "is at zero height (within a tenth of a micrometre), wherever it was before; the centre of mass and all contact point positions of the state become those of the moved robot, and "
     "joints, base orientation, momentum, time and contact forces stay as they are.",
     ["inputs", "configurations"], "all base poses, joint configurations and contact point placements; lowest points from metres below to metres above the ground",
     "no test calls it",
     UT, [M("repeated vertical shift", "src/Utilities.cpp SetMinContactPointToZero, SetMinContactPointToZero_impl")], "utils",
     "Rule: on each stratum of initial heights (which fixes how often the shift repeats), the value graph of every field of the state against forward kinematics of the symbolic robot.",
     [INST, REALS, LIB, "Initial heights are those of seven strata (on the ground, just above and below it, centimetres, decimetres and metres away); termination elsewhere is not decided."],
     GVN + ": value graph of the state against kinematics, per stratum of initial heights",
     "every field of the state, one to six points per foot", ["the state changed by SetMinContactPointToZero"])

rule("C17", "Refusals are reported and leave the solver's results alone",
     "The Solver does nothing and returns false when asked to solve, or given an initial state or guesses, before settings were accepted; when the settings are not valid; when "
     "the initial state's joints or contact points do not match the settings; and when guesses, optimiser or integrator are empty. A refused request changes nothing that a later "
     "solve uses. Whenever the optimal control framework refuses anything specifySettings, setOptimizer, setIntegrator or solve ask of it, that request returns false, and a "
     "solve that returns false leaves the caller's state and control vectors untouched.",
     ["configurations", "faults"], "all combinations of calls the framework refuses, all sizes differing by one, all settings and states",
     "about 170 framework calls can each fail in a specifySettings or solve; no test builds a Solver and none makes the framework fail",
     ["src/Solver.cpp"],
     [M("acceptance of settings", "src/Solver.cpp Solver::specifySettings"), M("inputs", "src/Solver.cpp Solver::setInitialState, setGuesses, setOptimizer, setIntegrator"),
      M("solution", "src/Solver.cpp Solver::solve")],
     "solve",
     "Rule: the Solver is interpreted with every framework call returning a free condition; under the guard of a call and the negation of its condition, the three-valued value of "
     "the enclosing request must be false and the output vectors must have their initial value graphs. Refused inputs must return constant false, and a following solve must send "
     "the value graphs of the last accepted inputs.",
     [INST.replace("two or three", "four"), LIB, "Only calls whose result the framework documents as success/failure are followed; what the repository's own setters refuse inside specifySettings is C06's and C14's matter."],
     GVN + " with free conditions for the framework's answers (three-valued evaluation of the reported result)",
     "all framework calls of specifySettings (119 in the largest formulation), solve, setOptimizer and setIntegrator",
     ["OptimalControlProblem and MultipleShootingSolver calls", "return values and output vectors"])

rule("C19", "solve() sends the initial state and guesses and returns the solution unscrambled",
     "Each successful solve() hands the framework the last accepted initial state and the horizon starting at its time, every component at its place; guesses given by the caller "
     "are sent once, component by component and valid exactly when the caller's are and have the right number of joints and contact points; without any, the first run after new "
     "settings starts from the initial state and zero controls, later runs from the previous solution. What the optimiser found is then returned, and kept, with every component "
     "and time in its place, one state or control per instant reported, with the orientation normalised, whatever the vectors passed in contained before.",
     ["inputs", "histories"], "all states, controls, guesses and solutions, four consecutive runs with and without guesses",
     "no test builds a Solver; a swapped foot or component is invisible without looking at every component of every exchange",
     ["src/Solver.cpp"],
     [M("initial state", "src/Solver.cpp Solver::Implementation::fillInitialState"), M("guesses", "src/Solver.cpp StateGuesses::get, ControlGuesses::get"),
      M("solution", "src/Solver.cpp Solver::Implementation::fillSolutionVectors, setStateFromVariables, setControlFromVariables")],
     "solve",
     "Rule: the Solver is interpreted through four runs with symbolic states, guesses and solutions against recording models of the framework; each vector sent and each object "
     "returned must have the value graph the layout of the problem prescribes, component by component, and the calls must come in the documented order.",
     [INST.replace("two or three", "four"), REALS, LIB],
     GVN + ": vectors exchanged with the framework against the layout",
     "four consecutive solves; guesses of the wrong size",
     ["MultipleShootingSolver::setInitialState, setGuesses, getSolution", "returned states and controls"])


rule("C13", "Animations show every requested state once, in order, as it is",
     "No visualising call draws or succeeds before a model is loaded, and only one model can be loaded. A state is shown with its base transform and joint values, and for every contact point, left foot "
     "first, its force at its position. A sequence is shown one picture per state, in order, up to the first state later than the end time when that is positive and completely when it is negative "
     "(as by default); with camera lists each state is seen from its own camera, lists of another length are refused, and the default camera is restored afterwards. A saved animation has one image per shown "
     "state, named with consecutive zero-padded numbers, and the video is made from exactly those at the images' average rate. An MPC animation shows, in the left half, the executed state and, in the right "
     "half, the plan it belongs to, on the window and on the images alike, with the same numbering; plans without states, or more plans than executed states, are refused. The light's direction and the visibility of the world frame apply to window and images.",
     ["inputs", "histories"], "all states, time stamps, end times and camera positions; sequences and plans of several lengths",
     "no test runs the visualizer (it needs a display and the time the motion takes)",
     ["src/Visualizer.cpp"],
     [M("scene", "src/Visualizer.cpp Visualizer::VisualizerImplementation::updateViz"), M("sequences", "src/Visualizer.cpp Visualizer::visualizeStates, visualizeStatesAndSaveAnimation"),
      M("MPC", "src/Visualizer.cpp Visualizer::visualizeMPCStatesAndSaveAnimation")], "visual",
     "Rule: the Visualizer is interpreted with a recording model of the drawing library; every picture, image file and command is an event carrying the value graph of the scene and the condition under which it happens; "
     "these must be the ones the list of states, the time stamps and the end time prescribe.",
     ["Robot of three joints; up to four contact points per foot, the same number in all states; sequences of 0, 1, 3 and 11 states, MPC runs of up to three plans.", REALS,
      LIB.replace("(their calls", "(their calls, those of the iDynTree visualizer included,"), "What the drawing library paints and what ffmpeg encodes is not analysed; nor is the pace of the display, nor an end time of exactly zero."],
     GVN + ": events of the drawing library with their guards and scenes",
     "all entry points, negative and positive symbolic end times, first and later pictures",
     ["calls of the drawing library, names of image files, video command"])
rule("C18", "A saved solution file holds exactly the data it was given",
     "Logger::saveSolutionVectorsToFile writes, for every state, the force and position of each contact point of each foot, the momentum, the position of the center of mass, the position and quaternion of the base, the joint "
     "values and the time, for every control the force and velocity controls of each contact point, the base and joint velocities and the time, and the computation times and cost values: one matrix per quantity under its own "
     "name, column i being instant i, written once. Quantities of an empty list are not written. The settings are written as one structure in which every number, flag, text, vector, list of points, list of limits and choice "
     "of method of the settings appears under the name of its field with its value (references given as functions of time and time ranges have no counterpart).",
     ["inputs"], "all values of states, controls, times and settings; several lengths, numbers of joints and of contact points",
     "the Logger is not even compiled when matio-cpp is absent, and no test reads a file back",
     ["src/Logger.cpp"],
     [M("vectors", "src/Logger.cpp Logger::saveSolutionVectorsToFile"), M("settings", "src/Logger.cpp populateSettingsStruct")], "logger",
     "Rule: the Logger is parsed against declarations of the part of matio-cpp it uses and interpreted with a recording model of them; every write is an event carrying the written variable, whose elements must be the value "
     "graphs of the data handed in, element by element and field by field (the fields are enumerated from the declaration of the settings structure, so a field added there and not written is reported).",
     ["Up to three instants, three joints, four contact points per foot; all states of one call have the same sizes.", REALS,
      LIB.replace("(their calls", "(their calls, those of matio-cpp included,"), "What matio-cpp puts on disk is not analysed."],
     GVN + ": events of the file library with the variables written",
     "all combinations of empty and non-empty lists, every field of the settings, every choice of method",
     ["variables written, their names and sizes"])

rule("C30", "The default settings leave nothing undefined",
     "Settings::Defaults(model), for a model with any number of joints, gives every number, flag, choice, text, vector, list and range of the settings a defined value; every reference and time varying weight is given, valid at "
     "all times, defined, and of the size of its quantity (unit quaternions and orthonormal rotations where orientations are meant). The stored model is the one given; the joint limits are that model's, one pair per joint, and wide open for a joint without limits. "
     "Weights, tolerances and minimum distances are not negative, gravity points down the vertical, both feet have as many contact points, and the load ratios of each foot, one per contact point, are not negative and sum to one.",
     ["inputs"], "all models with the default frames, all their joint limits",
     "the tests overwrite the defaults they depend on; a field left undefined happens to be zero or harmless in most runs",
     ["src/Settings.cpp", "include/DynamicalPlanner/Settings.h"], [M("default values, one assignment per field", "src/Settings.cpp Settings::Defaults")], "settings",
     "Rule: a definite-assignment analysis by value graph: the fields, enumerated from the declaration of the structure (a field added there and not set is reported), must not depend on storage that was never written, and must satisfy "
     "the relations stated.",
     ["Robots of two sizes stand for all models; their joints have one degree of freedom each; wide open means beyond a million.", LIB], GVN + ": definite assignment of every field, relations between defaults",
     "all fields of the settings structure, two robots, five choices of joints without limits", ["return value of Settings::Defaults"])

rule("C31", "Levi's operators have the value and the derivative of the operation",
     "In levi (OperatorsEvaluables.h, AccessorEvaluables.h and AdvancedConstructors.h in extern/levi/include/levi), an expression built by one of its operators (sum, difference, change of sign, product, power, quotient by a scalar, skew "
     "symmetric matrix, transpose, vee, the derivative of a matrix times a vector), as a part of another (row, column, element, block, conversion of type), or by composition (rows or columns put together, two matrices side by side or on top of "
     "each other) has the number of rows and columns of the operation from the moment it is built, evaluates to the operation on the current values of its operands, depends on the variables its operands depend on, "
     "and each of its column derivatives with respect to such a variable is the exact derivative of that column. Its rows, columns and elements are expressions of the corresponding part.",
     ["inputs"], "all values of the variables, all expressions as operands, which operand depends on which variable, sizes of the operands",
     "levi's tests compare a few expressions with finite differences at random points with loose tolerances",
     ["extern/levi/include/levi/OperatorsEvaluables.h", "extern/levi/include/levi/OperatorsBase.h", "extern/levi/include/levi/AccessorEvaluables.h", "extern/levi/include/levi/AdvancedConstructors.h"],
     [M("one class template per operator, with a derivative per pattern of dependence", "extern/levi/include/levi/OperatorsEvaluables.h")], "levi",
     "Rule: the class templates are instantiated for scalar, fixed-size, dynamic and mixed operands, as the compiler does; each instantiation is interpreted with operands that are general expressions (constant, linear and quadratic in the "
     "variables), used through their contract (a value and its exact derivative), and its value graphs are compared with those of the operation and of its derivative.",
     ["The operands fulfil the contract this property states for operators (assume-guarantee over the structure of the expression); levi's variables, constants, caches and registrations are part of the model, and so are the run-time squeezing and compilation of expressions, which are not analysed.",
      "An operator is asked for derivatives with respect to variables it depends on only: levi answers for the others itself. The matrices have up to four rows and columns.", LIB],
     GVN + ": assume-guarantee over the structure of expressions", "65 instantiations, four patterns of dependence for binary operators, up to three sizes each, every part of them",
     ["value, derivative and parts of an expression"])
