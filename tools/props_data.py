P("C01", "Trajectories and sample arrays behave like an ordered list of timed samples",
  "A trajectory returns its first sample before its start time, its last one from its final time on, and in between either the sample of the last node at or before the query (zero-order hold) or the straight line between the two neighbouring nodes (linear), whatever queries and edits (append, pop, erase-front, time shift, copy, assignment, sub-trajectory, data swap, data replacement) came before. Copies are independent, times and data stay paired, and a query on an empty trajectory is refused without harming later ones. Array arithmetic is element-wise and refuses operands of different length; the vector, matrix and array types hold the value they were built from or assigned.",
  ["inputs", "histories"], "all sample sets with non-decreasing times, all finite histories of edits and queries, all query times, both interpolation types",
  "The tests evaluate one or two fixed trajectories at a few times; the cached search index makes the result depend on the history of queries and edits, which no finite list of samples exhausts.",
  ["ct_core/include/ct/core/common/Interpolation.h", "ct_core/include/ct/core/types/trajectories", "ct_core/include/ct/core/types/arrays"],
  [("cached greatest-less-index search", "Interpolation::findIndex"), ("edit operations", "DiscreteTrajectoryBase"), ("element-wise operators", "DiscreteArray")],
  ["DiscreteTrajectoryBase::eval", "getIndexFromTime", "operator[]", "TimeArray"],
  "stateful model-based property testing: random edit/query histories against a list-of-samples model, shrunk on failure")

P("C02", "Mode schedules and switched systems always act in the scheduled mode",
  "A phase sequence reports exactly the phases, switch events, start/end times and total duration it was built from, and maps every time to the phase scheduled at that time (the first phase before the start, the last one after the end, the new phase from a switch time on). A switched continuous, discrete or linear system evaluates, linearises and propagates at each time exactly like the subsystem of the scheduled mode, with the control passed in or the attached controller; a clone does the same and is not affected by later changes to the original subsystems.",
  ["inputs"], "all phase sequences, mode assignments, subsystems, states, controls and query times (including exactly at, just before and just after switches)",
  "Tests evaluate one two-mode schedule at a handful of times; the guarantee is about every schedule and every time, including repeated modes and boundary times.",
  ["ct_core/include/ct/core/switching", "ct_core/include/ct/core/systems/continuous_time/SwitchedControlledSystem.h", "ct_core/include/ct/core/systems/discrete_time/SwitchedDiscreteControlledSystem.h", "ct_core/include/ct/core/systems/continuous_time/linear/SwitchedLinearSystem.h", "ct_core/include/ct/core/systems/discrete_time/linear/SwitchedDiscreteLinearSystem.h"],
  [("phase lookup", "PhaseSequence / ContinuousModeSequence / DiscreteModeSequence"), ("mode dispatch", "Switched*System::computeControlledDynamics, propagateControlledDynamics, getDerivative*, getAandB")],
  ["PhaseSequence::getPhaseFromTime", "SwitchedControlledSystem::computeControlledDynamics", "SwitchedDiscreteLinearSystem::getAandB"],
  "property-based testing: random schedules and subsystems, differential oracle (list-of-phases model, direct subsystem evaluation)")

P("C03", "Integrators deliver the solution of the ODE and log it faithfully",
  "Integrating a fixed number of steps with Euler, modified midpoint or Runge-Kutta 4 (odeint or the internal steppers) gives that method's result on the closed-loop system; every method meets its accuracy against a reference solution, the adaptive ones with the tolerances set by the user (a tighter tolerance takes effect). Recorded states and times are paired, start at the initial state, follow the grid (or the requested times), increase, and end at the returned state; observers and the substep recorder see every step with its own state, control and time. An integrator that was used before, reset or cleared, gives the same results as a fresh one, and the maximum-step limit is enforced on every run.",
  ["inputs", "histories"], "all smooth controlled ODEs of the generated family, initial states, start times, step sizes, step counts, integrator types, call kinds and histories of earlier calls",
  "Tests integrate an oscillator or two with fixed settings and mostly compare integrators with one another.",
  ["ct_core/include/ct/core/integration"],
  [("stepping", "StepperCTBase, StepperEulerCT, StepperRK4CT, StepperODEInt*"), ("logging", "Observer"), ("entry points", "Integrator::integrate_n_steps/integrate_const/integrate_adaptive/integrate_times"), ("limits", "MaxStepsEventHandler"), ("recording", "SubstepRecorder")],
  ["Integrator::integrate_*", "SubstepRecorder::getSubstates/getSubcontrols"],
  "property-based testing: generated nonlinear ODEs, independent reference steppers and high-accuracy reference solutions, fresh-versus-reused differential")

P("C04", "Symplectic integrators preserve the symplectic structure and solve the ODE",
  "The symplectic Euler and symplectic Runge-Kutta integrators propagate separable mechanical systems with their method's result (Euler exactly, Runge-Kutta to its order), record one paired sample per step including the initial one, preserve the symplectic two-form dq^dp for every step size, and keep the energy error bounded without drift over long runs of conservative systems.",
  ["inputs"], "all generated separable mechanical systems (quartic potentials, coupling), initial states, step sizes and step counts",
  "Tests compare one oscillator with a non-symplectic method; structure preservation is a statement about all initial conditions and step sizes.",
  ["ct_core/include/ct/core/integration/IntegratorSymplectic.h", "ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h", "ct_core/include/ct/core/integration/internal", "ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h"],
  [("step", "IntegratorSymplectic::integrate_n_steps"), ("split dynamics", "SymplecticSystem::computePdot/computeVdot")],
  ["IntegratorSymplecticEuler", "IntegratorSymplecticRk"],
  "property-based testing: generated Hamiltonian systems, closed-form step oracle, metamorphic invariants (two-form via central differences, energy bound)")

P("C05", "A discretised system propagates like the integrator it was configured with",
  "SystemDiscretizer propagates a state over one time step exactly like integrating the continuous-time system with the configured type, time step, number of substeps and the given control held constant, at the time n*dt, after any history of changing time step, substeps, type or system, of cloning and of other calls. Its recorded substates and subcontrols match the substeps, the attached discrete controller is used in closed loop, the user's continuous system keeps its own controller, clones are independent, and unsupported integrator types are refused.",
  ["inputs", "histories"], "all generated systems, configuration histories, clones, states, controls and step indices",
  "Tests discretise one linear system with fixed settings; the discretiser is reconfigured at run time by the solvers, so results depend on the history.",
  ["ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer.h", "ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h"],
  [("propagation", "SystemDiscretizer::propagateControlledDynamics"), ("reconfiguration", "setParameters, setIntegrationType, changeContinuousTimeSystem, clone")],
  ["SystemDiscretizer::propagateControlledDynamics", "propagateDynamics", "getSubstates"],
  "stateful model-based property testing: random reconfiguration histories against an independent reference integrator")

P("C06", "Discrete-time linearisations are the derivatives of the discrete-time map",
  "SensitivityIntegrator returns A = dx+/dx and B = dx+/du of the step it was given (all supported integrators including the symplectic ones, any number of substeps, any step index of a time-varying system). SensitivityApproximation returns, for each approximation kind, that kind's closed form on linear systems (Euler forward/backward, symplectic Euler, Tustin, matrix exponential incl. singular A), and an approximation of the true derivative of at least second order in the time step on nonlinear systems. Missing trajectory references or unsupported kinds are refused.",
  ["inputs"], "all generated nonlinear time-varying systems, trajectories, substep counts, time steps, step indices, integration and approximation kinds",
  "Tests compare a few constant systems; time dependence, substeps and singular matrices are never combined.",
  ["ct_core/include/ct/core/integration/sensitivity"],
  [("integrated sensitivities", "SensitivityIntegrator::getAandB, integrateSensitivityDX0/DU0"), ("closed-form approximations", "SensitivityApproximation::getAandB")],
  ["SensitivityIntegrator::getAandB", "SensitivityApproximation::getAandB"],
  "property-based testing: central-difference derivative of a reference step and closed forms as oracle")

P("C07", "Jacobians and Hessians returned by the derivative classes are the derivatives",
  "For every user function, numerical differentiation returns the value and the Jacobian within the finite-difference error (one- and two-sided, fixed and dynamic sizes, unaffected by earlier calls or clones), and CppAD differentiation returns value, Jacobian and weighted Hessian to rounding, also after cloning or re-recording with other sizes. System linearisers return dF/dx and dF/du of continuous and discrete dynamics (second-order systems with the exact kinematic rows). The LU and LDLT solvers used for differentiation solve the system they are given.",
  ["inputs", "histories"], "all generated analytic functions, dimensions, evaluation points, option combinations, earlier calls and clones; all well-conditioned linear systems",
  "Tests differentiate a fixed pair of functions at random points; dimensions, options and call histories are not varied.",
  ["ct_core/include/ct/core/math/DerivativesNumDiff.h", "ct_core/include/ct/core/math/DerivativesCppad.h", "ct_core/include/ct/core/systems/continuous_time/linear", "ct_core/include/ct/core/systems/linearizer", "ct_core/include/ct/core/internal"],
  [("numerical Jacobian", "DerivativesNumDiff"), ("automatic differentiation", "DerivativesCppad"), ("system linearisers", "DynamicsLinearizerNumDiff/AD, SystemLinearizer, DiscreteSystemLinearizer")],
  ["Derivatives::jacobian/hessian/forwardZero", "getDerivativeState/getDerivativeControl"],
  "property-based testing: random analytic functions with closed-form derivatives as oracle")

P("C08", "Linear systems, their system-theoretic tests and the oscillator are exact",
  "LTI and discrete LTI systems compute Ax+Bu and Cx+Du and return A and B as derivatives (also after setters, in clones); linear time-varying systems use the matrices of the given time. The controllability and observability matrices are [B AB ...] and [C; CA; ...]; the controllable/observable verdicts are right, and the discrete gramians solve their Lyapunov equations (or equal the truncated sums when limited). The second-order oscillator follows its documented parameters for every constructor and setter, and its parameter check accepts exactly the valid ones.",
  ["inputs"], "all generated matrices including structurally (un)controllable and (un)observable pairs, states, controls, times and oscillator parameters",
  "Tests use two or three fixed systems and never compare with the definition.",
  ["ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h", "ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h", "ct_core/include/ct/core/systems/continuous_time/linear/LinearSystem.h", "ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h"],
  [("structural tests", "computeControllabilityMatrix, computeObservabilityMatrix, isControllable, isObservable, computeControllabilityGramian, computeObservabilityGramian"), ("oscillator", "SecondOrderSystem")],
  ["LTISystem", "DiscreteLTISystem", "SecondOrderSystem::computeControlledDynamics"],
  "property-based testing: definition-level oracles and systems constructed with known rank")

P("C09", "Controllers compute the control law and closed loops use it",
  "The state-feedback controller returns u = uff + K (x - xref) with the parts of the queried time (interpolated) or index, before, between and after its nodes, after any history of updates, copies and reference extraction; inconsistent updates are refused. The PID controller follows its discrete law (proportional, integral, derivative, limits, anti-windup, reset, setpoint changes); constant, step and trajectory controllers return what they were given. A continuous or discrete system with a controller computes its dynamics with that controller's control; a copied or cloned system owns an independent copy of the controller.",
  ["inputs", "histories"], "all generated feedback laws, time grids, PID parameters and error histories, systems, states, times, copies and updates",
  "Tests evaluate one or two fixed controllers; copies, histories and interpolation at node boundaries are not explored.",
  ["ct_core/include/ct/core/control", "ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h", "ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h"],
  [("feedback law", "StateFeedbackController::computeControl/update"), ("PID law", "PIDController::computeControl"), ("closed loop", "ControlledSystem::computeDynamics, DiscreteControlledSystem::propagateDynamics, clone")],
  ["computeControl", "computeDynamics", "propagateDynamics"],
  "stateful model-based property testing: random update/copy/query histories against independent control-law models")

P("C10", "Activations, sensor noise models and grids follow their definition",
  "Single, linear, radial-basis, periodic and barrier activations return the documented value and active flag at every time (barriers also first and second derivatives), no matter whether they were built by constructor or read from an info file; inconsistent parameters are refused. Quantisation noise outputs whole quanta per channel and never lets the accumulated error exceed its bound; uniform and Gaussian noise stay in range and have the requested mean and spread. linspace and TimeArray are the equidistant grids of the requested size including both ends.",
  ["inputs", "histories"], "all generated activation parameters, times, info files, quanta, value histories and grid sizes",
  "Only a few activations are exercised by tests, none against the definition.",
  ["ct_core/include/ct/core/common/activations", "ct_core/include/ct/core/common", "ct_core/include/ct/core/types/arrays/TimeArray.h"],
  [("activations", "computeActivation, isActive, loadConfigFile"), ("noise", "QuantizationNoise, UniformNoise, GaussianNoise"), ("grids", "linspace, TimeArray")],
  ["ActivationBase::computeActivation/isActive", "noisify", "linspace"],
  "property-based testing: closed-form oracles, constructor-versus-file differential, history invariants")

P("C11", "Settings objects hold exactly what the info file says",
  "Loading a settings file sets every key that is present to the value in the file, and leaves every absent optional key at its default, independently of which other keys are present: scalars, matrices (with scaling), nonlinear-optimal-control settings with line search, solver, discretisation and threading options, direct-multiple-shooting settings with their solver sections, MPC settings and filter settings. Required keys that are absent are refused, unknown or inconsistent values are refused by the parameter check, and the derived quantities (number of stages, substep time, number of shots) follow from the values.",
  ["inputs"], "all subsets of keys and all values of the generated ranges in each settings file",
  "Tests load one fixed file with all keys present; the guarantee is about every subset and combination of keys.",
  ["ct_core/include/ct/core/common/InfoFileParser.h", "ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp", "ct_optcon/include/ct/optcon/dms/dms_core/DmsSettings.h", "ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h", "ct_optcon/include/ct/optcon/mpc/MpcSettings.h", "ct_optcon/include/ct/optcon/filter/FilterSettings.h"],
  [("loading", "load, loadScalar, loadMatrix, loadMatrixCF"), ("consistency", "parametersOk, computeK")],
  ["NLOptConSettings::load", "DmsSettings::load", "mpc_settings load", "loadMatrix"],
  "property-based testing: generated info files (random key subsets) with the generating values as oracle")

P("C12", "Cost functions evaluate the sum of their terms with exact derivatives",
  "A cost function composed of terms (linear, quadratic, mixed, tracking, smooth-absolute, state barrier, with or without time activation, intermediate or final) evaluates at every state, control and time to the sum of the terms active at that time, each with its documented formula; its first and second derivatives with respect to state and control, and the mixed one, are the derivatives of that sum. A cost function read from an info file equals the one composed in code from the same terms, weights and names; the simple quadratic cost follows its formula. Inconsistent files are refused.",
  ["inputs"], "all generated sums of terms, weights, references, activations, generated cost files, states, controls and times",
  "Tests compare a few fixed terms with automatic differentiation; activation, file loading and combinations are not covered.",
  ["ct_optcon/include/ct/optcon/costfunction"],
  [("evaluation and derivatives", "CostFunctionAnalytical, CostFunctionQuadratic, CostFunctionQuadraticSimple"), ("terms", "costfunction/term/*"), ("file loading", "loadFromConfigFile")],
  ["evaluateIntermediate/evaluateTerminal", "stateDerivative*/controlDerivative*/stateControlDerivative*", "loadFromConfigFile"],
  "property-based testing: random sums of terms against an independent closed-form model; file-versus-code differential")

P("C13", "Cost functions keep their meaning under clones, shifts and updates",
  "Over any history of evaluations, clones, time shifts, reference updates, weight updates and derivative self-tests, each cost function evaluates as the model with exactly the changes applied to it: a clone starts equal to its origin and is independent of it afterwards, a self-test or a numerical derivative leaves state, control and time as they were, and the self-test accepts correct derivatives.",
  ["histories"], "all generated histories over up to five cost functions",
  "Tests clone once and evaluate; interleavings of clones and updates are not explored.",
  ["ct_optcon/include/ct/optcon/costfunction"],
  [("copying", "clone of cost functions and terms"), ("updates", "updateReferenceState, updateReferenceControl, updateFinalState, shiftTime, setWeights"), ("self-test", "stateDerivativeIntermediateTest, controlDerivativeIntermediateTest")],
  ["clone", "shiftTime", "updateReferenceState", "evaluateIntermediate"],
  "stateful model-based property testing: random histories against a pure model")

P("C14", "Constraint containers return the stacked constraints they were given",
  "A constraint container evaluates, at the state, control and time set last, to the stacked values of its constraints in the order they were added (box constraints on selected components, terminal constraints, obstacle constraints, user constraints), with the matching bounds, counts, violations of the lower and upper bounds, dense Jacobians, and a sparse Jacobian that together with its sparsity pattern and non-zero count is the same matrix. Clones are equal and independent; use before initialisation, or after adding further constraints, is refused, and so are boxes with lower above upper bound or wrong sizes. A switched container is, at every time, the container of the scheduled mode, and its terminal constraint is that of the final phase.",
  ["inputs", "histories"], "all generated constraint sets, add/initialise/clone/evaluate histories, mode schedules, states, controls and times",
  "Tests compare two constraint sets at random points; sparse patterns, switched containers and histories are not covered.",
  ["ct_optcon/include/ct/optcon/constraint"],
  [("containers", "ConstraintContainerAnalytical, ConstraintContainerBase, LinearConstraintContainer"), ("terms", "constraint/term/*"), ("switched containers", "SwitchedLinearConstraintContainer")],
  ["evaluateIntermediate/evaluateTerminal", "jacobian*Sparse*/sparsityPattern*", "get*BoundsViolation*"],
  "stateful model-based property testing: random histories against a stacked closed-form model, dense-versus-sparse differential")

P("C16", "Riccati and LQR solvers return the optimal gain and value or refuse",
  "The infinite-horizon LQR and the continuous-time Riccati solver (direct and iterative) return, for stabilisable systems, a symmetric solution of the Riccati equation whose gain is the optimal stabilising one, with and without diagonal weights. The discrete-time Riccati step returns the minimiser of the one-step Bellman equation, and the discrete-time solver its fixed point, or it refuses when it does not converge. The finite-horizon time-varying LQR returns at each stage the optimal feedback of the remaining horizon, for given or for system-supplied (time-varying) linearisations, and refuses trajectories of the wrong length.",
  ["inputs"], "all generated stabilisable systems, weights (general, diagonal, multiples of the identity), rank-deficient inputs, horizons",
  "Tests solve two or three fixed systems; residual, optimality and stability must hold for all.",
  ["ct_optcon/include/ct/optcon/lqr"],
  [("continuous-time Riccati", "CARE, LQR"), ("discrete-time Riccati", "DynamicRiccatiEquation, DARE"), ("finite horizon", "FHDTLQR")],
  ["LQR::compute", "CARE::solve", "DARE::computeSteadyStateRiccatiMatrix", "FHDTLQR::designController"],
  "property-based testing: equation residual, closed-loop eigenvalues, and dense least-squares solution of the stacked problem as oracle")

P("C17", "The linear-quadratic solver returns the minimiser of the stacked problem",
  "For every convex time-varying linear-quadratic problem (affine dynamics, cross terms, any number of stages, single or several inputs) the Gauss-Newton Riccati solver returns the states, controls, feedforward and feedback of the minimiser; the value of either Hessian correction setting only changes problems whose Hessian is below the threshold, in the documented way. Solving stage by stage equals solving at once, and reusing the solver for a different problem or horizon equals a fresh solver. The problem container stores box and general constraints at the stage and relative to the nominal trajectory given, and the Riccati solver refuses constrained problems. A problem built from a linear system and quadratic costs is the discretised problem.",
  ["inputs", "histories"], "all generated convex problems, stage counts, settings, reuse sequences and constraint sets",
  "Tests solve a handful of fixed problems and mostly compare two solvers that cannot both be built here.",
  ["ct_optcon/include/ct/optcon/solver/lqp", "ct_optcon/include/ct/optcon/problem/LQOCProblem.hpp", "ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp"],
  [("Riccati recursion", "GNRiccatiSolver::designController, computeCostToGo, computeStatesAndControls"), ("problem container", "LQOCProblem setters")],
  ["GNRiccatiSolver::solve", "getSolutionState/getSolutionControl/getSolutionFeedback", "LQOCProblem::setInputBoxConstraint(s)", "setGeneralConstraints"],
  "property-based testing: dense solution of the stacked problem and an independent clamped recursion as oracle")

P("C19", "The nonlinear solver reaches the optimum of LQ problems in one iteration",
  "For every time-varying affine system with quadratic cost (cross terms, moving references), given as continuous-time or discrete-time problem, every algorithm of the nonlinear solver (iLQR, multiple-shooting iLQR, open- and closed-loop single shooting, GNMS with any shot length), integrator, number of substeps, linearisation source and initial guess reaches the optimum of the discretised problem with its first full iteration and stays there; the same holds for the two-phase iteration and for real-time (MPC) iterations, also when the initial state changes between the two phases. Policy, trajectories, time stamps, feedback gains, cost, horizon, stage count and the reported affine model describe that optimum.",
  ["inputs", "histories"], "all generated problems, settings, guesses, iteration modes and initial-state changes",
  "Tests solve one or two fixed problems per algorithm; the combinations of algorithm, shot length, integrator and iteration mode are not covered.",
  ["ct_optcon/include/ct/optcon/nloc", "ct_optcon/include/ct/optcon/solver", "ct_optcon/include/ct/optcon/system_interface"],
  [("iterations", "SingleShooting, MultipleShooting"), ("backend", "NLOCBackendBase, NLOCBackendST"), ("discretisation", "OptconContinuousSystemInterface, OptconDiscreteSystemInterface")],
  ["NLOptConSolver::runIteration/prepareIteration/finishIteration", "prepareMPCIteration/finishMPCIteration", "getSolution", "getStateTrajectory/getControlTrajectory", "getCost"],
  "property-based testing: dense solution of the discretised linear-quadratic problem as oracle")

P("C20", "Each nonlinear-solver iteration is the Gauss-Newton step and reported as such",
  "For every nonlinear time-varying problem, algorithm, shot length, integrator and line search, each iteration of the nonlinear solver moves the iterate by the Gauss-Newton step of the algorithm: the linear-quadratic solution around the current iterate, scaled by the step size, rolled out shot by shot (with feedback for the closed-loop algorithms). The simple line search takes the first step size of its sequence that lowers the merit, any line search never increases the merit, and when no step lowers it the iterate and its defects stay as they are. The returned trajectory starts at the initial state and is the rollout of its controls inside each shot; cost, defects, merit, update norms and step sizes reported are those of the returned iterate. Where the iterations come to rest, the first-order optimality conditions hold.",
  ["inputs", "histories"], "all generated nonlinear problems, settings, guesses, and the first six iterations of each",
  "Tests check that the cost of one system decreases; a wrong direction, defect or report usually still converges.",
  ["ct_optcon/include/ct/optcon/nloc", "ct_optcon/include/ct/optcon/solver"],
  [("linear-quadratic approximation", "executeLQApproximation, extractSolution"), ("step", "lineSearch, performLineSearch, executeLineSearch, acceptStep, rolloutSingleShot"), ("report", "printSummary, getSummary")],
  ["NLOptConSolver::runIteration", "solve", "getSolution", "getBackend()->getSummary()", "getCost"],
  "model-based property testing: every iteration compared with an independent reference implementation; optimality conditions at rest")

P("C21", "The multi-threaded solver equals the single-threaded one under any schedule",
  "For every problem, setting and sequence of operations (iterations, two-phase and real-time iterations, changes of initial guess, initial state and horizon, destruction), the multi-threaded backend with any number of threads returns, under every scheduling of its workers, the iterates, step sizes, feedback gains, costs, defects and verdicts of the single-threaded backend; its workers neither race on shared data nor deadlock, and every call returns.",
  ["schedules", "histories"], "random delays of every dynamics, derivative and cost evaluation in 2 to 6 workers, over generated operation sequences",
  "Tests run one problem with four threads on whatever schedule occurs; the outcome must not depend on it.",
  ["ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp", "ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp", "ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp"],
  [("task hand-over", "NLOCBackendMP::runWorkers, threadWork, shutdownRoutine"), ("work distribution", "computeLQProblemWorker, rolloutShotWorker, lineSearchWorker")],
  ["NLOptConSolver with nThreads > 1: runIteration, prepareMPCIteration/finishMPCIteration, getSolution, getBackend()->getSummary()"],
  "property-based testing with schedule perturbation (random delays) under thread sanitizer, differential against the single-threaded backend")

P("C26", "State estimators compute the Kalman prediction and correction of their model",
  "For every (nonlinear, time-varying) system and measurement model, noise matrices and history of predictions and updates, the extended Kalman filter's estimate and covariance are those of the prediction/correction recursion linearised at the current estimate and time; on linear models it equals the least-squares estimate from all measurements. The unscented filter gives the moments of its sigma points and on linear models equals the linear filter; the steady-state filter applies the stationary gain of its model. The continuous-time system model integrates and linearises the controlled system between grid times; disturbed systems add the disturbance where documented, and their clones are equal and independent. Initial estimates, noise changes and measurement times take effect as given; updates never yield an asymmetric or indefinite covariance.",
  ["inputs", "histories"], "all generated models, noise matrices, measurement sequences, time steps and mid-history changes",
  "Tests run one oscillator and look at the final error of the estimate; a wrong gain, time or covariance still converges.",
  ["ct_optcon/include/ct/optcon/filter"],
  [("filters", "ExtendedKalmanFilter, UnscentedKalmanFilter, SteadyStateKalmanFilter"), ("models", "CTSystemModel, LTIMeasurementModel, DisturbedSystem, InputDisturbedSystem")],
  ["predict/update", "getEstimate", "getCovarianceMatrix", "CTSystemModel::computeDynamics/computeDerivativeState"],
  "model-based property testing: independent filter recursions and the batch least-squares estimate as oracle")

P("C28", "Robot building blocks obey their closed-form definitions",
  "Joint states and accelerations keep positions and velocities in their own slots, compare accordingly, and their limit checks and clamping respect the limits given (also those of the shipped robots); wrapping a position changes it by multiples of two pi into the allowed interval. Point-to-point trajectory generators start and end at rest at the given positions and respect velocity and acceleration bounds. Actuator models implement their differential equations and invert them, the joint PID controller equals one PID per joint, the selection matrix routes torques, the frame Jacobian transforms Jacobians consistently with finite differences of the pose, and the ellipsoid, plane and plane estimator agree with their implicit equations and least-squares definition.",
  ["inputs", "histories"], "all generated joint states, limits, moves, actuator parameters, controller histories, kinematic chains, ellipsoids, planes and contact points",
  "The tests that exist construct these objects and mostly check that nothing throws.",
  ["ct_rbd/include/ct/rbd/state/JointState.h", "ct_rbd/include/ct/rbd/common", "ct_rbd/include/ct/rbd/robot/actuator", "ct_rbd/include/ct/rbd/robot/control", "ct_rbd/include/ct/rbd/robot/jacobian", "ct_core/include/ct/core/geometry"],
  [("joint state", "JointState, JointAcceleration, joint limits of the models"), ("trajectories", "SingleDOFTrajectoryGenerator, SimpleArmTrajectoryGenerator"), ("actuation", "SEADynamicsFirstOrder, SecondOrderActuatorDynamics, JointPositionPIDController, SelectionMatrix"), ("geometry", "FrameJacobian, Ellipsoid, Plane, PlaneEstimator")],
  ["JointState::checkPositionLimits, toUniquePosition", "SingleDOFTrajectoryGenerator::getReferencePosition", "computeActuatorDynamics/computeControlOutputInverse", "FrameJacobian::getJacobian*"],
  "property-based testing: closed forms, finite differences and models fed the same call history as oracle")

P("C22", "A reconfigured nonlinear solver behaves like one built for the new problem",
  "After any history of changes (settings, horizon, initial state, initial guess, cost, dynamics, linearisation, whole problem; also refused changes and abandoned iterations), the nonlinear solver, for continuous-time and discrete-time problems, single- and multi-threaded, produces from the next initial guess on the same policies, costs, step sizes and verdicts as a solver newly built with the resulting problem and settings. Initial guesses longer than the horizon are cut, shorter ones are refused; refused changes leave the solver as it was.",
  ["histories"], "all generated histories of configuration changes and iterations",
  "Tests build a solver, use it once or twice and throw it away; stale state after reconfiguration does not show.",
  ["ct_optcon/include/ct/optcon/nloc", "ct_optcon/include/ct/optcon/solver", "ct_optcon/include/ct/optcon/system_interface"],
  [("reconfiguration", "NLOCBackendBase::configure, changeTimeHorizon, changeInitialState, changeCostFunction, changeNonlinearSystem, changeLinearSystem"), ("solver front end", "NLOptConSolver::setProblem, configure")],
  ["NLOptConSolver::configure/changeTimeHorizon/changeInitialState/changeCostFunction/setProblem/setInitialGuess", "runIteration", "getSolution"],
  "stateful property testing: random reconfiguration histories, differential against a newly built solver")

P("C23", "MPC plans with the documented horizon, warm start, prediction and time stamps",
  "For every sequence of prepare and finish calls on an external clock (early, late, simultaneous), delays, horizon mode, settings update, replaced horizon strategy and reset, each MPC iteration plans over the horizon its mode prescribes (floored and capped as documented, end of the horizon reported), starts from the last policy shifted by the elapsed time and padded or cut to the horizon (or from the initial policy on cold start), predicts the measured state with the last policy, or the controller given, over the expected delay, and returns the policy of the solver for that problem together with the time at which it starts, including post-truncation. The first policy is only shifted by a delay that was measured. Contradicting settings are refused. Warm-start policies keep increasing time stamps on the grid of the solver.",
  ["histories", "inputs"], "all generated call times, delays, modes, policies, settings updates and resets",
  "Tests run a constant-horizon loop on the wall clock and check that it does not throw.",
  ["ct_optcon/include/ct/optcon/mpc"],
  [("iteration", "MPC::prepareIteration, finishIteration, doForwardIntegration, resetMpc, updateSettings"), ("timing", "MpcTimeKeeper, MpcTimeHorizon"), ("warm start", "StateFeedbackPolicyHandler, PolicyHandler")],
  ["MPC::finishIteration (policy, time stamp)", "timeHorizonReached", "timeSinceFirstSuccessfulSolve", "MpcTimeKeeper::computeNewTimings", "StateFeedbackPolicyHandler::designWarmStartingPolicy/truncateSolutionFront"],
  "model-based property testing: random MPC histories on an external clock against an independent model with a shadow solver")

P("C24", "The multiple-shooting program is the discretised optimal control problem",
  "For every continuous-time optimal control problem, number of shots, integration step, input spline, quadrature, integrator, set of box, general and terminal constraints, and every order of updating the variables, the initial state, the time horizon and the guess and of evaluating the program, direct multiple shooting hands to an NLP solver the program it documents: variables are the node states and inputs; the cost is the quadrature of the stage cost plus the terminal cost; constraints are the initial state, the continuity of every shot and the constraints at every node, with their bounds; the gradient and the sparse Jacobian (pattern and values) are the exact derivatives of the cost and constraints reported, including no missing or misplaced entries. A changed initial state or horizon takes effect with the next variables. Input splines, their derivatives and the time grid are consistent. Guesses are stored as given, refused if they do not match the grid, interpolated between initial and final state, and zero if none was given.",
  ["inputs", "histories"], "all generated problems, discretisation settings, constraint sets, variables and call histories",
  "Tests solve one oscillator problem and look at the solution; a wrong derivative, weight or index only slows the NLP solver down or moves the optimum.",
  ["ct_optcon/include/ct/optcon/dms", "ct_optcon/include/ct/optcon/nlp"],
  [("transcription", "DmsProblem, ShotContainer, SensitivityIntegratorCT, ContinuityConstraint, InitStateConstraint, ConstraintDiscretizer"), ("cost", "CostEvaluatorSimple, CostEvaluatorFull"), ("variables and splines", "OptVectorDms, OptVector, TimeGrid, LinearSpliner, ZeroOrderHoldSpliner")],
  ["Nlp::evaluateCostFun/evaluateCostGradient/evaluateConstraints/evaluateConstraintJacobian", "Nlp::getSparsityPatternJacobian/getConstraintBounds/getVariableBounds/getInitialGuess", "DmsProblem::getStateSolution/getInputSolution/getTimeSolution", "SplinerBase::evalSpline and derivatives"],
  "model-based property testing: random multiple-shooting problems under random histories of updates and evaluations against an independent transcription and its finite differences")

P("C25", "NLP solvers get the user's program; DMS solutions are feasible and optimal",
  "For every user-defined nonlinear program (any number of constraint blocks with sparse Jacobians and Hessians in any order, variable and constraint bounds), the quantities assembled for the solver - counts, bounds, sparse Jacobian, lower triangle of the Hessian of the Lagrangian without duplicate entries - are those of the whole program at the variables handed over last. A program IPOPT reports as solved (also again with a changed cost, new solver settings or a warm start) has a feasible solution, and the solution and multipliers stored certify its optimality. For every optimal control problem the DMS solver reports as solved, also after the initial state, time horizon or guess were changed, the node states are the simulated states of the node inputs from the current initial state over the current horizon, input bounds hold, the solution satisfies the first-order optimality conditions of the discretised problem, and trajectories, policy and time grid agree; convex programs are solved.",
  ["inputs", "histories"], "all generated programs, starting points, problems and re-solve histories",
  "Tests solve two tiny programs and one oscillator problem.",
  ["ct_optcon/include/ct/optcon/nlp", "ct_optcon/include/ct/optcon/dms/dms_core/DmsSolver.h"],
  [("program", "Nlp, DiscreteConstraintContainerBase, DiscreteConstraintBase, OptVector"), ("solver", "IpoptSolver, NlpSolverSettings"), ("optimal control", "DmsSolver, DmsProblem")],
  ["Nlp::evaluateHessian/getSparsityPatternHessian/evaluateConstraintJacobian", "OptVector::getOptimizationVars, getLambdaVars, getBoundMultipliers after IpoptSolver::solve", "DmsSolver::solve/getSolution/getStateTrajectory/getControlTrajectory"],
  "property testing: random user-defined programs against dense references; solutions of random convex programs and optimal control problems certified by KKT conditions and simulation")

P("C27", "Generated robot models obey rigid-body mechanics of the described robots",
  "For every joint configuration, velocity, acceleration, base motion, gravity and external force, the generated models of HyA, the inverted and double inverted pendulum, the quadrotor with load and HyQ implement the mechanics of the robot their kinematic and inertial description specifies: transforms and frame poses are those of the kinematic chain, Jacobians are the derivatives of the poses, the joint-space inertia matrix is symmetric positive definite and equals the mass matrix of the chain (its factorisation and inverse match), inverse dynamics is the Newton-Euler recursion and the exact inverse of forward dynamics, and results do not depend on what the object evaluated before.",
  ["inputs", "histories"], "all generated configurations, motions, forces and evaluation histories of the five shipped robots",
  "Existing tests of these models compare one function with another generated one at a few random states, or need a dependency that is not installed.",
  ["ct_models/include/ct/models/HyA/generated", "ct_models/include/ct/models/HyQ/generated", "ct_models/include/ct/models/InvertedPendulum/generated", "ct_models/include/ct/models/DoubleInvertedPendulum/generated", "ct_models/include/ct/models/QuadrotorWithLoad/generated", "ct_rbd/include/ct/rbd/robot/generated"],
  [("kinematics", "MotionTransforms, ForceTransforms, HomogeneousTransforms, Jacobians"), ("dynamics", "ForwardDynamics, InverseDynamics, JSIM, InertiaProperties")],
  ["HomogeneousTransforms/MotionTransforms/ForceTransforms update", "Jacobians update", "ForwardDynamics::fd", "InverseDynamics::id, G_terms, C_terms, id_fully_actuated", "JSIM::operator(), computeL, computeInverse"],
  "differential property testing: generated states against an independent Newton-Euler model of the committed robot description")

P("C29", "Shipped derivative code and analytic kinematics match the models they come from",
  "For every state, input and direction: the generated HyQ forward dynamics with ground contact equals the rigid-body model with the documented contact law; the generated HyQ, HyA and pendulum linearisations, inverse dynamics Jacobians, foot kinematics Jacobians and the HyA inverse dynamics Hessian are the derivatives of the rigid-body model, forward and reverse versions alike, for originals and clones; the quadrotor's dynamics are those of a rigid body with thrust along its axis, and its analytic linearisation is the derivative of them. For every non-singular configuration of the HyA and IRB4600 arms, the analytic inverse kinematics of its pose contains that configuration, every returned solution reaches the pose, and a pose out of reach has no solution.",
  ["inputs"], "all generated states, inputs, directions and arm configurations",
  "Existing tests check a handful of random states, or need dependencies that are not installed.",
  ["ct_models/include/ct/models/HyQ/codegen", "ct_models/include/ct/models/HyA/codegen", "ct_models/include/ct/models/InvertedPendulum/codegen", "ct_models/include/ct/models/Quadrotor", "ct_models/src/Quadrotor", "ct_models/src/HyA/transform6d.cpp", "ct_models/src/Irb4600/transform6d.cpp"],
  [("derivative code", "HyQForwardZero, *LinearizedForward/Reverse, *InverseDynJac*, HyQForwardKinJac*, HyAInverseDynHessian"), ("quadrotor", "Quadrotor, QuadrotorLinear, quadrotor_ode, A_quadrotor, B_quadrotor"), ("inverse kinematics", "ComputeIk, ComputeFk")],
  ["getDerivativeState/getDerivativeControl", "jacobian/hessian/forwardZero", "Quadrotor::computeControlledDynamics", "ComputeIk against ComputeFk"],
  "differential property testing: generated states and directions against finite differences of an independent rigid-body model; inverse/forward kinematics round trips")

P("C30", "The control simulator advances by one control period per iteration",
  "For every system, simulation step, control period, stepper, number of runs and stopping point: after its k-th iteration the control simulator reports time k times the control period, and its state is the initial state integrated with the chosen stepper over full simulation steps plus one shorter step for the rest of each period; every run starts again from the initial state, the number of periods never exceeds the simulated duration, stop() ends the run after the current period, finish() returns only when both threads have ended, controller updates come as prepare/finish pairs with non-decreasing time, a copy simulates its own clones of system and controller, and meaningless step sizes are refused.",
  ["inputs", "schedules", "histories"], "all generated systems, step sizes, steppers, repeated runs, stop points and copies; whatever interleaving of the two threads the machine produces",
  "No existing test runs the simulator.",
  ["ct_core/include/ct/core/simulation/ControlSimulator.h"],
  [("simulator", "ControlSimulator: simulate, simulateSystem, simulateController, stop, finish, copy")],
  ["simulateSystem full and remainder steps", "integration type handed to the thread", "copy constructor", "stop flag"],
  "property-based testing of generated runs against a reference stepper; the oracle is independent of elapsed time")

P("C31", "Poses, robot states and kinematics agree in every representation",
  "For every history of setting, copying and reading a rigid-body pose, rigid-body state or robot state (quaternion or Euler storage, from rotation matrices, quaternions, angles, homogeneous transforms or state vectors, with and without actuator states), all accessors describe one and the same rotation, position, velocities and joint state: rotation matrix, quaternion and Euler angles agree, vectors, matrices and gravity are rotated by that rotation, poses are expressed correctly in another pose's frame, state vectors round-trip in their documented order, and the state-update vectors of an acceleration are the time derivative of the state vector. For every robot configuration, base pose and end effector, the kinematics returns the end-effector positions, orientations, velocities and Jacobians of the described robot in base and world frames, the link transforms by id, and maps end-effector wrenches to the wrench on the carrying link that does the same work, for originals, copies and clones alike.",
  ["inputs", "histories"], "all generated rotations away from the Euler-angle singularity, positions, velocities, joint states, wrenches and operation histories; HyA and HyQ as robots",
  "The existing tests of these classes need kindr, which is not installed, and sample a few states.",
  ["ct_rbd/include/ct/rbd/state", "ct_rbd/include/ct/rbd/robot/Kinematics.h", "ct_rbd/include/ct/rbd/robot/RobCoGenContainer.h", "ct_rbd/include/ct/rbd/robot/robcogen/robcogenHelpers.h", "ct_rbd/include/ct/rbd/common/SpatialForceVector.h"],
  [("poses", "RigidBodyPose"), ("states", "RigidBodyState, RBDState, RBDAcceleration, FixBaseRobotState, FloatingBaseRobotState"), ("kinematics", "Kinematics, RobCoGenContainer, EndEffector, robcogenHelpers")],
  ["RigidBodyPose setters, getters, rotate*, inReferenceFrame, computeGravityB", "to/fromStateVector*", "toStateUpdateVector*", "getEE*In*, getJacobianBaseEEbyId, mapForceFrom*ToLink"],
  "stateful property testing of generated histories against a rotation-matrix model, and differential testing of the kinematics against an independent model of the committed robot description")

P("C32", "Robot dynamics, contacts and rigid-body systems obey the equations of motion",
  "For every motion, torque, external force, contact set and object history: forward and inverse dynamics of fixed- and floating-base robots satisfy the equations of motion of the described robot with gravity expressed in the base; projected forward dynamics satisfies them together with contact forces that act only at the feet in contact and leave those feet without acceleration, and the torques of projected inverse dynamics reproduce the motion; the constraint Jacobian, its time derivative and its null-space projector are those of the feet in contact; the soft contact model returns the documented spring-damper forces, smoothing included, and none at inactive end effectors. Fixed- and floating-base systems (Euler and quaternion states, end-effector forces as inputs, contact model, first- and second-order actuators, symplectic splitting, clones) return exactly the time derivative these laws give for their state layout, a consistent actuator state holds the robot, and the rigid-body linearizer returns the derivatives of the system.",
  ["inputs", "histories"], "all generated motions, torques, forces, contact sets, contact parameters, actuators and copy/clone histories of HyA and HyQ (contact sets with a well-conditioned constraint)",
  "The existing tests of these classes need kindr, which is not installed, and sample a few states.",
  ["ct_rbd/include/ct/rbd/robot/Dynamics.h", "ct_rbd/include/ct/rbd/robot/ProjectedDynamics.h", "ct_rbd/include/ct/rbd/robot/jacobian", "ct_rbd/include/ct/rbd/robot/actuator", "ct_rbd/include/ct/rbd/physics/EEContactModel.h", "ct_rbd/include/ct/rbd/systems"],
  [("dynamics", "Dynamics, ProjectedDynamics, ConstraintJacobian, FrameJacobian"), ("contact", "EEContactModel"), ("systems", "FixBaseFDSystem, FixBaseFDSystemSymplectic, FixBaseVelSystem, FixBaseAccSystem, FloatingBaseFDSystem, ProjectedFDSystem"), ("linearisation", "RbdLinearizer")],
  ["FixBaseForwardDynamics, FixBaseID, FloatingBaseForwardDynamics, FloatingBaseFullyActuatedID", "ProjectedForwardDynamics, ProjectedInverseDynamics, getContactForcesInBase", "computeContactForces", "computeControlledDynamics of every system", "getDerivativeState, getDerivativeControl"],
  "differential property testing: generated motions and object histories against an independent Newton-Euler model, constrained by a dense KKT reference")
