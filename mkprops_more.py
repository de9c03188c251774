p('C05', 'Mapping adapters are compositions of the mapping they wrap',
  'A narrowed mapping is the original one with some inputs fixed to given values and some outputs dropped; a reordered one is the original with inputs and outputs permuted; a diagonally scaled or normalized one is D f(D x), normalized to a diagonal derivative of magnitude 1 where that is possible and rejected otherwise. This holds for any nesting; element identifiers follow their elements, widening undoes narrowing and un-ordering undoes ordering, malformed index lists are rejected, and observers see each argument with its value.',
  ['inputs'], 'all mappings, sizes (empty and non-square included), index sets, permutations, scale factors and nestings of adapters',
  'No test uses a mapping adapter.', ['alg/VectorNarrowingMapping.h', 'alg/VectorReorderingMapping.h', 'alg/DiagonalMapping.h', 'alg/MappingNormalizer.h', 'alg/interfaces/VectorMapping.h'],
  [('index lists of enabled inputs and outputs', 'alg/VectorNarrowingMapping.h')], ['map, holdsParam, ids, observers'])
p('C06', 'Numerical Jacobians are correct, cheap and never stale',
  'The finite-difference Jacobian of any mapping approximates its derivative at the point asked and has no elements where the derivative is identically zero; the grouped-column evaluation over a known sparsity pattern gives exactly the same values with the announced, never larger, number of evaluations. A trimmer keeps exactly the elements its definition (band width, threshold relative to the largest element) names. A Jacobian provider returns the Jacobian of its current mapping at the current point, trimmed by its current trimmer, whatever was evaluated, reset or replaced before.',
  ['inputs', 'histories'], 'all mappings, sparsity patterns, points, trimmer settings and histories of a provider',
  'Jacobian code is only exercised by manual tests that print; none compares with a derivative, and none changes trimmer or mapping between evaluations.',
  ['alg/computeJacobian.h', 'alg/SparseJacobianCalculator.h', 'alg/DefaultJacobianProvider.h', 'alg/SparseJacobianProvider.h', 'alg/JacobianWidthBasedTrimmer.h', 'alg/JacobianThresholdBasedTrimmer.h'],
  [('column grouping from the stencil', 'alg/SparseJacobianCalculator.h'), ('cached Jacobian, stencil and trimmer of the provider', 'alg/SparseJacobianProvider.h')], ['evalJacobian, numericalJacobian'])
p('C07', 'Newton solver reports truthfully what it did',
  "For every system, hostile ones included, Newton's method stops with a status that its last iterate justifies: Converged only if residual and relative change are within the tolerances, Diverged, out of iterations or stopped by an observer only if that happened; observers see consecutive iterations whose residual, step ratio and solution belong together. The line search takes the full step if it reduces the residual enough, otherwise the largest halved one that does, otherwise the best one that reduces it, and an iteration without an acceptable step leaves the solution as it was. An invalid setup is reported by an exception.",
  ['inputs', 'histories'], 'all systems (no root, singular derivative, not-a-number values), guesses, tolerances, thresholds, limits, directions and observers',
  'The manual test solves one well-behaved system; no test has a failing run.',
  ['alg/NewtonSolver.h', 'alg/NewtonIterationPerformerImpl.h', 'alg/SimpleNewtonLinearSearch.h', 'alg/SimpleErrorEstimator.h', 'alg/interfaces/NewtonRegularizationStrategy.h'],
  [('iteration loop with hard-reset retry', 'alg/NewtonSolver.h'), ('line search', 'alg/SimpleNewtonLinearSearch.h')], ['run, status, currentSolution, iteration observers'])
p('C08', 'Every descent direction follows its strategy and converges',
  'At every iterate each descent direction solves the linear system of the Jacobian its strategy prescribes: the current one, the first one of the run, the secant (Broyden) update of the previous one, its restriction to the sparsity pattern, the update of the LU factors, or one replaced only when needed; Jacobian observers are given this matrix. On smooth systems with a dominant linear part all of them reach the root, linear systems are solved at once, and exact Jacobians converge quadratically, also in sequences of systems with soft or hard restarts in between.',
  ['inputs', 'histories'], 'all directions and Jacobian providers, systems, patterns, sequences of solves with soft and hard resets',
  'The manual solver test prints iteration counts of two directions for one system.',
  ['alg/SimpleNewtonDescentDirection.h', 'alg/JacobianBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h', 'alg/JacobianHartUpdateNewtonDescentDirection.h', 'alg/ConstJacobianNewtonDescentDirection.h'],
  [('secant pairs and updates', 'alg/JacobianBroydenUpdateNewtonDescentDirection.h')], ['computeDescentDirection, jacobian observers, run'])
p('C09', 'A hard reset makes a Newton solver like new; a soft one never loses a solution',
  'After any history of runs (converged, diverged, interrupted, ended by an exception, on systems of other sizes and patterns), a hard-reset solver goes through exactly the iterations of a newly created one. A softly restarted solver may reuse what it knows, but converges whenever a new one does.',
  ['histories'], 'all histories of runs, all directions and providers, changes of system size and pattern, trimmer changes',
  'No test uses one solver object twice.', ['alg/NewtonSolver.h', 'alg/DefaultJacobianProvider.h', 'alg/SparseJacobianProvider.h', 'alg/JacobianBroydenUpdateNewtonDescentDirection.h', 'lu/LUFactorizer.h'],
  [('hardReset chain', 'alg/NewtonSolver.h'), ('fast refactorization of an existing factorizer', 'lu/LUFactorizer.h')], ['iterations after setInitialGuess(..., hard)'])
p('C10', 'Explicit fixed-step methods attain their order',
  'Each explicit method (Euler, RK4, the three Dormand-Prince pairs in either mode, Gragg) advances any system with first- and second-order variables by exactly its step size, and is of the order it reports: a system whose solution a method of that order must reproduce exactly is reproduced to rounding, for any step size (also negative), and the local error on smooth nonlinear systems falls with the corresponding power. The right hand side is evaluated within the step and not more often than the method has stages; observers are told the step that is taken.',
  ['inputs', 'histories'], 'all systems, states, times, step sizes, methods and modes, restarts from other states and systems',
  'The manual test steps one oscillator and prints; no stable test runs an ODE solver.',
  ['ode/OdeSolverExplicitRK.h', 'ode/ExplicitRKHelper.h', 'ode/OdeSolverExplicitEuler.h', 'ode/OdeSolverRK4.h', 'ode/OdeSolverDOPRI45.h', 'ode/OdeSolverDOPRI56.h', 'ode/OdeSolverDOPRI78.h', 'ode/OdeSolverGragg.h'],
  [('Butcher tables', 'ode/OdeSolverDOPRI78.h'), ('stage loop', 'ode/ExplicitRKHelper.h')], ['doStep, initialState, initialTime, pre- and post-observers'])
p('C11', 'Embedded Runge-Kutta methods control their error as configured',
  'The error estimate of a step is the norm of the difference between the higher and the lower order solution at that step; the step is accepted, the step size kept, increased or decreased exactly as the tolerance, insurance, increase, decrease and maximal step parameters say, a rejected step leaves time and state untouched, an accepted one advances by the step that was taken, and observers are told all of it. An error that is infinite or not a number rejects the step; the step size never goes below its minimum without an exception, and no call loops endlessly. Over an interval the global error is within a multiple of the tolerance.',
  ['inputs', 'histories'], 'all systems (discontinuous and not-a-number right hand sides included), controller parameters, modes, initial and minimal step sizes',
  'No stable test runs an adaptive solver.',
  ['ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeStepSizeSimpleController.h', 'ode/ErrorInfNormCalculator.h', 'ode/ExplicitRKHelper.h'],
  [('attempt loop', 'ode/OdeSolverExplicitEmbeddedRK.h'), ('control law', 'ode/OdeStepSizeSimpleController.h')], ['doStep, post-observers'])
p('C12', 'Implicit Euler solves its step equation',
  'Every step of the implicit Euler method satisfies x_new = x + h f(t + h, weighted state) for the configured implicitness to the tolerance of its algebraic solver, for any predictor, order of variables, descent direction and Jacobian provider, stiff systems included; displacements of second-order variables follow from the velocities as documented, and time advances by the step. The step equation as a mapping always belongs to the current state, time, step size and implicitness. If the equations cannot be solved, the step ends by an exception that says so, time and state stay, and the solver can go on with a smaller step.',
  ['inputs', 'histories'], 'all systems, states, step sizes, implicitness values, component selections, restarts and failing steps',
  'No stable test runs an implicit solver.', ['ode/OdeSolverImplicitEuler.h', 'ode/OdeStepMappingEuler.h', 'ode/OdeVarNameGenerator.h', 'ode/interfaces/OdeNewtonSolver.h'],
  [('step equation', 'ode/OdeStepMappingEuler.h'), ('predictor and Newton run', 'ode/OdeSolverImplicitEuler.h')], ['doStep, initialState, step mapping values'])
p('C13', 'Rosenbrock methods solve their defining equations',
  'The linearly implicit methods W1 and SW2(4) take the steps their coefficients define, with the Jacobian of the right hand side with respect to all variables computed at the last hard initialization and the matrix of the step size actually used, also after rejected steps and changes of step size. SW2(4) reproduces solutions of degree 2 exactly whatever Jacobian it uses, its error estimate is the difference to the lower order solution, and acceptance, step size, time and observers follow from it as for the embedded Runge-Kutta methods. Stiff systems are stable for any step size.',
  ['inputs', 'histories'], 'all systems with first- and second-order variables, step sizes, controller parameters, sequences of steps with rejections and restarts',
  'The existing test of the Rosenbrock methods is manual: it prints the trajectory of one oscillator.',
  ['ode/OdeSolverRosenbrock_W_base.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/interfaces/OdeRhsVectorMapping.h'],
  [('W matrix and its factorization', 'ode/OdeSolverRosenbrock_W_base.h'), ('attempt loop', 'ode/OdeSolverRosenbrock_SW2_4.h')], ['doStep, post-observers'])
p('C14', 'Extrapolation is polynomial extrapolation of the reference solver',
  'For each number n of the step sequence (Romberg, Bulirsch, harmonic) the extrapolator takes n steps of 1/n of the step with the reference solver from the same state, and its result is the value at zero step size of the polynomial (in h, or h squared if symmetric) through these results; the error estimate is the difference to the same without the first. The reported order is attained: solutions of that degree are reproduced exactly. Acceptance, step size, time, state and observers follow the step size control, and an incompletely configured extrapolator throws an exception.',
  ['inputs', 'histories'], 'all systems, reference solvers, sequences, numbers of stages, controller parameters, restarts',
  'No stable test runs the extrapolator.', ['ode/OdeSolverExtrapolator.h', 'ode/ExtrapolatorStepSequenceRomberg.h', 'ode/ExtrapolatorStepSequenceBulirsch.h', 'ode/ExtrapolatorStepSequenceHarmonic.h'],
  [('extrapolation table', 'ode/OdeSolverExtrapolator.h')], ['doStep, order, observers of both solvers'])
p('C16', 'No event is missed, misplaced or processed twice',
  'If a zero function of the system changes sign in its direction of interest within an accepted step of any solver, the step ends at the zero of the linear interpolation of the earliest such function, the state there is the interpolated one, the phase is switched exactly once, with the transition of that function only, and the next step starts from the state the switch left. Without a sign change the step is taken as a whole and no phase is switched; rejected attempts and auxiliary solvers switch none. A system that truncates steps itself determines time and state at their end. Observers are told which function ended which step.',
  ['inputs', 'histories'], 'all solvers, systems, zero functions of every direction and kind (several in one step, exactly at the end of a step, at its start), consecutive events, hard and soft restarts',
  'No stable test runs a system with events.', ['ode/LinearOdeEventController.h', 'ode/interfaces/OdeEventController.h', 'ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/OdeSolverExtrapolator.h'],
  [('signs and values of the zero functions kept between steps', 'ode/LinearOdeEventController.h')], ['doStep, post-observers, switchPhase calls of the right hand side'])
p('C17', 'A solver set up anew behaves like a new one, and solvers do not affect each other',
  'After any history (runs on other systems and sizes, with or without events, ended anywhere or by an exception, with soft restarts and changed step sizes), a solver given a right hand side and an initial state with a hard initialization goes through exactly the steps of a newly created solver with the same parameters. Solvers used side by side in any interleaving do not influence each other.',
  ['histories'], 'all solvers and components, histories including injected failures, interleavings of several solvers',
  'No test uses one solver for two runs or two solvers at once.', ['ode/interfaces/OdeSolver.h', 'ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/OdeSolverExtrapolator.h', 'ode/LinearOdeEventController.h'],
  [('state kept between steps: step size, error, Jacobian, event signs', 'ode/interfaces/OdeSolver.h')], ['doStep, initialState, observers'])
p('C15', 'Solvers behave as configured, whichever way they are configured',
  'An ODE solver, system or Newton solver configured by parameters at once, parameter by parameter in any order, through an OdeSolverConfiguration by paths, or with the parameters another one reports goes through exactly the same steps and iterations. Applying a configuration gives the solver and the reference solver the configured system and exactly the specified (or passed) initial state and time; a configuration without solver or right hand side, or with a state of the wrong size, is refused by an exception.',
  ['inputs', 'histories'], 'all solvers, systems, Newton components and parameter subsets, orders of setting, ways of configuration',
  'No test sets a parameter.', ['infra/OptionalParameters.h', 'infra/ComponentConfiguration.h', 'ode/OdeSolverConfiguration.h', 'alg/interfaces/NewtonSolverInterface.h', 'ode/interfaces/OdeSolver.h', 'ode/SpecifiedOdeInitState.h'],
  [('components handed over from the old solver to the new one', 'alg/interfaces/NewtonSolverInterface.h')], ['setParameters, parameters, setValue, apply, doStep, run'])
p('C18', 'Parameters and configurations hold exactly what was set',
  'Every parameter value read back, as itself or through its text, is the value set; text that is not a number, integer, boolean or type identifier, or is out of range, is refused by an exception. In a parameter tree a path addresses exactly the item it names; invalid paths are refused, and copies of a tree are independent. For every registered component, setting any subset of parameters (nested components included) changes these and no others, and the parameters reported are those set. In a configuration a new component starts with its defaults, and a refused value or path changes nothing and does not disturb later settings.',
  ['inputs', 'histories'], 'all values and texts, trees, paths, registered types, parameter subsets and sequences of settings, invalid ones included',
  'No test uses parameters or configurations.', ['infra/OptionalParameters.h', 'infra/ComponentConfiguration.h', 'util/lex_idnum.h', 'ode/OdeSolverConfiguration.h', 'ode/SpecifiedOdeInitState.h', 'infra/Factory.h'],
  [('cached parameter tree of a configuration', 'infra/ComponentConfiguration.h')], ['value, parameters, setValue, setParameters, helpOnValue'])
p('C19', 'Observers and factories do exactly what was registered with them',
  'Invoking a sequence of observers calls each one that is present exactly once, in the order of addition, with the arguments given, forwarded sequences included; a boolean result is the logical OR of all, and every one is called whatever the others return. Identifiers are unique among the present observers, removing one removes no other, and a scoped one is gone when its scope ends, is finished or the scope it moved to ends. A factory creates new objects of exactly the type registered for an identifier with that interface, lists exactly the registered identifiers and refuses others by an exception that names them; objects report the identifier of their type. Property holders return the value set last and notify every observer of each setting.',
  ['histories', 'inputs'], 'all histories of additions, removals, scopes, invocations, registrations, settings',
  'No test uses observers, factories or property holders directly.', ['infra/cxx_observers.h', 'infra/Factory.h', 'infra/PerTypeStorage.h', 'infra/def_prop_class.h', 'infra/def_getset.h', 'infra/cxx_zeroinit.h', 'infra/cxx_mock_ptr.h', 'src/PerTypeStorage.cpp'],
  [('identifiers of elements', 'infra/cxx_observers.h'), ('registry by interface type', 'infra/Factory.h')], ['add, remove, operator(), newInstance, registeredTypes, typeId'])
p('C20', 'The outputs of a run report the run, completely and without influencing it',
  'A run of a configuration steps until the requested duration has passed and no further, and goes through exactly the steps the solver alone goes through, whatever outputs are configured. The statistics report equals the number of steps, rejections, step changes, truncations, right hand side evaluations (in total and for Jacobians) and the average step size of the run. The step report has a line for exactly the steps and Newton iterations due by the output interval (truncated steps always), the solution tables have exactly the rows or columns due, with the values, names and elements selected by their limits, written to the file named or to standard output as soon as they are due. After the run nothing stays attached to the solver, and a further run is reported anew; a file that cannot be opened is reported by an exception before the first step.',
  ['inputs', 'histories'], 'all solvers, systems with and without events, output kinds, limits, intervals, consecutive runs, runs that fail midway',
  'No test runs a configuration or reads an output.', ['ode/ode_solver_output.h', 'ode/OdeSolverConfiguration.h', 'ode/OdeVarNameGenerator.h', 'timing/TimingStats.h'],
  [('observers of the outputs', 'ode/ode_solver_output.h'), ('integration loop', 'ode/OdeSolverConfiguration.h')], ['files and standard output, observers of the solver'])
p('C21', 'The test models are the documented systems, and runs of them obey their physics',
  'For all parameters, states and times the test models (oscillator, chain of nonlinear oscillators, stiff relaxation, sliding point with each friction law, bouncing ball) report their number of variables and the derivatives given by their equations, with the documented default for every parameter not set. A run by any solver with step size control agrees with the exact solution within an error proportional to the tolerance and conserves energy where the model does. Under any solver with an event controller the bouncing ball flies ballistically, never gets below the plane, leaves an impact with the recovery factor times its speed, comes to rest below the stick speed and then rests, and never gains energy.',
  ['inputs', 'histories'], 'all models, parameters, initial states, times, tolerances, solvers',
  'No stable test runs a model with other than its default parameters.', ['ode/test_models/Oscillator.h', 'ode/test_models/CoupledNonlinearOscillators.h', 'ode/test_models/StiffOde1D.h', 'ode/test_models/SlidingPoint.h', 'ode/test_models/BouncingBall.h', 'ode/OdeSolverConfiguration.h', 'ode/OdeStepSizeSimpleController.h', 'ode/LinearOdeEventController.h'],
  [('equations of the models', 'ode/test_models'), ('phase of the ball', 'ode/test_models/BouncingBall.h')], ['rhs, zeroFunctions, switchPhase, solveOde'])
p('C22', 'Runs do not depend on how the problem is posed',
  'The same problem in other units of time and state, with its variables in another order, from another origin of time (systems not depending on time), with second order variables declared as first order pairs, or integrated together with a system not coupled to it at the same steps, goes through the same steps to the same states: exactly for explicit solvers where only powers of two and positions change (with events and step size control, the tolerance in the same units), to rounding otherwise, and to the accuracy of the numerical Jacobian for implicit ones. Fixed steps commute with linear changes of coordinates, with making time a variable (explicit solvers), with superposition for linear systems and with a restart at every step (one-step explicit methods). Every solver keeps linear invariants of the system.',
  ['inputs', 'histories'], 'all solvers and configurations, systems, transformations, with and without events and step size control',
  'The stable tests integrate no system.', ['ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeSolverRosenbrock_W_base.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/OdeStepSizeSimpleController.h', 'ode/LinearOdeEventController.h', 'ode/ErrorInfNormCalculator.h', 'ode/OdeStepMappingEuler.h'],
  [('step equations', 'ode/ExplicitRKHelper.h'), ('step size control', 'ode/OdeStepSizeSimpleController.h')], ['doStep, initialState, post-observers'])
p('C23', 'Errors and times are measured as stated, and the helper functions are what they say',
  'The Richardson error calculation reports for every step of the given size over the given duration the extrapolated error (difference of two half steps and one step, times 2^p/(2^p-1) for the order p of the method), which for quadrature of a power p is the exact error of the step, continuing from the two half steps, and leaves the observers of the solver in place. Error statistics, of numbers or vectors, combined in any way, are the maximum, sum, mean, sum of squares and standard deviation of the absolute values added. Timing statistics add up. Remainders, rounding, minimum, maximum, sign, cubic interpolation with its derivatives, and durations as text agree with their definitions for all arguments.',
  ['inputs', 'histories'], 'all solvers, systems, durations, step sizes; all sequences of samples; all arguments, extreme ones included',
  'No test calls these.', ['ode/util/RichardsonErrorCalculator.h', 'util/ErrorStats.h', 'util/m_inline.h', 'util/sys_time.h', 'util/foreachindex.h', 'timing/TimingStats.h', 'timing/TimerCalibrator.h', 'lu/LUFactorizerTimingStats.h', 'src/TimerCalibrator.cpp', 'src/OpaqueTickCounter.cpp'],
  [('samples of the error', 'ode/util/RichardsonErrorCalculator.h')], ['calculateError, stepObservers, ErrorStats'])
p('C24', 'A system and the observers are told everything about a step, once, in order, and nothing else',
  'Each attempt of a step by any solver begins with the pre-observers (told the step size of the attempt) and ends with the post-observers (told the same). In between, the system is told once of time and state at the start of the step (beforeStep; with a predictor also of its steps), by explicit and linearly implicit methods also of the derivative there (beforeStep2), before its right hand side is evaluated anywhere but at the start. The right hand side is evaluated at times within the step (SW2(4): within 5/3 of it) and as many times as the method prescribes. Zero functions are evaluated at the start of a run, at the end of accepted steps and, if a function asks for it, after a switch; the phase is switched and truncation asked for only in accepted attempts, and the right hand side is not evaluated afterwards except at the new state. Setting the initial state evaluates at most the derivative there. An exception of the system or of an observer leaves the step as it is, with time and state those at the start of the step unless the step was complete.',
  ['inputs', 'histories'], 'all solvers and configurations, systems with and without zero functions or own truncation, sequences of steps with rejections, events and restarts, exceptions at any call',
  'No stable test integrates a system.', ['ode/interfaces/OdeRhs.h', 'ode/OdeSolverExplicitRK.h', 'ode/OdeSolverExplicitEmbeddedRK.h', 'ode/ExplicitRKHelper.h', 'ode/OdeSolverGragg.h', 'ode/OdeSolverExtrapolator.h', 'ode/OdeSolverImplicitEuler.h', 'ode/OdeStepMappingEuler.h', 'ode/OdeSolverRosenbrock_W1.h', 'ode/OdeSolverRosenbrock_SW2_4.h', 'ode/LinearOdeEventController.h'],
  [('order of calls in a step', 'ode/OdeSolverExplicitEmbeddedRK.h'), ('evaluation of zero functions', 'ode/LinearOdeEventController.h')], ['beforeStep, beforeStep2, rhs, zeroFunctions, switchPhaseState, truncateStep, pre- and post-observers'])
