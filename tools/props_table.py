REF = ('Explores generated cases only (no proof); trusts numpy and '
       'scipy.linalg.expm, floating point comparisons carry a stated '
       'tolerance. ')

prop('C01', 'Operator objects compute with matrices, and keep operands intact',
     'Sums, differences, products, scalings, quotients, adjoints, transposes, '
     'conjugations, traces and comparisons of operator objects equal the same '
     'operations on the complex matrices they hold, for every admissible '
     'operand type and in both operand orders. Operations that return a new '
     'operator leave all operands unchanged, in-place variants change exactly '
     'the object they are called on, and operands that fit neither shape nor '
     'type are rejected.',
     ['inputs', 'histories'],
     'all square and rectangular complex matrices, all operand types (numbers '
     'of every numeric type, arrays, operators) and all sequences of '
     'operations on shared operators',
     'Unit tests multiply a few fixed Pauli matrices; aliasing and type '
     'combinations form a product space that samples cannot settle.',
     [M], [('elementary operations of DenseOperator', M)],
     REF + 'Single operations and sequences on a pool mirrored by numpy '
     'arrays, which detects aliasing.',
     [('data', 'matrix held by the operator', M)],
     ['return values and operand contents'])

prop('C02', 'Tensor products, partial traces, truncations and vectorisations',
     'Tensor products, partial traces over any set of subsystems, truncations '
     'to any set of basis states, vectorisations, Liouville representations '
     'and closest unitaries of operators equal their mathematical '
     'definitions. Tracing out, restricting and vectorising are linear, and '
     'the superoperator of a unitary acts on the vectorised density matrix '
     'like the unitary on the density matrix.',
     ['inputs'],
     'all matrices, kets and bras on tensor products of up to three factors '
     'of dimension 1 to 3 and all subsets of factors and basis states',
     'Tests cover two or three hand-picked index sets on two qubits.',
     [M], [('ptrace, kron, truncate_to_subspace, closest_unitary', M)],
     REF + 'Oracles are explicit sums over basis states, optimality over '
     'sampled unitaries and the polar decomposition.')

prop('C03', 'Every matrix exponential method computes the same exponential',
     'The exponential of an operator scaled by any real or complex number '
     'equals the matrix exponential, whichever computation method is chosen. '
     'It is unitary for skew-hermitian generators, its inverse is the '
     'exponential of the negative, and the operator itself is unchanged.',
     ['inputs', 'configurations'],
     'all square matrices (hermitian, degenerate, defective, general; '
     'dimension 1 to 5), all scalings and all methods',
     'Tests exponentiate a few Pauli-type matrices with one method each.',
     [M], [('DenseOperator.exp and its spectral / Pade variants', M)],
     REF)

prop('C04', 'Derivatives of the matrix exponential are directional derivatives',
     'The derivative of the exponential of an operator in any direction '
     'equals the Frechet derivative of the matrix exponential, for every '
     'method except the explicitly first-order one, which agrees up to its '
     'documented second order error. The derivative is linear in its '
     'direction, and the exponential returned along with it is the '
     'exponential of the operator.',
     ['inputs', 'configurations'],
     'all square generators and directions of dimension 1 to 5, including '
     'degenerate spectra, all scalings and all methods',
     'Tests compare a handful of generators; degenerate and non-normal '
     'spectra take other branches.',
     [M], [('DenseOperator.dexp and its variants', M)],
     REF + 'The reference is the exponential of the doubled block matrix.')

prop('C05', 'Closed-system solver integrates the Schroedinger equation',
     'For every piecewise constant control problem the step, forward and '
     'reversed propagators of the closed-system solver equal the products of '
     'exponentials of the Hamiltonian at the transferred and converted '
     'control amplitudes, in time order, starting from the given initial '
     'state. They are unitary, they compose, and rescaling time and energy '
     'inversely or changing the basis changes them accordingly.',
     ['inputs', 'configurations'],
     'all numbers and durations of time steps, controls, drifts (none, '
     'constant, stepwise), transfer functions, amplitude functions, initial '
     'states and exponential methods',
     'Tests evaluate single qubit rotations with equal steps; order, drift '
     'and duration mix-ups cancel there.',
     [S, M, T, A],
     [('computation of propagators, forward and reversed products', S)],
     REF, [('cached propagators', 'results of the current parameters', S)],
     ['propagators, forward_propagators, reversed_propagators'])

prop('C06', 'Solver results always belong to the current parameters',
     'After any sequence of setting parameters, changing times, querying '
     'results, requesting pulse sequences and failing calls, every result of '
     'a solver equals that of a freshly created solver with the current '
     'parameters. Queries do not depend on the order in which results are '
     'requested, and a rejected parameter array leaves the solver as it was.',
     ['histories', 'inputs'],
     'all histories of up to ten calls on closed, Monte Carlo, control noise '
     'and open system solvers',
     'Tests query each solver once after one assignment; stale caches show '
     'only in longer histories.',
     [S, T],
     [('set_optimization_parameters and the reset of cached results', S)],
     REF + 'Stateful exploration against a stateless reference.',
     [('cached results', 'None or the results of the current parameters', S)],
     ['all result attributes of the solvers'])

prop('C07', 'Propagator derivatives are the exact derivatives',
     'The derivatives of the step propagators of closed, noisy and open '
     'system solvers by the control amplitudes equal the directional '
     'derivatives of the exponentials. The derivatives by the parameters obtained '
     'from differences of the propagators agree with them, and the '
     'approximate option converges to them at its documented order.',
     ['inputs', 'configurations'],
     'all control problems with up to three controls, all exponential '
     'methods, all solver kinds and approximation options',
     'Tests compare few gradients at one pulse and with one method.',
     [S, M], [('frechet derivatives of the propagators', S)], REF)

prop('C08', 'Every Monte Carlo noise realisation is its own experiment',
     'Each noise trace of a Monte Carlo solver is propagated with the '
     'Hamiltonian of exactly that realisation, for noise on additional '
     'operators and on the control amplitudes. Permuting, splitting or '
     'repeating the realisations or distributing them over processes only '
     'permutes, splits or repeats the results, and zero noise gives '
     'the noise-free results.',
     ['inputs', 'configurations'],
     'all control problems, up to four realisations of explicit samples, all '
     'amplitude dependent noise functions, one or several processes',
     'Tests average over random traces and cannot see a mixed-up trace.',
     [S, N], [('noise propagators of SchroedingerSMonteCarlo and '
               'SchroedingerSMCControlNoise', S)], REF)

prop('C09', 'Open-system solver integrates the master equation',
     'The propagators of the master equation solver equal the exponentials '
     'of the Lindblad generator built from Hamiltonian, dissipation '
     'operators and their amplitude dependent prefactors. They map density '
     'matrices to density matrices, agree with the closed system without '
     'dissipation, do not depend on how the dissipation was specified, '
     'and leave the operators of the user unchanged.',
     ['inputs', 'configurations'],
     'all control problems of dimension 2 and 3 with up to three dissipators, '
     'every way of specifying them, all times',
     'Tests treat one qubit with a constant rate.',
     [S, M], [('LindbladSolver', S)], REF)

prop('C10', 'Transferred time grid matches the pulse; ill-formed input rejected',
     'Every transfer function reports exactly as many transferred time steps '
     'as it produces values, their durations add up to the durations of the '
     'input steps plus paddings, and step counts and durations are those '
     'documented for its oversampling and padding. Setting other times at '
     'any point gives the same as creating the function anew, and pulses '
     'of a wrong shape are rejected.',
     ['inputs', 'histories', 'configurations'],
     'all transfer functions, nested concatenations and parallelisations, '
     'all histories of set times',
     'Tests use one concatenation with equal steps.',
     [T], [('set_times and transferred_time of the transfer functions', T)],
     REF)

prop('C11', 'Transfer functions apply their documented filter',
     'The output of every transfer function is the documented response to '
     'the raw pulse: a linear map plus constant offset, acting causally on '
     'each control line separately. Concatenations apply their stages one '
     'after the other, parallel ones act on disjoint groups of parameters, '
     'and the explicit matrix reproduces the map.',
     ['inputs', 'configurations'],
     'all transfer functions, all boundary and padding modes, oversamplings, '
     'kernels, pulses and nestings',
     'Tests sample single filters with default options.',
     [T], [('__call__ and transfer matrices of the transfer functions', T)],
     REF + 'The reference is an explicit affine map assembled from the '
     'documented response of each stage.')

prop('C12', 'Chain rule of transfer functions is the adjoint of the filter',
     'The derivative of any function by the raw pulse that a transfer '
     'function computes from the derivative by the transferred parameters '
     'is exactly the adjoint of its linear response. This holds for every '
     'boundary mode, padding, nesting and number of functions.',
     ['inputs', 'configurations'],
     'all transfer functions, nestings and gradients of one to three '
     'functions',
     'Gradient tests use one oversampling filter.',
     [T], [('gradient_chain_rule of the transfer functions', T)], REF)

prop('C13', 'Amplitude functions convert values and gradients consistently',
     'An amplitude function converts transferred parameters to control '
     'amplitudes value by value as its user-supplied function prescribes, '
     'also when the numbers of parameters and amplitudes differ. Its chain rule multiplies '
     'any gradient with the Jacobian of this map, so solver results and '
     'their gradients agree with those of a pulse given directly in control '
     'amplitudes.',
     ['inputs', 'configurations'],
     'all numbers of steps, parameters, amplitudes and functions, identity, '
     'elementwise and general amplitude functions',
     'Tests use the identity and one exponential.',
     [A, SI], [('derivative_by_chain_rule', A)], REF)

prop('C14', 'State and gate fidelities equal their definitions',
     'Fidelities and infidelities of states, subspace states and gates equal the '
     'textbook overlaps for all inputs, lie between zero and one, are one exactly for '
     'equality up to a global phase, and are invariant under common unitary '
     'rotations. Restricting to computational states, tracing out subsystems, '
     'rescaling and mapping to the closest unitary act as documented.',
     ['inputs', 'configurations'],
     'all states and unitaries of dimension 2 to 9, every computational '
     'subspace, every tensor structure',
     'Tests compare identical or orthogonal operators.',
     [CF, M], [('fidelity functions and cost classes', CF)], REF)

prop('C15', 'Open-system fidelity and leakage measures equal their definitions',
     'Process fidelities of superoperators, and the coherent, '
     'incoherent and Liouville leakage measures equal their definitions by '
     'Kraus operators and populations. Unitary channels give the closed-'
     'system value, and leakage vanishes exactly when the computational '
     'subspace is left invariant.',
     ['inputs', 'configurations'],
     'all channels of dimension 2 to 4, every computational subspace',
     'Tests use single superoperators of the identity.',
     [CF], [('super operator fidelity and leakage costs', CF)], REF)

prop('C16', 'Analytic gradients are the derivatives of the costs',
     'For every cost function with an analytic gradient, the Jacobian by the '
     'raw optimization parameters equals the derivative of the costs through '
     'the complete chain of transfer function, amplitude function and '
     'dynamics. This includes closed, noisy, open and filter function costs '
     'and every option of the cost functions.',
     ['inputs', 'configurations'],
     'all control problems, solver kinds, transfer and amplitude functions, '
     'cost functions and options',
     'Existing gradient tests evaluate few fixed pulses and default options.',
     [CF, S, T, A, SI], [('grad of the cost functions; Jacobian of the '
                          'simulator', CF)],
     REF + 'Seven point central differences of an '
     'independent reference cost.')

prop('C17', 'Noise-averaged infidelities average over all realisations',
     'The noise-averaged infidelities and their gradients are the mean over all '
     'noise realisations of the infidelity of each, relative to the ideal '
     'target or, when systematic errors are neglected, to the noise-free '
     'evolution. They are invariant under permutation of the realisations, '
     'linear in merging ensembles and reduce to the plain infidelity for '
     'vanishing noise.',
     ['inputs', 'configurations'],
     'all noise ensembles of up to four realisations, all control problems, '
     'all options',
     'Tests average random noise and check magnitudes only.',
     [CF, S], [('noise infidelity cost classes', CF)], REF)

prop('C18', 'Filter function infidelity follows the noise spectrum',
     'The filter function infidelity equals the frequency integral of the '
     'spectral density times the filter function computed from the interaction '
     'picture noise operators, and its gradient is the derivative. It is '
     'linear in the spectrum, quadratic in the noise operator, separate per '
     'noise operator, and agrees to leading order with averaging over the '
     'corresponding slow noise.',
     ['inputs', 'configurations'],
     'all control problems, noise operators, spectra, frequency grids and '
     'amplitude dependent noise sensitivities',
     'Tests compare one example with the external package.',
     [CF, S], [('OperatorFilterFunctionInfidelity and pulse sequences', CF)],
     REF)

prop('C19', 'Rotation angle and axis reproduce the single-qubit gate',
     'The angle and axis extracted from any single-qubit unitary reproduce '
     'it up to a global phase, with a unit axis and an angle between zero and '
     'pi, for all angles including very small ones and those close to pi. '
     'Matrices that are not unitary are rejected.',
     ['inputs'],
     'all 2x2 unitaries, including global phases and angles near the poles',
     'Tests use few rotations of generic angle.',
     [CF], [('angle_axis_representation', CF)], REF)

prop('C20', 'Quasi-static noise samples follow the specified distribution',
     'Quasi-static noise is constant in time per realisation, has the '
     'requested number of realisations and operators, zero mean and the requested '
     'standard deviation of each noise source, where deterministic sampling '
     'places realisations at equal probability quantiles. Samples are reused or renewed as '
     'requested, and inputs of the user stay unchanged.',
     ['inputs', 'configurations', 'histories'],
     'all numbers of realisations, sources and time steps, all standard '
     'deviations and sampling modes',
     'Tests look at one configuration.',
     [N], [('NTGQuasiStatic and its sampling functions', N)], REF)

prop('C21', 'Coloured noise has the requested power spectrum',
     'Synthesised noise has at every frequency the power spectral density '
     'that the user specified: it is a linear filter of white noise '
     'whose squared gain is the spectral density, without constant offset. Sampling '
     'rate, number of samples and realisations are those requested, and '
     'samples are reused or renewed as requested.',
     ['inputs', 'configurations'],
     'all lengths (odd, even, not powers of two), sampling rates, spectra, '
     'numbers of realisations',
     'Tests estimate the spectrum of one white and one 1/f example '
     'statistically.',
     [N], [('fast_colored_noise and NTGColoredNoise', N)], REF)

prop('C22', 'Simulator assembles costs and Jacobians of all cost functions',
     'The simulator returns the values of all cost functions at exactly the '
     'parameters it is called with, concatenated in order with matching '
     'names, and the Jacobian in the same order with one block per time step. '
     'Results do not depend on earlier calls, recorded timings count '
     'the evaluations, and the numeric gradient is the difference quotient.',
     ['inputs', 'histories', 'configurations'],
     'all combinations of solvers and cost functions, pulses and call '
     'histories',
     'Tests run one solver with one cost function.',
     [SI, CF], [('wrapped_cost_functions, wrapped_jac_function', SI)], REF)

prop('C23', 'Optimization results report what was actually evaluated',
     'The result of an optimization reports parameters within bounds whose '
     'costs, evaluated again, are those reported. They are not worse than the '
     'initial ones, and are the best evaluated if stopped by the wall time; '
     'the recorded history lists every evaluation as made. Weights affect only the objective, '
     'termination conditions are honoured and later optimizations are not '
     'influenced by earlier ones.',
     ['inputs', 'histories', 'configurations'],
     'all control problems, algorithms, weights, bounds, termination '
     'conditions and sequences of optimizations',
     'Tests check that the final cost is small.',
     [O, OD, SI], [('Optimizer classes', O)], REF)

prop('C24', 'Simulated annealing reports the best state it visited',
     'Annealing keeps parameters on the allowed discrete grid and within bounds, moves '
     'by at most the maximal step, and returns parameters and costs '
     'that belong together and are the best visited. The run is reproducible '
     'for a fixed random seed.',
     ['inputs', 'configurations', 'schedules'],
     'all initial pulses, bounds, step sizes and random seeds',
     'One test checks that the energy decreased.',
     [O], [('PulseAnnealer and SimulatedAnnealing', O)], REF)

prop('C25', 'Parallel optimization equals sequential optimization',
     'Optimizing a list of initial parameters in several processes returns, '
     'in order and completely, the same results as optimizing them one after '
     'the other. No run influences another, and a run that fails raises '
     'instead of being dropped.',
     ['schedules', 'inputs', 'configurations'],
     'all numbers of initial pulses and processes',
     'One test checks that a list is returned.',
     [PA, O], [('run_optimization_parallel', PA)], REF)

prop('C26', 'Data containers keep every optimization result intact',
     'Storing any sequence of optimization results and loading it again '
     'yields the same parameters, costs, histories and metadata in the same '
     'order, with consistent counters. The analysis reports the '
     'minimum of the stored costs and the best run and parameters belonging to it.',
     ['inputs', 'histories'],
     'all sequences of results with and without recorded histories, all '
     'shapes and numbers of cost functions',
     'Tests store one result.',
     [D, OD, AN], [('DataContainer, OptimizationResult, Analyser', D)], REF)

prop('C27', 'Figures show the computed data',
     'Energy spectra, pulse plots, periodograms, Bloch sphere trajectories '
     'and plots of optimization costs show exactly the computed values: all '
     'eigenvalues over their x values coloured by their eigenvectors, each '
     'step of a pulse at its place in time, the state at each time, every '
     'cost of the run. Options for scales and axes are honoured.',
     ['inputs', 'configurations'],
     'all Hamiltonians, pulses, filters, noises and histories',
     'No test looks at the content of a figure.',
     ['qopt/energy_spectrum.py', 'qopt/plotting.py', T, N, AN, S],
     [('plot_energy_spectrum', 'qopt/energy_spectrum.py'),
      ('plot_bloch_vector_evolution', 'qopt/plotting.py'),
      ('plot_pulse', T), ('plot_periodogram', N), ('plot_costs', AN),
      ('plot_bloch_sphere', S)], REF)

prop('C28', 'Unsupported input is rejected and changes nothing',
     'Pulses of the wrong shape or data type, inconsistent time steps, '
     'Hamiltonians and noise terms, unknown methods or options and '
     'operands of unsupported types raise an error instead of giving a '
     'result. A rejected input leaves solvers, filters, operators and data '
     'containers as they were.',
     ['inputs', 'histories', 'configurations'],
     'all invalid inputs next to a valid one, at any point of a history',
     'Tests check two exceptions.',
     [M, T, S, CF, N, O, D],
     [('_check_dimensions_datatype', T), ('set_optimization_parameters, '
      'consistency_checks', S), ('DenseOperator', M)], REF)
