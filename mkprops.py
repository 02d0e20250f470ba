#!/usr/bin/env python3
"""Write /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({'state': state} if state else {}),
                     observe_at=observe, hook_needed=None)))

EL, CI, FN, TE, SY, SW, SB, UN, NO, ST = ['SQcircuit/%s.py' % x for x in (
    'elements', 'circuit', 'functions', 'torch_extensions', 'systems', 'sweep',
    'symbolic', 'units', 'noise', 'settings')]

p('C01', 'Element values keep their physical meaning in every unit',
  '''For every capacitor, inductor and junction, a value given in any accepted unit (farads/henries with prefix, an energy
  as frequency with prefix, or the current default unit when none is given) is stored as the quantity defined by
  C = e^2/2hE_C, L = (Phi0/2pi)^2/hE_L or an angular junction energy 2pi*E_J, and reading it in any accepted unit returns
  that same quantity (junctions: as angular frequency). Any other unit raises ValueError and leaves the stored value and
  error unchanged. A fabrication error of e percent samples a normal distribution whose mean is the nominal value and
  whose standard deviation is e percent of it, so error 0 is exact.''',
  ['inputs', 'configurations'], '''all positive values and error percentages, all ordered pairs of units (set unit, read unit) of each
  element kind, every other unit string, all default units, both engines, construction and set_value''',
  'unit pairs and values are a product space; tests probe a handful of pairs at single values with tolerances',
  [EL, UN], [('unit conversion', 'Capacitor/Inductor/Junction.set_value/get_value'), ('fabrication error', 'Element._set_value_with_error'),
             ('defaults', 'units.get_unit_cap/ind/JJ')], ['get_value()', 'constructors', 'set_value()'])
p('C02', 'Circuit matrices are the exact sum over all elements',
  '''The capacitance matrix and the susceptance matrix of a circuit equal the sum over every element instance in the circuit
  (including the capacitor attached to each junction or inductor, parallel elements, and one element object placed on
  several edges) of its capacitance, or inverse inductance, times the incidence form of its edge, with ground removed.
  They do not depend on the order of edges or elements nor on the orientation in which an edge is written. The junction
  incidence rows have exactly one row per edge that contains junctions, with entries +1/-1 at its nodes.''',
  ['inputs', 'programs'], '''all positive element values on every circuit shape in the stated family (1 to 3 nodes, with and without ground
  edges, parallel and shared elements, any edge order and orientation), both engines''',
  'tests fix a few well known qubits with one set of values; assembly errors that only show for parallel, shared or reversed elements pass',
  [CI, EL], [('assembly', 'Circuit._get_LCWB'), ('edge contribution', 'CircuitEdge.process_edge_and_update_circ, get_eff_cap_value, get_eff_ind_value'),
             ('incidence', 'CircuitEdge._set_matrix_rep, _set_w_at_edge')], ['Circuit.C', 'Circuit.L', 'Circuit.W'])
p('C03', 'External flux is distributed consistently over every loop',
  '''For every circuit with declared loops, the fractions of external flux assigned to the inductive elements add up, with the
  sign of the traversal of the loop, to exactly one quantum for the own loop and zero for all other loops (up to the
  rounding of the fractions to five decimals). The distribution induces no capacitive current at any node when each
  element is weighted with its own capacitor ("all"), and puts the flux on junctions ("junctions") or on inductors
  ("inductors") wherever a loop contains such an element. A non-empty set of declared loops that does not cover the
  independent cycles of the inductive elements is rejected with ValueError.''',
  ['inputs', 'programs', 'configurations'], 'all positive element capacitances, all three distribution options, loop shapes of the stated family (one and two loops, shared elements, series and parallel branches, floating parts)',
  'the distribution is the solution of a linear system in the capacitances; tests compare printed numbers for one circuit',
  [CI, EL, FN], [('flux distribution', 'Circuit._get_LCWB'), ('loop orientation', 'Loop.get_g'), ('rank handling', 'functions.remove_dependent_columns')],
  ['Circuit.B'])
p('C04', 'Mode coordinates are canonical and decouple the linear circuit',
  '''The charge and flux transformations of a circuit are inverse transposes of each other, and applied to the inverse
  capacitance, susceptance and junction incidence matrices they give exactly the transformed matrices used for the
  modes. In mode coordinates the harmonic modes are decoupled from each other and from the charge modes, each mode
  frequency is the square root of its inverse capacitance times its susceptance (charge modes have frequency zero and
  no susceptance), and junctions couple to charge modes only with -1, 0 or +1. Modes removed as uncoupled leave all
  transformations restricted to exactly the remaining modes.''',
  ['inputs', 'programs'], 'all positive capacitances and inductances (real arithmetic) on the stated circuit shapes with one and two nodes, with harmonic, charge, mixed and uncoupled modes',
  'the transformation chains matrix roots, singular vectors and basis completion; tests only see eigenvalues of a few circuits',
  [CI, FN], [('transformations', 'Circuit._transform_hamil and _get_and_apply_transformation_1/2/3'), ('mode removal', 'Circuit._update_nmodes_remove_uncoupled_modes'),
             ('inverse maps', 'Circuit.coord_transform')], ['Circuit.S/R/cInvTrans/lTrans/wTrans/omega', 'coord_transform()'])
p('C05', 'The Hamiltonian equals the circuit quantization formula',
  '''hamiltonian() equals the sum of mode frequencies times number operators, charging energies of the charge modes with
  their offset, charge-charge couplings between modes, the flux bias energy of each inductor (element flux times
  Phi0/2pi over inductance times branch flux) and -E_J cos(branch phase + external phase) for each junction
  instance, in the tensor product of the truncated modes. It is Hermitian, its dependence on an external flux that is allocated
  to a single junction is periodic in one flux quantum, and modes truncated to one state drop out of the tensor product without
  changing the remaining terms.''',
  ['inputs', 'programs', 'configurations'], 'all real mode frequencies, impedances, coupling matrices, junction couplings, energies, fluxes and offsets (real arithmetic) for 1 to 3 modes of either kind with the stated truncation numbers including 1',
  'operator ordering, cross terms and sign errors cancel or vanish for the one and two mode circuits with identical truncation used by tests',
  [CI], [('operators', 'Circuit._build_op_memory, _build_exp_ops, isolated operators'), ('linear part', 'Circuit._get_LC_hamil'), ('inductive part', 'Circuit._get_inductive_hamil')],
  ['Circuit.hamiltonian()'])
p('C06', 'Changing a circuit is equivalent to building it anew',
  '''After any sequence of setting loop fluxes, charge offsets, truncation numbers and element values (the latter followed by
  update()), with or without diagonalizations in between, the Hamiltonian, the Hamiltonian derivatives, the
  coupling operators and the parameter list are those of a new circuit built with the current values and
  the same truncation. No intermediate diagonalization, repeated update or repeated setter changes the result.''',
  ['histories', 'inputs'], 'all histories up to the stated length of those operations with arbitrary values, on the stated circuits, both engines',
  'caches of operators are refreshed by some setters and not by others; tests use each setter once in one order',
  [CI, EL], [('operator memory', 'Circuit._memory_ops, _LC_hamil'), ('rebuild', 'Circuit.update'), ('setters', 'set_trunc_nums, set_charge_offset, Loop.set_flux, Element.set_value')],
  ['Circuit.hamiltonian()', 'get_partial_omega()', 'coupling_op()'])
p('C07', 'Diagonalization returns the lowest pairs in order and unit',
  '''diag(n) returns the n eigenfrequencies of the Hamiltonian in ascending order, each divided by 2pi times the current
  frequency unit, and the k-th eigenvector belongs to the k-th eigenfrequency, whatever the order in which the
  sparse solver delivers its pairs. The stored eigenfrequencies, the efreqs and evecs properties and both engines agree
  with the returned values, and changing the frequency unit rescales them without touching the stored spectrum. Use before
  truncation or diagonalization raises the documented state error.''',
  ['inputs', 'schedules', 'configurations'], 'all real solver outputs in all orders for n up to the stated bound, all frequency units, both engines, requested numbers from 1',
  'the solver happens to return a convenient order for the tested Hamiltonians, and n=1 or other units are not tested',
  [CI, TE], [('solver call and sorting', 'Circuit._diag_np, EigenSolver.forward, Circuit._diag_torch'), ('unit', 'Circuit.efreqs')], ['Circuit.diag()', 'efreqs', 'evecs'])
p('C08', 'Coupling operators represent node voltages and branch fluxes',
  '''coupling_op and charge_op are linear combinations of the mode operators: the capacitive operator between two nodes is the difference of
  the node voltages (inverse capacitance times node charge), the inductive one the difference of node fluxes, with
  ground at zero. Exchanging the nodes only changes the sign, an edge between two nodes is the difference of their edges to
  ground up to a global sign, and matrix_elements and the eigenbasis charge operator are the exact inner
  products with the eigenvectors (first state conjugated).''',
  ['inputs', 'programs'], 'all real transformations, capacitance matrices, eigenvectors (complex) and node pairs for 1 to 3 modes including removed modes, both engines',
  'index and sign errors in rarely used node pairs give plausible numbers; tests use one or two edges',
  [CI, FN], [('coupling', 'Circuit.coupling_op'), ('inner product', 'Circuit.matrix_elements, functions.operator_inner_product'), ('charge', 'Circuit.charge_op')],
  ['coupling_op()', 'matrix_elements()', 'charge_op()'])
p('C09', 'Depolarization rates obey the golden rule and detailed balance',
  '''The capacitive, inductive and quasiparticle rates between two states are non-negative and are the sums over all lossy element
  instances of thermal factor times loss coefficient (capacitance over quality factor, inverse inductance over
  quality factor, junction energy times frequency times admittance) times the squared matrix element of the
  element's own coupling operator. The directed rates satisfy detailed balance, rate(up) = exp(-hbar omega/kT)
  rate(down), where the up/down role follows the order of the two states, and the total rate is their
  sum and symmetric; when exp would overflow the limit (down factor 2, up factor 0) is used. Elements without quality factor
  or with undefined (NaN) quality factor contribute nothing.''',
  ['inputs', 'programs', 'configurations'], 'all real temperatures and frequencies, element values, matrix elements, quality factors and state pairs on the stated circuits including parallel and shared elements',
  'tests compare two qubits at one temperature with default quality factors; branch conditions on state order and overflow are not varied',
  [CI, EL, NO], [('rates', 'Circuit.dec_rate'), ('loss models', 'Element.Q, Junction.Y')], ['dec_rate(capacitive|inductive|quasiparticle)'])
p('C10', 'Dephasing rates are noise amplitude times frequency sensitivity',
  '''The flux, charge and critical current dephasing rates between two states equal the sum over all loops, charge modes and
  junction instances of the noise amplitude times the absolute derivative of the transition frequency with
  respect to that noise parameter times sqrt(2|ln(omega_low t_exp)|). The rates are non-negative, symmetric in
  the two states, scale linearly with each noise amplitude however it was set (constructor or setter), and use the current
  environment settings.''',
  ['inputs', 'configurations', 'histories'], 'all noise amplitudes, environment settings, eigenvectors and derivatives on the stated circuits with up to two loops, two charge modes and shared junctions, both engines',
  'tests fix one environment and default amplitudes and never call the noise setters',
  [CI, EL, NO], [('rates', 'Circuit._dephasing, _dec_rate_flux_np/_charge_np/_cc_np'), ('amplitudes', 'Loop.set_noise, Charge.set_noise, Circuit.set_charge_noise')],
  ['dec_rate(flux|charge|cc)'])
p('C11', 'Analytic derivatives are the true derivatives of the Hamiltonian',
  '''For every capacitor (also one attached to a junction or inductor), inductor, junction and loop of a circuit, get_partial_omega is the
  expectation value, in the requested eigenstate (minus the ground state unless disabled), of the exact derivative of
  the Hamiltonian with respect to that element's value or external phase, counting every place where the element is used.
  get_partial_vec is the first-order perturbation of the eigenvector built from all computed eigenpairs.''',
  ['inputs', 'programs'], 'all real values of matrices, transformations, fluxes, energies and eigenvectors for 1 to 3 modes on the stated circuits including shared elements and two loops, both engines',
  'tests compare finite differences for single-mode qubits where cross terms between modes do not exist',
  [CI], [('derivatives', 'Circuit._get_partial_H, _get_quadratic_Q, _get_quadratic_phi'), ('perturbation', 'Circuit.get_partial_omega, get_partial_vec')],
  ['get_partial_omega()', 'get_partial_vec()'])
p('C12', 'Back-propagated gradients equal the analytic derivatives',
  '''With the PyTorch engine, the gradient that back-propagation delivers for each circuit parameter through eigenfrequencies,
  eigenvectors and the flux, charge and critical current dephasing rates equals the chain rule applied to the
  first and second order perturbation formulas, in the order of the parameter list. Eigenvectors beyond the configured maximum do not
  contribute, and the scaled Bessel functions used by the loss models have their exact derivatives.''',
  ['inputs', 'configurations'], 'all upstream gradients, eigenpairs, operators and amplitudes on the stated circuits with capacitor, inductor, junction and loop parameters',
  'finite difference tests at one point with loose tolerances cover single-mode circuits only',
  [TE, FN], [('eigen gradient', 'EigenSolver.backward'), ('rate gradients', 'partial_charge_dec, partial_cc_dec, partial_flux_dec, partial_squared_*'), ('special functions', 'K0eSolver, LogK0Solver')],
  ['Tensor.backward()', 'Circuit.parameters_grad'])
p('C13', 'NumPy and PyTorch engines compute the same quantities',
  '''For the same circuit and state, matrices, Hamiltonian, coupling operators, matrix elements, decoherence rates and
  composite systems are the same numbers with the NumPy and the PyTorch engine. The engine-independent elementary functions return the same value for arrays and
  tensors. Elements only expose gradients with the PyTorch engine and raise the documented error otherwise.''',
  ['configurations', 'inputs'], 'all element values, transformations and eigenvectors on the stated circuits with one and two modes, all elementary functions over their whole domain',
  'the engines are two code paths through every formula; tests compare them for single-mode qubits',
  [FN, CI, EL, SY], [('dispatch', 'functions.*'), ('tensor operators', 'functions.qobj_to_tensor, mat_mul, operator_inner_product')], ['public results under set_engine'])
p('C14', 'Every sweep entry belongs to its own grid point',
  '''sweepFlux and sweepCharge fill each entry of the eigenfrequency and decoherence tables with the result obtained when exactly the
  grid values of that entry are set on the respective loops or charge modes, for any number of swept parameters and
  grid lengths, and the table has one axis per swept parameter in the given order. Loss tables are computed from the same point
  as the eigenfrequencies.''',
  ['inputs', 'programs'], 'all grid values and all circuit responses (arbitrary functions of the set values) for 1 to 3 swept parameters with unequal grid lengths',
  'tests sweep one parameter; index mixing between axes needs several parameters with different lengths',
  [SW], [('sweep', 'Sweep.sweepFlux, Sweep.sweepCharge')], ['Sweep.efreq', 'Sweep.dec'])
p('C15', 'Composite systems assemble all couplings between circuits',
  '''The capacitance matrix of a system is the block diagonal of its circuits' capacitance matrices plus, for each capacitive
  coupling, its capacitance in the incidence form of the two coupled nodes. The Hamiltonian is the sum of the circuits' eigenfrequencies and the
  charge-charge interaction given by the change of the inverse capacitance matrix in mode coordinates, in the tensor
  product of the circuits in system order, is Hermitian, and does not depend on the order in which a coupling
  names its two circuits. Building a system does not change its circuits.''',
  ['inputs', 'programs'], 'all capacitances, transformations, spectra and charge operators for systems of two and three circuits with one or two modes, several couplings and circuits with removed modes, both engines',
  'the system test couples two identical one-node circuits, where index mixing cannot be seen',
  [SY], [('assembly', 'System.cap_matrix, _node_idx_in_sys'), ('interaction', 'System._H_int, _quadratic_Q, _QQ_op, _op_times_op_in_sys')], ['System.cap_matrix()', 'System.hamiltonian()'])
p('C16', 'Truncation bookkeeping is consistent',
  '''set_trunc_nums gives harmonic modes N states and charge modes 2N-1 states, trunc_nums returns what was set, and input of wrong
  length or type is rejected without changing the circuit. truncate_circuit(K) assigns every harmonic mode exactly floor(K^(1/n)) states and every charge mode
  the largest odd number of states not above it, so that the Hilbert space never exceeds K. check_convergence returns the
  weight of the eigenvector outside the retained block and the index decomposition of the tensor space is exact.''',
  ['inputs'], 'all truncation numbers and total dimensions up to the stated bounds, one to four modes, all mode kinds, all eigenvectors',
  'floor of a floating-point root fails only at perfect powers; tests use one value',
  [CI], [('truncation', 'Circuit.set_trunc_nums, trunc_nums, truncate_circuit'), ('index', 'Circuit._tensor_to_modes'), ('convergence', 'Circuit.check_convergence')],
  ['set_trunc_nums()', 'trunc_nums', 'truncate_circuit()', 'check_convergence()'])
p('C17', 'The phase representation is the basis expansion of the eigenvector',
  '''eig_phase_coord returns, at every grid point, the sum over the tensor basis of the eigenvector coefficient times the product
  of plane waves exp(i n phi)/sqrt(2pi) with the actual charge number n for charge modes and of oscillator
  functions with the mode's zero-point width for harmonic modes, with the first two axes exchanged. It is linear in the eigenvector, so the density is normalized
  whenever the eigenvector is.''',
  ['inputs'], 'all complex eigenvector coefficients, grid values, mode impedances for one to three modes of either kind with the stated truncation numbers, both engines',
  'tests compare absolute values of one circuit, which hides phases and index mix-ups',
  [CI], [('wavefunction', 'Circuit.eig_phase_coord, _tensor_to_modes')], ['eig_phase_coord()'])
p('C18', 'The printed Hamiltonian is the Hamiltonian that is diagonalized',
  '''The symbolic Hamiltonian and parameters of description() (mode kinds and frequencies, zero-point fluctuations, charging,
  inductive and junction energies, offsets and fluxes), when evaluated with the mode operators, equal hamiltonian()
  up to the documented rounding of the printed values, for every mix of harmonic and charge modes, loops and flux distributions.
  loop_description() lists the magnitude of the share of each loop flux at each inductive element.''',
  ['inputs', 'programs'], 'all parameter values on the stated circuits with up to three modes and two loops',
  'tests compare the text for a zero-pi circuit, which has a single charge mode',
  [CI, SB], [('description', 'Circuit._compute_descrip_vars, symbolic.construct_hamiltonian')], ['Circuit.descrip_vars', 'description()'])
p('C19', 'Copies are equal to and independent of the original circuit',
  '''safecopy returns a circuit whose elements, loops, parameters, operators and (if requested) eigenpairs have the values of
  the original, keeps sharing of elements and loops inside the copy, and shares no mutable state with the original: changing either
  one never changes the other. A circuit restored from a pickled reduced copy gives, after update(), the same Hamiltonian.''',
  ['histories', 'inputs', 'configurations'], 'all element, flux and offset values and all following modifications of the stated kinds on circuits with shared elements, attached capacitors and loops, both engines',
  'aliasing shows only when original and copy are modified afterwards; tests never modify copies',
  [CI], [('copy', 'Circuit.safecopy, picklecopy, __getstate__/__setstate__')], ['safecopy()', 'picklecopy()'])
p('C20', 'Global settings take effect exactly and invalid ones are rejected',
  '''Setting the frequency unit, the default units of the element kinds, the engine, the temperature, the frequency cut-offs or the
  experiment time changes exactly that setting to the stated physical value (cut-offs as angular frequencies, times in seconds)
  and nothing else. Every invalid unit or engine name is rejected with an error and leaves all settings unchanged, and resetting the environment
  restores all its defaults.''',
  ['inputs', 'histories', 'configurations'], 'all real values, all unit and engine names (valid and invalid), all sequences of settings up to the stated length',
  'global state and rejected inputs need sequences and arbitrary strings',
  [UN, NO, ST], [('units', 'units.set_unit_*'), ('environment', 'noise.set_*'), ('engine', 'settings.set_engine')], ['get_unit_*()', 'ENV', 'get_engine()'])
p('C21', 'Eigenvalues are converged with respect to truncation',
  '''For large enough truncation numbers the returned eigenfrequencies approximate those of the untruncated circuit
  to the accuracy the user expects.''',
  ['inputs'], 'all circuits and truncation numbers', 'needs functional analysis of the untruncated operators',
  [CI], [('truncation', 'Circuit.diag')], ['diag()'])
p('C22', 'Saved sweeps are restored identically from disk',
  '''Data saved to a file and loaded again, possibly in another process, contains the same tables, grids and circuit.''',
  ['histories'], 'all sweeps and files', 'needs arbitrary object graphs and process boundaries',
  ['SQcircuit/storage.py'], [('persistence', 'SQdata.save/load')], ['SQdata.load()'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
