#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (python3 tools/mkprops.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), technique='', note=''):
    P.append(dict(d=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe,
                     hook_needed=None)), technique=technique, note=note))


prop('C01', 'Many-body energies equal the spectrum of the second-quantised Hamiltonian',
     'For every single-particle Hamiltonian and every two-body interaction handed to a builder, the many-body energies '
     'it reports after diagonalisation are, within each charge sector (and each spin sector where the indexing has spin '
     'labels), exactly the eigenvalues of the operator sum h_ij d_j^+ d_i + sum U_mnkl d_m^+ d_n^+ d_k d_l, with the '
     'conjugate terms added as the Hermitian-completion options promise. '
     'This holds in every indexing (Lin, charge, sz, ssq), for real and complex elements, and independently of the '
     'order of the operator labels and of the terms.',
     ['inputs', 'configurations'],
     'all Hamiltonians (hopping, density and exchange/pair interaction terms, any label order), number of levels, '
     'indexings, herm_hs/herm_c/m_less_n settings and matrix types',
     'the tests diagonalise one spinful 4-level system and a few hand-written blocks; fermion signs and conjugate '
     'completion depend on label order and occupation patterns they never combine',
     ['qmeq/qdot.py', 'qmeq/indexing.py'],
     [('construct_ham_hopping, construct_ham_coulomb (fermion signs)', 'qmeq/qdot.py'),
      ('diagonalise_charge, construct_manybody_eigenstates_ssq*', 'qmeq/qdot.py')],
     ['Builder.Ea'],
     technique='property-based testing against an independent Jordan-Wigner reference Hamiltonian',
     note='Random Hamiltonians up to 4 levels (6 with spin symmetry in thorough); oracle built from dense '
          'Jordan-Wigner matrices. Trusts numpy eigvalsh.')

prop('C02', 'Many-body tunnelling and phonon amplitudes represent the given couplings',
     'The many-body tunnelling amplitudes a builder reports are the matrix elements of sum_i t_li d_i^+ + h.c. between '
     'Fock states before diagonalisation, and between the energy eigenstates it reports after diagonalisation. '
     'They are Hermitian, change the charge by exactly one, and (for electron-phonon builders) the phonon amplitudes '
     'are in the same way the matrix elements of sum_ij v_ij d_i^+ d_j, in every indexing.',
     ['inputs', 'configurations'],
     'all couplings (real or complex), level numbers, lead numbers, indexings and Hamiltonians, including degenerate '
     'spectra',
     'the tests compare one system per indexing with stored numbers; relative phases between amplitudes of different '
     'leads and eigenstates are not pinned',
     ['qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/qdot.py'],
     [('construct_Tba, rotate_Tba', 'qmeq/leadstun.py'), ('elph_construct_Vbbp, elph_rotate_Vbbp', 'qmeq/baths.py')],
     ['Builder.Tba', 'Builder.Ea', 'BuilderElPh.Vbbp'],
     technique='property-based testing against reference operators via basis-independent trace invariants',
     note='Equality up to the unavoidable freedom of eigenvector phases and degenerate rotations is decided with '
          'mixed traces tr(e^{-sH} T_l e^{-tH} T_k ...), compared with dense reference operators.')

prop('C03', 'State labels and density-matrix indices form a consistent one-to-one labelling',
     'In every indexing each many-body index denotes exactly one Fock state and back, the listed charge and spin '
     'sectors partition the indices and carry the labels they claim, and eigenstates carry consecutive indices within '
     'their sector. '
     'Every kept density-matrix element has exactly one index, an element and its transpose refer to the same '
     'conjugate pair, populations come first, elements that the symmetry forbids have none, and the advertised counts '
     'equal the number of distinct indices.',
     ['inputs', 'configurations', 'histories'],
     'all level numbers, indexings, both density-matrix layouts and all subsets of kept states or removed Fock states',
     'the tests enumerate the tables for one or two sizes with everything kept; the index arithmetic depends on sector '
     'sizes that change whenever states are removed',
     ['qmeq/indexing.py'],
     [('StateIndexing.get_ind/get_state/get_lst', 'qmeq/indexing.py'),
      ('StateIndexingDM/DMc set_statesdm, set_dictdm, set_mapdm, get_ind_dm0, get_ind_dm1', 'qmeq/indexing.py')],
     ['StateIndexing', 'StateIndexingDM', 'StateIndexingDMc'],
     technique='property-based testing of bijection/partition invariants over generated state subsets',
     note='Sizes up to 6 levels; reference labels computed from occupation numbers and reference spin operators.')

prop('C04', 'First-order stationary states and currents satisfy the textbook master equations',
     'For the Pauli, Lindblad, Redfield and 1vN approaches the reported density matrix makes the right-hand side of '
     'the textbook master equation, built from the reported energies and amplitudes, vanish and has unit trace. '
     'The reported particle, energy and heat currents of every lead and the current amplitudes are the values the same '
     'theory assigns to that density matrix, with golden-rule rates 2 pi |T|^2 f and the principal-value integrals '
     'selected by the integral type.',
     ['inputs', 'configurations'],
     'all systems, lead parameters (asymmetric bands, unequal temperatures), integral types 0-3, indexings, compiled '
     'and Python approaches',
     'the tests compare a single spinful dot with stored numbers; terms that cancel for that dot (unequal bands, '
     'complex phases, more than two leads, coherence-induced currents) are never exercised',
     ['qmeq/approach/base/pauli.py', 'qmeq/approach/base/lindblad.py', 'qmeq/approach/base/redfield.py',
      'qmeq/approach/base/neumann1.py', 'qmeq/approach/base/c_*.pyx', 'qmeq/approach/kernel_handler.py',
      'qmeq/approach/c_kernel_handler.pyx', 'qmeq/specfunc/specfunc.py'],
     [('generate_fct, generate_coupling_terms, generate_current of each approach', 'qmeq/approach/base'),
      ('set_matrix_element*', 'qmeq/approach/kernel_handler.py')],
     ['Builder.solve', 'Builder.phi0', 'Builder.get_phi0', 'Builder.get_phi1', 'Builder.current',
      'Builder.energy_current', 'Builder.heat_current'],
     technique='property-based testing against a dense reference master equation (residual and current oracle)',
     note='The residual oracle is exact for singular and multistable systems alike (it never inverts); integrals come '
          'from an own principal-value quadrature and scipy digamma.')

prop('C05', 'Compiled and pure-Python implementations agree',
     'For every system and every setting, a compiled approach and its pure-Python counterpart report the same '
     'energies, kernel, density matrix, current amplitudes, currents, energy currents, heat currents and success flag '
     'up to rounding. This covers Pauli, Lindblad, Redfield, 1vN, 2vN and RTD, with and without phonons, matrix-free '
     'and kernel-based, with states or coherences removed, and the special functions both worlds provide.',
     ['inputs', 'configurations', 'histories'],
     'all systems, settings and state/coherence removals for which both implementations accept the input',
     'the tests compare both against the same stored numbers for one system; the compiled code has its own index '
     'buffers, cached pointers and branches that only other shapes reach',
     ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/approach/c_aprclass.pyx', 'qmeq/approach/c_kernel_handler.pyx',
      'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/c_specfunc_elph.pyx'],
     [('the .pyx re-implementation of each .py approach', 'qmeq/approach'),
      ('c_specfunc, c_specfunc_elph', 'qmeq/specfunc')],
     ['Builder.kern', 'Builder.phi0', 'Builder.phi1', 'Builder.current', 'Builder.energy_current',
      'Builder.heat_current'],
     technique='differential property-based testing of compiled against Python approaches',
     note='Kernels are compared element-wise, so no conditioning enters; solutions are compared through the kernel '
          'residual where the system is ill-conditioned.')

prop('C06', 'The stationary solution is normalised and independent of how it is solved for',
     'Whenever a solve reports success, the populations sum to one and the reported density matrix is annihilated by '
     'the kernel. The result does not depend on which population row is replaced by the normalisation, on keeping all equations, on '
     'direct versus least-squares versus matrix-free solution, nor on repeating the solve, as long as the stationary '
     'state is unique.',
     ['inputs', 'configurations', 'histories'],
     'all well-posed systems, norm_row values, symq, solmethod, mfreeq, start vectors, and repeated solves',
     'the tests try one norm_row and one matrix-free start on a single system',
     ['qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx', 'qmeq/wrappers/c_lapack.pyx',
      'qmeq/approach/kernel_handler.py'],
     [('solve_kern, solve_matrix_free, generate_norm_vec, prepare_kern', 'qmeq/approach/aprclass.py'),
      ('dgesv/dgelsd wrappers', 'qmeq/wrappers/c_lapack.pyx')],
     ['Builder.solve', 'Builder.phi0', 'Builder.kern', 'Builder.success', 'Builder.current'],
     technique='metamorphic property-based testing over solver settings with conditioning-scaled tolerances',
     note='Uniqueness is measured (second singular value of the kernel); ill-conditioned systems are only checked for '
          'residual and trace.')

prop('C07', 'Density matrices are Hermitian, and non-negative where the theory guarantees it',
     'Reported density matrices are Hermitian with real populations and zero elements between different charges. '
     'In the Pauli approach all populations are probabilities between 0 and 1, and in the Lindblad approach the whole '
     'density matrix is positive semi-definite, for every system with a unique stationary state.',
     ['inputs', 'configurations'],
     'all systems including degenerate levels, strong coupling, strong bias, low temperature, spin symmetry and phonons',
     'the tests compare a few populations of one system with stored numbers',
     ['qmeq/approach/base/pauli.py', 'qmeq/approach/base/lindblad.py', 'qmeq/approach/elph', 'qmeq/indexing.py',
      'qmeq/builder/various.py'],
     [('jump operators tLba and their use in the kernel', 'qmeq/approach/base/lindblad.py'),
      ('get_phi0', 'qmeq/builder/various.py')],
     ['Builder.get_phi0', 'Builder.phi0'],
     technique='property-based testing of positivity/Hermiticity invariants on extreme systems',
     note='Positivity tolerance scales with the measured conditioning of the kernel.')

prop('C08', 'Charge and energy are conserved and heat currents follow from them',
     'In the stationary state the particle currents of all leads sum to zero in every approach, and without phonons the '
     'energy currents sum to zero in the Pauli, Lindblad and 1vN approaches (Redfield conserves energy only without '
     'coherences, 2vN up to the discretisation of its grid). For every lead the heat current equals the energy current minus the chemical potential times the particle '
     'current, and a lead that is not coupled carries no current.',
     ['inputs', 'configurations'],
     'all systems, leads (any number), lead parameters, integral types and approaches',
     'the stored numbers of the tests obey conservation only for one two-terminal dot',
     ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/approach/aprclass.py'],
     [('generate_current of each approach', 'qmeq/approach')],
     ['Builder.current', 'Builder.energy_current', 'Builder.heat_current'],
     technique='property-based testing of conservation-law invariants',
     note='Bounds scale with kernel size and solution norm.')

prop('C09', 'Equilibrium carries no current and obeys thermodynamics',
     'With equal chemical potentials and temperatures in all leads, the Pauli approach yields the grand-canonical '
     'populations and vanishing particle, energy and heat currents; the other first-order approaches agree '
     'for dots whose coherences are absent or removed. Out of equilibrium the Pauli approach never '
     'produces negative entropy: the sum of the heat currents out of the leads, each divided by its temperature, is not '
     'positive, net power is never generated at equal temperatures (also with phonon baths of that temperature), and '
     'the linear response is reciprocal (Onsager).',
     ['inputs', 'configurations'],
     'all connected systems, common or lead-dependent chemical potentials and temperatures',
     'no test runs a system in equilibrium or checks a thermodynamic inequality',
     ['qmeq/approach/base/pauli.py', 'qmeq/specfunc/specfunc.py', 'qmeq/approach/base'],
     [('detailed balance of the in/out rates (func_pauli)', 'qmeq/specfunc/specfunc.py')],
     ['Builder.phi0', 'Builder.current', 'Builder.energy_current', 'Builder.heat_current'],
     technique='property-based testing of equilibrium and second-law invariants',
     note='')

prop('C10', 'Observables do not depend on representation',
     'Currents, energy currents, heat currents, the spectrum and charge-sector populations are unchanged when the same '
     'physical system is written with another indexing, another order of levels or leads, another phase convention or '
     'basis of the single-particle levels, real instead of complex matrix types, split or recombined leads, or shifted '
     'energy zero (energy currents shift by the shift times the particle current); the particle-hole transformed system '
     'carries the opposite particle currents. Rescaling every energy (levels, couplings, '
     'temperatures, potentials, bands, with amplitudes scaled by the square root of the scale) rescales particle '
     'currents linearly and energy currents quadratically.',
     ['inputs', 'configurations'],
     'all systems and all such re-descriptions',
     'each indexing is tested against its own stored numbers for one model',
     ['qmeq/indexing.py', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/approach/base', 'qmeq/specfunc/specfunc.py'],
     [('sector bookkeeping', 'qmeq/indexing.py'), ('block rotation', 'qmeq/leadstun.py')],
     ['Builder.current', 'Builder.energy_current', 'Builder.heat_current', 'Builder.Ea'],
     technique='metamorphic property-based testing (re-indexing, relabelling, gauge, basis change, scaling)',
     note='')

prop('C11', 'Equivalent inputs give equal systems and inputs are left untouched',
     'Hamiltonian, interaction, tunnelling, phonon-coupling, chemical-potential, temperature and bandwidth data given as '
     'dictionary, list or array describe the same system, and the spin symmetry flag gives the same result as writing '
     'out both spin species explicitly, however the flag string was made. '
     'Building, changing and solving never modify objects the caller passed in, and later changes of those objects '
     'never reach the system.',
     ['inputs', 'configurations', 'histories'],
     'all systems and all admissible representations of the same data, at construction and in later additions/changes',
     'the tests convert two or three hand-written lists; symmetric expansion is only compared with stored numbers of '
     'one model',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/builder/builder_base.py'],
     [('make_hsingle_dict, make_coulomb_dict', 'qmeq/qdot.py'),
      ('make_tleads_dict, make_array, make_array_dlst', 'qmeq/leadstun.py'), ('make_velph_dict', 'qmeq/baths.py'),
      ('ModelParameters deep copy', 'qmeq/builder/builder_base.py')],
     ['Builder', 'Builder.add', 'Builder.change'],
     technique='metamorphic property-based testing over input representations',
     note='')

prop('C12', 'A modified system equals a freshly built one',
     'After any sequence of add, change and solve calls on Hamiltonian, interaction, tunnelling, phonon and lead '
     'parameters (including changes to zero and assignment of new bandwidths), the system reports the same energies, amplitudes, '
     'parameters, density matrix and currents as a new system built with the resulting parameters. '
     'Adding a value and then its negative, or changing a value and changing it back, restores the original results.',
     ['histories', 'inputs'],
     'all interleavings of add/change/solve with all parameter kinds, input forms, indexings and approaches',
     'the tests perform one add and one change on one parameter each and never after a solve in another configuration',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/builder/builder_base.py',
      'qmeq/approach/c_aprclass.pyx'],
     [('incremental Hamiltonian/Tba/Vbbp updates', 'qmeq/qdot.py, leadstun.py, baths.py'),
      ('in-place parameter arrays shared with compiled views', 'qmeq/leadstun.py')],
     ['Builder.add', 'Builder.change', 'Builder.dband', 'Builder.solve'],
     technique='model-based stateful testing (operation histories against a fresh-build model)',
     note='')

prop('C13', 'Reconfiguring a system equals building it in that configuration',
     'After any history of switching the approach, the solver settings (all-equations mode, normalisation row, solution '
     'method, matrix-free mode, start vector, integral type) and solving, the next solve reports what a fresh system '
     'with the final configuration reports. Solving twice, or solving with partial steps (no diagonalisation, no '
     'master equation, no currents) when nothing changed, leaves the results unchanged.',
     ['histories', 'configurations'],
     'all sequences of attribute assignments and solves over all approaches',
     'the tests switch the approach once per system',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/approach/aprclass.py',
      'qmeq/approach/c_aprclass.pyx'],
     [('set_kerntype/change_si', 'qmeq/builder/builder_base.py'),
      ('is_prepared/states_changed, prepare_kern, clean_arrays', 'qmeq/approach/aprclass.py')],
     ['Builder.kerntype', 'Builder.solve', 'Builder.symq', 'Builder.norm_row', 'Builder.mfreeq', 'Builder.itype'],
     technique='model-based stateful testing of configuration histories',
     note='')

prop('C14', 'Removing states or coherences restricts the theory exactly to what is kept',
     'Removing high-energy states, Fock states or coherences, at any time and repeatedly, gives the results of the same '
     'theory formulated only with what is kept: removed states and coherences have zero density-matrix elements and '
     'contribute to no rate or current. A removal that removes nothing changes nothing, removing Fock states gives the '
     'spectrum of the projected Hamiltonian, and using all states again restores the original results '
     '(removing states starts again from all coherences, so coherences are removed after states).',
     ['histories', 'inputs'],
     'all systems, energy cut-offs, sets of Fock states, and orders of removal, solve, restore and parameter change',
     'the tests call each removal once on one system with the default approach and look at index tables',
     ['qmeq/builder/various.py', 'qmeq/indexing.py', 'qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py',
      'qmeq/approach/c_kernel_handler.pyx'],
     [('remove_states, remove_coherences, use_all_states', 'qmeq/builder/various.py'),
      ('remove_fock_states, set_statesdm', 'qmeq/indexing.py')],
     ['Builder.remove_states', 'Builder.remove_coherences', 'Builder.remove_fock_states', 'Builder.use_all_states'],
     technique='property-based testing against a truncated dense reference; removal histories against a model',
     note='')

prop('C15', 'A system given by many-body data equals the one it was taken from',
     'Building a system directly from many-body energies, particle numbers and amplitudes (and phonon amplitudes) gives the '
     'same density matrix and currents as the single-particle description those data were taken from, in every approach. '
     'The order of the many-body states, a common offset of the particle numbers and the presence of unused charge '
     'sectors do not matter.',
     ['inputs', 'configurations'],
     'all spectra, orders of states and particle-number ranges',
     'no test builds a solvable system from many-body data',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/indexing.py'],
     [('BuilderManyBody._init_state_indexing', 'qmeq/builder/builder_base.py')],
     ['Builder.many_body', 'Builder.many_body_elph'],
     technique='differential property-based testing (many-body input against single-particle input)',
     note='')

prop('C16', 'The special functions equal what they denote for every argument',
     'Fermi and Bose functions, their differences, digamma and polygamma values, the first-order integrals of every '
     'type, Hilbert transforms and the second-order integrals equal their mathematical definitions over the whole range '
     'of finite arguments, including extreme and coinciding ones, without overflow or discontinuity. '
     'They obey the particle-hole, scaling and symmetry relations of the integrals they denote.',
     ['inputs'],
     'all finite arguments: near poles, at coinciding energies, at band edges, extreme energy/temperature ratios',
     'the tests evaluate each function at one or two points',
     ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/specfunc_elph.py',
      'qmeq/specfunc/c_specfunc_elph.pyx'],
     [('fermi_func, func_pauli, func_1vN, func_1vN_elph, integralD, integralX, digamma, polygamma, hilbert transforms',
       'qmeq/specfunc')],
     ['qmeq.specfunc'],
     technique='property-based testing against scipy/own quadrature oracles and functional relations',
     note='')

prop('C17', 'The 2vN approach is exact for non-interacting dots and conserves charge',
     'For every non-interacting dot without coherences between its levels the converged 2vN approach gives the exact '
     'transmission (Landauer) particle current within the discretisation error of its energy grid, and for every dot and every iteration number it has unit trace, '
     'a Hermitian density matrix, charge conservation and heat currents consistent with energy currents. '
     'Iterating n then m more times without restarting equals iterating n+m times, and the recorded history holds the '
     'values each iteration reported. '
     'For interacting dots with levels in separate channels, currents and populations agree with the RTD approach to '
     'second order in the tunnelling rates.',
     ['inputs', 'histories'],
     'all dots, lead parameters, grids and split points of the iteration sequence',
     'the tests run a few iterations of one system and compare stored numbers',
     ['qmeq/approach/base/neumann2.py', 'qmeq/approach/base/c_neumann2.pyx', 'qmeq/approach/aprclass.py',
      'qmeq/specfunc/specfunc.py'],
     [('phi1k_iterate, get_phi1_phi0, grid extension and Hilbert transform', 'qmeq/approach/base/neumann2.py')],
     ['Builder.solve', 'Builder.iters', 'Builder.current'],
     technique='property-based testing against exact Landauer currents, a differential second-order expansion and '
               'iteration-history relations',
     note='')

prop('C18', 'The RTD approach is the exact second-order expansion and conserves charge',
     'For any non-interacting dot in the wide-band limit the particle and energy currents of the RTD approach equal the '
     'exact currents to second order in the tunnelling rates. For interacting dots they agree with the 2vN approach to the '
     'same order; in equilibrium the populations are exact to first order in the rates and the particle current vanishes to '
     'second order; and as the coupling goes to zero populations and currents tend to those of the Pauli approach. '
     'At any coupling strength the populations sum to one, the particle currents of the leads sum to zero, and the '
     'result does not depend on how leads with the same filling are split or combined, on decoupled leads, on far-away '
     'band edges, on the zero of energy or on the energy unit.',
     ['inputs', 'configurations'],
     'all systems with distinct energies within a charge sector (any number of leads, interacting or not, real and complex, '
     'equal and unequal temperatures), coupling strengths and biases',
     'the tests compare stored numbers of one system',
     ['qmeq/approach/base/RTD.py', 'qmeq/approach/base/c_RTD.pyx', 'qmeq/specfunc/specfunc.py'],
     [('generate_kern second-order diagrams, integralD/integralX', 'qmeq/approach/base/RTD.py')],
     ['Builder.solve', 'Builder.current', 'Builder.energy_current'],
     technique='property-based testing against exact expansions, limits and invariants',
     note='Expansions are extracted by solving at three coupling strengths and extrapolating. Up to 3 levels and 3 leads. '
          'Complex amplitudes use approximate frequency sums: tolerance 10% of Gamma^2/T and no energy currents.')

prop('C19', 'Phonon baths act with golden-rule rates and detailed balance',
     'With phonon baths the stationary state of every first-order approach satisfies the textbook master equation '
     'with the bath occupation and spectral density given, phonons never change the dot charge or carry particle '
     'current, and a bath with zero coupling changes nothing. With leads and baths at one temperature and equal '
     'chemical potentials, the Pauli approach yields the grand-canonical populations and no currents. Rates between '
     'degenerate states are the limit of those for a vanishing splitting and do not depend on the choice of the '
     'degenerate levels\' basis.',
     ['inputs', 'configurations'],
     'all dots, couplings, baths, temperatures, spectral densities and approaches',
     'the tests compare stored numbers of one two-level dot with one set of baths',
     ['qmeq/baths.py', 'qmeq/approach/elph', 'qmeq/specfunc/specfunc_elph.py', 'qmeq/builder/builder_elph.py'],
     [('generate_fct / generate_coupling_terms of the elph approaches', 'qmeq/approach/elph')],
     ['Builder.elph', 'Builder.solve', 'Builder.phi0', 'Builder.current'],
     technique='property-based testing against a dense reference with phonon dissipators and equilibrium invariants',
     note='')

prop('C20', 'Accessors, sorting and printing report the solved system faithfully',
     'Density-matrix and current-amplitude accessors return, for every pair of states and every approach, the element '
     'of the reported solution (zero for elements outside the theory, conjugate for exchanged arguments), in the '
     'current sort order. Sorting orders states by the requested properties without altering the physics or the '
     'caller\'s list, and printing shows, for every state, the energy, charge, spin labels and eigenvector '
     'coefficients of that state.',
     ['inputs', 'configurations', 'histories'],
     'all approaches, indexings, state pairs, sort orders, cut-offs and kept-state subsets',
     'the tests look up a handful of elements for one approach and compare the printed text of one state',
     ['qmeq/builder/various.py', 'qmeq/indexing.py'],
     [('get_phi0, get_phi1, sort_eigenstates, print_state', 'qmeq/builder/various.py')],
     ['Builder.get_phi0', 'Builder.get_phi1', 'Builder.sort_eigenstates', 'Builder.print_state',
      'Builder.print_all_states'],
     technique='property-based testing of accessors against traces, currents and eigen-equations',
     note='')

prop('C21', 'Unsupported settings fall back as documented and failures are reported',
     'For every combination of approach, indexing, symmetry, integral type and solver setting, including unknown ones, '
     'construction and later changes either work with exactly the documented fallback value (with a printed warning, and '
     'from then on as if that value had been requested) or raise; valid settings give no warning. '
     'A solve whose linear system is singular (direct solver), whose equations are not finite, or whose integrals cannot '
     'be evaluated reports failure or raises instead of leaving numbers, also in compiled code; a matrix-free iteration is reported as successful only when its result fulfils the equations; exceptions of spectral densities '
     'given by the user reach the user. The failure does not outlive its cause: once the parameter is valid again, results '
     'equal those of a new system. Nothing crashes the process.',
     ['configurations', 'inputs', 'histories'],
     'all combinations of settings; singular systems, parameters that are not finite and iterations that do not converge, in sequences of failures and repairs',
     'the tests pass only valid settings apart from one or two warnings',
     ['qmeq/builder/validation.py', 'qmeq/builder/builder_base.py', 'qmeq/approach/aprclass.py',
      'qmeq/approach/c_aprclass.pyx', 'qmeq/specfunc/c_specfunc_elph.pyx'],
     [('validate_kerntype/itype/indexing/mfreeq', 'qmeq/builder/validation.py'),
      ('solve_kern exception handling', 'qmeq/approach/aprclass.py')],
     ['Builder', 'Builder.success'],
     technique='property-based testing over the full settings lattice with a fallback model; fault injection',
     note='Fallback table in the harness; faults: nan/inf/zero parameters, no tunnelling, band edge on a level, wrong normalisation row, '
          'solver or start vector, spectral densities that raise, are missing or of the wrong class.')

ORDER = [p['d']['id'] for p in P]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['d']['title']) <= 80, p['d']['title']
            f.write(json.dumps(p['d']) + '\n')
    checks, na = [], []
    for p in P:
        d = p['d']
        if os.path.isfile(os.path.join(HERE, 'vq', 'props', d['id'].lower() + '.py')):
            checks.append(dict(property=d['id'], quick_cmd='./check %s quick' % d['id'],
                               thorough_cmd='./check %s thorough' % d['id'],
                               evidence_file='evidence/%s.json' % d['id'],
                               technique=p['technique'], level='exploration',
                               level_note=p['note'] or 'Generated-input search; no proof of absence.'))
        else:
            na.append(dict(property=d['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -m vq.boot', checks=checks, not_applicable=na,
             notes='All checks: ./check ID [quick|thorough]; ./check ID --replay FILE replays one case. '
                   'No hooks in /repo are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
