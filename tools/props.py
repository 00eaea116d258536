"""the properties: text, anchors, technique"""
NOT_APPLICABLE = {}
_T = 'property-based testing (Hypothesis): '
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=['src/dga/' + f for f in files], mech=[(n, 'src/dga/' + w) for n, w in mech],
                      tech=_T + tech, note=note))


P('C01', 'Matsubara grids, cuts, core/shell splits and bosonic sums are index-exact',
  'Frequency grids are centred (fermionic symmetric around zero, bosonic containing zero once) and every cut, core/shell split, '
  'concatenation and alignment of frequency boxes keeps exactly the entries that belong to the requested frequencies, along the '
  'requested axes, leaving all other axes untouched. Sums and products over bosonic frequencies combine only entries of equal frequency, '
  'with the stated normalisation and window.',
  ['inputs'], 'all box sizes, axes, array shapes, cut/shell sizes and (bosonic) shifts, for symmetric and positive-only boxes',
  'The tests sample a handful of sizes on one axis; off-by-one and wrong-axis errors need unequal core/shell sizes, other axes or odd '
  'shapes, which only a search over shapes and axes reaches.',
  ['matsubara_frequencies.py'],
  [('vn/wn/cut_v/cut_w/core-shell slices', 'matsubara_frequencies.py'), ('add_bosonic / bosonic sums', 'matsubara_frequencies.py')],
  'generated shapes/axes/cuts with position-encoding data against an index-level reference',
  'Exact equality against an explicit index model on generated shapes; bounded sizes (axes up to ~10, boxes up to ~80).')

P('C02', 'Frequency-shift notations and channel transforms relabel without loss',
  'Slices at v+-w (plus, minus and centred notation) and the particle-hole to particle-particle relabelling return exactly the entry whose '
  'Matsubara labels satisfy the defining relation, for positive and negative bosonic frequencies alike. No entry outside the box is ever '
  'substituted, and looking up a frequency index returns that frequency or fails.',
  ['inputs'], 'all bosonic indices of both signs, box sizes and leading axes for which the requested window exists',
  'Tests pin few frequencies with one sign; index errors appear only for odd/negative bosonic frequencies or unequal boxes.',
  ['matsubara_frequencies.py', 'pairing_vertex.py', 'local_four_point.py'],
  [('wn_slices_*, get_freq_shift', 'matsubara_frequencies.py'), ('ph_to_pp_notation', 'pairing_vertex.py')],
  'label-encoding arrays, frequency-label oracle',
  'Exact equality on arrays that encode their own Matsubara labels.')

P('C03', 'The irreducible Brillouin zone represents exactly the symmetry classes',
  'For any grid and symmetry set, two k-points share a representative exactly when the chosen lattice symmetries connect them, each class '
  'is counted with its true size, and momentum averages over the irreducible zone with these weights equal full-zone averages for symmetric '
  'data. Reducing to the irreducible zone and expanding again is the identity on symmetric data and symmetrising averages over each class.',
  ['inputs', 'configurations'], 'all grid sizes (even, odd, unequal axes), symmetry lists and data with extra axes',
  'Tests use one square grid; wrong classes appear only for odd, unequal or three-dimensional grids and unusual symmetry lists.',
  ['brillouin_zone.py'], [('KGrid (irrk_ind, irrk_inv, irrk_count, map_irrk2fbz, ...)', 'brillouin_zone.py'),
                          ('symmetrising operations', 'brillouin_zone.py')],
  'orbit-enumeration oracle for generated grids and symmetry lists',
  'Independent orbit enumeration on grids up to ~10x10x4.')

P('C04', 'k-grids, momentum shifts and k-paths address the right momenta',
  'A uniform k-grid covers the zone with the stated spacing; flattening, reshaping and shifting data by a momentum, and cutting planes, '
  'preserve which value belongs to which momentum modulo reciprocal lattice vectors. A k-path through named points visits grid '
  'momenta in order along straight lines and picks the data of exactly those momenta.',
  ['inputs', 'configurations'], 'all grid sizes, shifts (including negative and beyond the zone), planes and path strings',
  'Existing tests use symmetric grids where swapped axes cannot be seen.',
  ['brillouin_zone.py'], [('KGrid, KPath, shift_mat_by_q/ind, find_qpd_zeros helpers', 'brillouin_zone.py')],
  'momentum-label oracle on anisotropic grids', 'Momentum labels checked by exact index or 1e-9 value comparison.')

P('C05', 'H(k) and its derivatives are the Fourier transform of the real-space hoppings',
  'The dispersion computed from real-space hoppings equals the direct phase sum over all hopping vectors and orbitals, is hermitian and '
  'periodic for hermitian hoppings, and reproduces the closed forms of the built-in lattice models. Its light vertex equals the '
  'momentum derivative of the dispersion.',
  ['inputs', 'configurations'], 'all hopping tables, orbital counts, built-in model parameters and k-grids',
  'Tests fix one parameter set; sign or factor errors in single hopping terms vanish at symmetric parameters.',
  ['wannier.py'], [('WannierHr / wannier_one_band_2d_* / emery model', 'wannier.py')],
  'naive phase-sum oracle, closed forms, finite differences', 'Relative tolerance 1e-9 (1e-5 for finite differences).')

P('C06', 'hr- and hk-files round-trip the lattice Hamiltonian',
  'Writing a tight-binding Hamiltonian to a file and reading it back reproduces the hopping vectors, weights, orbitals and amplitudes to the '
  'precision of the format, and the dispersion of the reread Hamiltonian is that of the written one. H(k) files are read back with the k-points '
  'and matrix elements they were written with.',
  ['inputs'], 'all numbers of hoppings, orbitals, k-points, header flavours and amplitudes within the format width',
  'Tests read one stored file.', ['wannier.py'], [('save/read hr, hk files, read_hk_w2k', 'wannier.py')],
  'write/read round trip and independent file writer', 'Round trip within printed precision.')

P('C07', 'The self-energy object is continued by its fitted high-frequency tail only',
  'A self-energy keeps its given values inside the core box and equals the Hartree-plus-1/v tail outside, at every requested frequency '
  'range and momentum, obeying the symmetry Sigma(-v)=conj Sigma(v). The tail coefficients follow from the data (or the given '
  'moments), and a core range is never chosen beyond the available data.',
  ['inputs'], 'all box sizes, core sizes, momentum grids, temperatures and causal self-energies',
  'The tests for this class cannot run here and sample one self-energy.', ['two_point.py'],
  [('SelfEnergy (get_siw, concatenate_self_energies, estimate_niv_core, fit_smom)', 'two_point.py')],
  'generated causal pole self-energies, explicit tail oracle', 'Relative tolerance 1e-9 for continuation, 1e-2..1e-6 for fits.')

P('C08', 'Dyson equation, filling, chemical potential and energies are consistent',
  "Lattice and local Green's functions satisfy Dyson's equation at every frequency and momentum, and the occupation computed from them "
  'agrees with the exact one, including the high-frequency tail. The adjusted chemical potential reproduces the requested filling, and '
  'kinetic and potential energies agree with their defining sums.',
  ['inputs'], 'dispersions, causal self-energies, temperatures, fillings and interaction strengths in the physical range',
  'Filling and energy tests fix one case; tails and Newton failures show up only at unusual fillings or temperatures.',
  ['two_point.py'], [('GreensFunction, update_mu, get_fill, e_kin/e_pot', 'two_point.py')],
  'naive sums, exactly solvable limits (free electrons, Hubbard atom)', 'Tolerances 1e-10 (Dyson), 1e-6..1e-3 (frequency sums).')

P('C09', "The bubble is the product of Green's functions shifted by the bosonic momentum",
  "Every entry of the bare particle-hole bubble equals minus the temperature-weighted product of the two Green's functions whose "
  'frequencies and momenta satisfy the chosen notation (plus, minus, centred), averaged over the zone, for positive and negative bosonic '
  'frequencies and any momentum. Its average over momenta is the local bubble built from the local propagator, its summed tail equals the '
  'sum over the range outside the box, and for free electrons the frequency-summed bubble is the Lindhard function.',
  ['inputs', 'configurations'], 'dispersions, causal self-energies, temperatures, box sizes, notations, q lists and bosonic frequency lists',
  'No bubble test can run in the baseline; a fixed symmetric grid and w=0 hide wrong signs of q, w or the notation.',
  ['bubble.py'], [('BubbleGenerator (get_gchi0, get_chi0, get_chi0_shell, asymptotic sums)', 'bubble.py')],
  'frequency/momentum label oracle, Lindhard function', 'Label oracle at 1e-9; frequency sums to their truncation error.')

P('C10', 'The local Bethe-Salpeter equation is inverted and composed without loss',
  'The irreducible vertex extracted from a generalised susceptibility, inserted again into the Bethe-Salpeter equation with the same '
  'bubble, returns this susceptibility at every frequency and channel. Auxiliary susceptibility, full vertex, three-leg vertex and physical '
  'susceptibility satisfy their defining relations, and subtracting or adding the disconnected part of the two-particle function is exact '
  'and only affects the density channel at zero bosonic frequency.',
  ['inputs'], 'channels, bubbles, vertices, interactions, temperatures, bosonic frequency lists and box sizes',
  'The tests for the local four-point functions cannot run in the baseline and use one stored data set.',
  ['local_four_point.py', 'two_point.py'], [('gammar/chi/f relations, get_chir_from_g2, LocalFourPoint', 'local_four_point.py')],
  'round trips and dense matrix equations', 'Well conditioned cases only; tolerance scales with the condition number.')

P('C11', 'The asymptotic correction reproduces the large-frequency-box result',
  'With an irreducible vertex that equals the bare interaction outside the core box, the susceptibilities and three-leg vertices obtained '
  'in the small core box with asymptotic corrections equal those of the dense Bethe-Salpeter equation solved in the full box, in the core '
  'region, for both channels and every bosonic frequency. Enlarging the outer box changes nothing if the propagator contribution there is unchanged.',
  ['inputs', 'configurations'], 'core and shell sizes, channels, temperatures, interactions, bubbles and vertices',
  'The existing tests compare plots or a single stored data set.', ['local_four_point.py'],
  [('*_uasympt, get_urange, shell corrections', 'local_four_point.py')],
  'dense big-box Bethe-Salpeter oracle', 'Well conditioned cases; tolerance scales with the condition number.')

P('C12', 'The local equation of motion holds in all its equivalent forms',
  'The local self-energy from the Schwinger-Dyson equation equals the explicit frequency sum of the equation of motion, for any '
  'list of bosonic frequencies. The three-leg form, the full-vertex form and the two channels agree with one another, and at weak coupling the '
  'result approaches second-order perturbation theory.',
  ['inputs'], 'propagators, vertices, temperatures, interactions, box and shell sizes, bosonic frequency lists',
  'The tests for it cannot run in the baseline and use one stored data set with loose tolerances.',
  ['local_four_point.py', 'high_level_routines.py'], [('schwinger_dyson_*, local_sde_from_g2', 'local_four_point.py')],
  'naive label sums, algebraic identities, perturbation theory', 'Sum oracle at 1e-9, perturbation theory within its truncation error.')

P('C13', 'The momentum-dependent ladder and equation of motion hold at every q',
  'At every momentum the ladder susceptibility and three-leg vertex solve the Bethe-Salpeter equation with that momentum\'s bubble and the local irreducible '
  'vertex, and the non-local self-energy is the explicit sum over transferred momenta (with their multiplicities) and frequencies. Without momentum '
  'dependence of the propagator the non-local self-energy equals the local one.',
  ['inputs', 'configurations'], 'k-grids, q lists with multiplicities, dispersions, vertices, temperatures, interactions and frequency boxes',
  'Tests use the full symmetric grid of one stored case, where wrong momentum signs and weights cancel.',
  ['four_point.py', 'high_level_routines.py'], [('LadderObject functions, get_kernel_dc, schwinger_dyson_*', 'four_point.py')],
  'dense per-q equation, label sums, flat-band limit', 'Well conditioned cases on grids up to ~3x3x2.')

P('C14', 'The lambda correction enforces the local sum rules on the physical branch',
  'After the lambda correction the momentum- and frequency-summed susceptibility equals the local one in the corrected channel(s), every '
  'corrected static susceptibility stays positive, and the inverse susceptibility is shifted by the same constant at every momentum and frequency. '
  'If the sum rule holds already, nothing is changed.',
  ['inputs'], 'positive lattice susceptibilities, momentum grids, bosonic frequency boxes, temperatures and correction types',
  'Tests cannot run in the baseline; a Newton search that leaves the physical branch shows only for strong or negative corrections.',
  ['lambda_correction.py'], [('lambda_correction, get_lambda_start, newton', 'lambda_correction.py')],
  'sum-rule and branch invariants, independent root finder', 'Sum rule to the solver tolerance.')

P('C15', 'The pairing vertex takes exactly the frequencies and momenta of its definition',
  'The singlet/triplet pairing vertex at (k, v, v\') combines the ladder quantities at w = v - v\' and the three-leg vertices, susceptibilities and local full '
  'vertices of the same labels, for every irreducible momentum on every grid, and equals the ladder formula evaluated entry by entry. '
  'Storing its components and re-assembling them changes nothing, and the omega = 0 slice is the ladder vertex itself.',
  ['inputs', 'configurations'], 'grids, frequency boxes, temperatures, interactions, channels and rank layouts',
  'The code path needs MPI and files and has no runnable test; a wrong slice or sign is invisible on the symmetric stored data.',
  ['pairing_vertex.py', 'high_level_routines.py'], [('get_pairing_vertex, ladder_vertex_from_rank_files, add_afm', 'pairing_vertex.py')],
  'label-encoding arrays and entry-by-entry ladder formula', 'Relations at 1e-9 on grids up to 4x4x1 / 3x2x2 and boxes up to 8 frequencies.')

P('C16', 'The stored full and optics vertices are complete and correctly labelled',
  'The full ladder vertex assembled from the per-process files of any process layout contains, at every irreducible momentum and at every bosonic '
  'frequency of both signs, the ladder formula evaluated from the physical susceptibility, the three-leg vertex and the local vertex. The vertex for the optical conductivity is '
  'its momentum average with the frequencies of the optics box, independent of the number of processes.',
  ['inputs', 'configurations'], 'grids, symmetries, boxes, temperatures, interactions, optics boxes and process layouts',
  'No runnable test touches these paths; the defects need negative bosonic frequencies or more than one process.',
  ['four_point.py', 'optics.py', 'high_level_routines.py'],
  [('save_and_load of F_q, load_vertex_from_rank_files', 'four_point.py'), ('load_optics_vertex_from_rank_files', 'optics.py')],
  'direct ladder formula per momentum and frequency against the files of simulated ranks', 'Relations at 1e-9 on small grids with 1-4 simulated ranks.')

P('C17', 'The Eliashberg solver returns eigenpairs of the linearised gap equation',
  'For every pairing vertex the returned leading eigenvalues and gap functions satisfy the linearised gap equation built from the vertex and the Green\'s functions, and the eigenvalues are the largest '
  'ones of the corresponding dense matrix in the requested symmetry sector. Starting gaps have the requested momentum and frequency symmetry, '
  'and symmetrising a vertex projects exactly on its singlet/triplet frequency parity.',
  ['inputs', 'configurations'], 'vertices, Green\'s functions, grids, frequency boxes, gap symmetries and convergence settings',
  'One test samples one model vertex; wrong norms, axes or sign conventions show only on unequal grids and several eigenvalues.',
  ['eliashberg_equation.py', 'pairing_vertex.py'], [('EliashbergPowerIteration, GapFunction', 'eliashberg_equation.py')],
  'dense eigenproblem as oracle', 'Eigenpairs at the power-iteration tolerance, grids up to ~4x4x2.')

P('C18', 'Work distribution loses nothing: any number of processes gives the same data',
  'For any number of tasks and processes the shares of the distributor are disjoint, ordered and cover every task. '
  'Gathering, scattering, reducing, broadcasting and the per-process files return exactly the data in the original order on every process.',
  ['schedules', 'configurations', 'inputs'], 'task counts (also fewer tasks than processes), process counts, array shapes and types',
  'The tests run in one process only.', ['mpi_aux.py'], [('MpiDistributor', 'mpi_aux.py')],
  'generated layouts against plain slicing, and generated operation lists under real mpirun with 1-5 processes',
  'Exact equality; real MPI runs with up to 5 processes.')

P('C19', 'Optical response and real-frequency functions follow their definitions',
  'The current-current bubble and its vertex corrections equal the explicit momentum/frequency sums with the velocities of the dispersion, for every bosonic frequency and box. '
  'Real-frequency Green\'s functions satisfy Dyson\'s equation with the given broadening, their spectral weight is normalised, the chemical potential '
  'reproduces the filling, and the real-frequency bubble equals the sum over poles.',
  ['inputs', 'configurations'], 'grids, dispersions, self-energies, fillings, broadenings and frequency ranges',
  'No baseline test covers optics; wrong signs and ranges compensate on symmetric data.',
  ['optics.py', 'two_point.py'], [('bubble, vertex sums, OpticsConfig', 'optics.py'), ('RealFrequencyGF', 'two_point.py')],
  'explicit label sums, closed forms and normalisation invariants', 'Sums at 1e-9; real-frequency filling at the solver tolerance.')

P('C20', 'Analytic continuation reproduces its data and follows its settings',
  'The continuation kernels are the exact spectral representations, so a continued spectrum transformed back reproduces every fitted Matsubara value within the error bars. '
  'Spectra are non-negative, normalised to the data and reported on the configured real-frequency mesh, and continuing one function never depends on those continued before it. '
  'Kramers-Kronig partners, Pade approximants and polynomial extrapolations are exact on the function classes they are defined for.',
  ['inputs', 'configurations', 'histories'], 'meshes, kernels, spectra, noise levels, fit ranges, solver settings, order of continued functions',
  'The tests cover two spectra with default settings.', ['analytic_continuation.py', 'pade_aux.py', 'config.py'],
  [('MaxEnt, kernels, Kramers-Kronig', 'analytic_continuation.py'), ('PadeSolver', 'pade_aux.py'), ('MaxEntConfig', 'config.py')],
  'closed-form kernels and spectra, round trips spectrum -> Matsubara -> spectrum -> Matsubara, independence of history',
  'Continuation is ill posed: only the back transform, norm, sign and stationarity of the functional are checked, not the spectrum itself.')

P('C21', 'Impurity-solver data are read and symmetrised faithfully in every format',
  'The same physical one- and two-particle data give the identical input of a run whichever supported file format holds them: right atom, component, channel, '
  'frequency order and spin combination. Symmetrising solver output replaces every component by the mean over its spin and orbital equivalents and keeps the original. '
  'Cutting and symmetrising the vertex keeps the block around zero frequency and never alters the stored data.',
  ['inputs', 'configurations'], 'numbers of bands, atoms and inequivalent sites, symmetry classes, frequency boxes, worm groups, file types and channels',
  'The tests do not read any solver file.', ['dga_io.py', 'w2dyn_aux_dga.py', 'symmetrize.py', 'local_four_point.py'],
  [('load_1p_data, load_g2, build_g2_obj', 'dga_io.py'), ('w2dynamics readers', 'w2dyn_aux_dga.py'), ('symmetrisation', 'symmetrize.py')],
  'generated solver files with label-encoding data against an explicit orbit-mean model; equality of all formats',
  'Files are generated in the layout that the readers document; up to three bands and two atoms.')

P('C22', 'Every configured key takes effect and every run keeps its own, faithful output',
  'For every configuration file the documented defaults are used unless a key overrides them, inconsistent requests are rejected, and inferred ranges fit the data. '
  'Saving and re-reading the configuration or any array gives it back unchanged. '
  'Each run uses fresh folders on which all processes agree, and never touches what an earlier run stored.',
  ['configurations', 'histories', 'schedules'], 'configuration dictionaries and files, vertex sizes, folder/file operation histories, process counts and arrival orders',
  'The tests do not read configuration files.', ['config.py', 'dga_io.py', 'util.py', 'loggers.py'],
  [('DgaConfig and sections', 'config.py'), ('uniquify', 'util.py'), ('set_output_path', 'dga_io.py')],
  'generated configurations against the documented meaning; stateful histories of folder operations against a model; real mpirun',
  'Key names and defaults are pinned by the documented template; up to 4 MPI processes.')

P('C23', 'A whole run stores exactly what the DGA equations give for its input',
  'Every array and number that a run writes - vertices, susceptibilities, lambda, self-energy, Green\'s function, energies, optics and pairing vertices - equals the defining equations '
  'evaluated at every momentum of the full zone for the input it was given. Neither the number of processes, the lattice symmetries, optional outputs nor plots change it. '
  'A run can be repeated from its own output, and without dispersion it is DMFT.',
  ['inputs', 'configurations', 'schedules'], 'models, grids (also a coarser q-grid), boxes, lambda corrections, output options, symmetries, numbers of processes',
  'The tests do not execute the main program.', ['dga_main.py', 'dga_io.py', 'four_point.py', 'local_four_point.py', 'optics.py', 'pairing_vertex.py', 'config.py'],
  [('main', 'dga_main.py'), ('ladder and equation of motion', 'four_point.py'), ('vertex in optics', 'optics.py'), ('pairing vertex', 'pairing_vertex.py')],
  'generated models and configurations run through dga_main against an independent dense reference model; equality of runs under MPI, symmetry, option changes',
  'Small boxes and grids (at most 6x6 momenta, 9 frequencies); ill-conditioned models are skipped and counted.')

P('C24', 'Continuations, fits and Fermi surfaces of a run describe what it stored',
  'Continuing a finished run gives, at every momentum, the continuation of the stored function with the settings of its own section, fits self-energy and Green\'s function together and leaves the stored results alone, for any number of processes. '
  'Polynomial and Ornstein-Zernike fits are the least-squares fits of the stored functions. '
  'Zeros that define a Fermi surface lie at the grid points closest to the sign changes.',
  ['inputs', 'configurations', 'schedules'], 'stored functions, grids and coarser q-grids, sections, meshes, fit orders, momentum planes, numbers of processes',
  'The tests do not execute the continuation program and sample no fit.', ['dga_max_ent.py', 'dga_io.py', 'analytic_continuation.py', 'ornstein_zernicke_function.py', 'brillouin_zone.py', 'two_point.py'],
  [('main', 'dga_max_ent.py'), ('poly_fit, fit_and_plot_oz', 'dga_io.py'), ('find_zeros', 'brillouin_zone.py'), ('RealFrequencyGF', 'two_point.py')],
  'generated runs continued and compared momentum by momentum, exact fits recovered, sign changes enumerated',
  'The solver itself is property C20; here its use on a run is decided.')

P('C25', 'Figures show the stored data at the momenta and frequencies on their axes',
  'Every figure that a run or its post-processing writes shows the stored arrays at the momenta or frequencies given by its axes, for rectangular, odd and shifted grids and for every box, with each quantity in the panel or '
  'under the label that names it. Marked points, labels of special points, fitted curves, sums and differences stand at the coordinates of the data they belong to. Drawing never changes the data.',
  ['inputs', 'configurations'], 'matrices over rectangular, odd, shifted grids; paths; boxes of different sizes; windows; whole runs with their figures',
  'The tests draw no figure; visual tests are judged by eye.', ['plotting.py', 'high_level_plotting.py', 'local_four_point.py', 'brillouin_zone.py', 'dga_io.py', 'optics.py', 'dga_main.py', 'analytic_continuation.py'],
  [('plot_kx_ky, plot_cont_fs, ...', 'plotting.py'), ('plot_real_frequency_dispersion, plot_chi_along_kpath', 'high_level_plotting.py'), ('poly_fit, fit_and_plot_oz', 'dga_io.py'), ('KPath.x_ticks, KGrid.kx_shift', 'brillouin_zone.py')],
  'recorded figures: the drawn value at every coordinate of the grid is compared with the data at that momentum or frequency',
  'Geometry and values are decided, not colours, fonts or line styles.')
