"""per property: what is specified, generated and compared (goes into DESIGN.md)"""
NOTES = {
'C01': '''Specified: the index algebra of all frequency boxes. Data encode their own position or are random; the oracle indexes by Matsubara
label (`{label: value}` model) along generated axes. Bounded to boxes of ~80 and arrays of 4 axes.''',
'C02': '''Arrays whose entries are injective functions of their labels; the oracle evaluates that function at the labels the notation
prescribes (v, v-w, v+w, w//2 splitting; ph->pp relabellings), both signs of w. Requests whose window leaves the box are not generated,
except where the code documents a failure.''',
'C03': '''Oracle: explicit orbit enumeration (union-find over the images of every k-point under the generated symmetry list, `bzref.py`); weights,
reduction, expansion, average and symmetrisation compared with loops over orbits, for even/odd/unequal grids.''',
'C04': '''Momentum-labelled arrays (value = injective function of the k index); shifts checked modulo the grid, planes and paths by value of k, also
for corners outside of the first zone.''',
'C05': '''Random hermitian hopping tables (several orbitals, unequal weights) against a naive triple-loop phase sum; closed forms of the built-in
models with independent random parameters; light vertex against the analytic derivative of the sum and central differences.''',
'C06': '''Round trip through real files in scratch directories (several bands, lines of 15 weights, negative vectors); H(k) files written by
an independent writer in all header flavours.''',
'C07': '''Causal pole self-energies, k-dependent or not; the oracle is the tail with the given/fitted moments outside and the data inside. Core
estimation is checked by its contract (core inside the data, all data kept when the tail is never reached).''',
'C08': '''Dyson equation entry by entry in core and asymptotic region; filling against frequency sums with exact tail, free electrons (Fermi
function) and the Hubbard atom; round trips mu -> n -> mu; energies against their sums.''',
'C09': '''Bubble entries by frequency/momentum labels for all three notations; tails by explicit summation out to large boxes; Lindhard function
for free electrons; momentum average = local bubble.''',
'C10': '''Random (well conditioned) vertices and bubbles; dense numpy inversion as oracle; round trips between chi, Gamma, F and their auxiliary
counterparts; disconnected part; the crossing relation between the vertex at w = 0 and the diagonal v = v' (`diagonal_part_by_crossing`).''',
'C11': '''A vertex which is the bare interaction outside the core makes the big-box Bethe-Salpeter equation an exact oracle for the asymptotic formulas.''',
'C12': '''Loop over labels for the equation of motion; equality of the three-leg and full-vertex form; second-order diagram computed in imaginary time.''',
'C13': '''Dense Bethe-Salpeter equation per q with core and shell; sums over q with shifts by explicit index arithmetic; flat-band limit equals the
local equation; the high-level routines are called the way a run calls them (rank by rank).''',
'C14': '''Susceptibilities 1/chi = a_q + c w^2 with negative or positive masses (i.e. before/after the instability); invariants sum rule, positivity,
uniform shift of 1/chi; bisection as independent root finder.''',
'C15': '''Labels first (slices at w = v - v'), then the stored vertex of a simulated run (1..n ranks, files) against the formula entry by entry.''',
'C16': '''Simulated runs with 1..4 ranks write their files, the code assembles F_q and the optics vertex, the oracle evaluates the formula from the
same random ladder quantities.''',
'C17': '''Small vertices with inversion symmetry (what the transform convention of the code assumes): dense matrix, eigenvalues of the similar hermitian
matrix; cases where the power iteration is ill separated are discarded. Further gap functions must satisfy the equation themselves.''',
'C18': '''Shares against plain ranges for up to 300 simulated processes and 5000 tasks. Lists of collective operations and file accesses under real
`mpirun` with 1..5 processes; all ranks regenerate the data from the seed and compare. Schedules inside MPI are not controlled: the operations
are deterministic collectives.''',
'C19': '''Label sums for bubble and vertex contribution with analytic velocities (for unlike components the sum of ab and ba is compared: the formula in the
doc string and the code put the velocities on opposite sides of the vertex, which is the same for a physical vertex); real-frequency functions against the defining formulas on generated
grids; filling/chemical potential consistency, including gapped spectra.''',
'C20': '''Kernels against closed forms and explicit quadrature, Kramers-Kronig against a Lorentzian and against the second implementation, Pade against
random rational functions, MaxEnt by its own contract (back transform within the error bars, norm, sign, maximal functional, no dependence on the
history of the object, settings named in the configuration reach the solver; the controllers of whole tasks are compared with the stated flat-model problem solved by the documented class, and with its
particle-hole mirror image and change of units). Four defects found, all repaired. The spectrum is not compared: the problem is ill posed.''',
'C21': '''Worm and vertex files are generated band pattern by band pattern; the symmetrised file must hold the mean over the orbit of every pattern, every
reader must return the requested component in [w, v, v'] order, and one set of physical data stored as w2dynamics, EDFermion or default file must give the same
input. Two defects found, both repaired.''',
'C22': '''Configurations generated section by section and compared with the documented default or the given value, directly, through the YAML file and
through the saved copy; box inference against its definition; histories of create/save/clean operations with a set-of-folders model; real `mpirun`
with generated arrival delays. Five defects found, all repaired.''',
'C23': '''`vpbt/laws/refdga.py` is a reference model written from the equations (dense matrices in two fermionic frequencies, explicit k+q sums, no symmetries, no
notation shifts). Generated models run through `dga_main.main` in a scratch folder with pictures stubbed (0.25 s per run); every stored file is compared. Further
laws solve the Eliashberg equation of a run densely, or compare whole folders: one process against `mpirun -n 2..4`, symmetries against none, with and without pictures (really drawn), a run against the run repeated from its
stored configuration. Models for which the reference is ill conditioned (condition number above 1e3, no unique lambda) are skipped and counted as trivial; the laws that look at one
part of a run draw weakly interacting (`benign`) models, 99 % of which are usable, so that the pairing, optics and symmetry parts are reached. `vertex_correction_of_a_run`
uses momentum grids on which the vertex correction of the optical conductivity does not vanish by symmetry, with coarser q grids. Nine defects found, all repaired.''',
'C24': '''A run is made, its functions are replaced by generated ones that have a spectrum, and `dga_max_ent.main` continues it with generated sections; the stored
spectra must equal the continuation of one representative per class done by the class that C20 decides. Polynomial fits are compared with explicit least squares at every
momentum (not only the irreducible ones); `continuations_inside_a_run` checks the sections a run continues by itself, with the optics; Ornstein-Zernike fits with exact data and with the optimality conditions, zeros with an enumeration of all sign changes.
Seven defects found, all repaired.''',
'C25': '''Figures are recorded instead of written (`vpbt/laws/figs.py`): for every panel the drawn value at a coordinate can be asked for, whether it was drawn as mesh or as
image; lines, points and tick labels are read with their coordinates. Generated data are all different, so a transposition, a shift or a mixed-up panel shows. A law records all
figures of whole runs and compares them with the arrays that the same run stored. Eight defects found, all repaired.''',
}
