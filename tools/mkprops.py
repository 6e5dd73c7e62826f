#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, written as JSON lines)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'Compiled phonon results do not depend on thread count or interleaving',
  'For any q-points, calculation options and number of threads, and for any interleaving of the worker threads, '
  'calculating phonon frequencies, eigenvectors and mode gradients with the compiled extension gives the same result as the '
  'single-threaded pure-Python calculation of the same request. '
  'No worker thread reads or writes memory that another worker may concurrently write, and no result depends on what newly '
  'allocated memory happened to contain.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of 1..n OpenMP worker threads at memory-access granularity, every thread count, every content of fresh '
  'memory, over force constants (with and without Born charges), q-point lists with any number and position of gamma points, '
  'and all calculation options',
  'The tests run the extension on whatever interleavings the OS happens to give, with one or two threads and a handful of '
  'fixed q-point lists; a race needs a particular preemption between two shared accesses, which is practically never hit.',
  ['c/_euphonic.c', 'c/dyn_mat.c', 'c/util.c', 'euphonic/force_constants.py'],
  [('omp parallel region with per-thread scratch buffers', 'c/_euphonic.c calculate_phonons'),
   ('independent per-q output slices', 'c/_euphonic.c'),
   ('n_threads / EUPHONIC_NUM_THREADS selection', 'euphonic/force_constants.py')],
  state=[('corr, dmat_per_q, dmat_grad', 'per-thread work buffers', 'c/_euphonic.c')],
  observe=['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies'])

p('C02', 'Failed allocations and eigensolver errors raise; never a crash or wrong data',
  'If a memory allocation or an eigenvalue-solver call made by the compiled extension fails during a phonon calculation, the '
  'calculation raises a Python exception, or still returns fully correct results; it never crashes the process and never returns '
  'frequencies or eigenvectors as if nothing had happened. '
  'A later calculation on the same object, once the fault is gone, gives correct results, and no memory is leaked or freed twice by either.',
  ['fault_sequences', 'schedules', 'inputs'],
  'every subset and position of failing allocations and of eigensolver calls reporting failure (at workspace query or at '
  'diagonalisation), on every worker thread and in every interleaving',
  'No test makes malloc or LAPACK fail; all of those branches are never executed by the suite.',
  ['c/_euphonic.c', 'c/dyn_mat.c', 'c/load_libs.c', 'euphonic/force_constants.py'],
  [('malloc/calloc/free of work arrays', 'c/dyn_mat.c, c/_euphonic.c'),
   ('zheevd info checks', 'c/dyn_mat.c diagonalise_dyn_mat_zheevd'),
   ('zheevd pointer lookup', 'c/load_libs.c get_zheevd')],
  observe=['exception or result of ForceConstants.calculate_qpoint_phonon_modes / _frequencies', 'process exit status'])

p('C03', 'Calculations depend only on current data and arguments, not on call history',
  'After any sequence of calculations with any options, failed calls, display-unit changes and replacements of its force constants, '
  'Born charges or dielectric tensor, a ForceConstants object gives the same result for a calculation as a newly made object holding '
  'the same current data asked only that one calculation. '
  'The sequence never alters the object\'s data except where it was explicitly set.',
  ['histories', 'inputs', 'configurations'],
  'every finite history of calculate calls (asr, dipole, dipole_parameter, splitting, insert_gamma, use_c, mode gradients), failed '
  'calls, setter calls and unit changes on one object',
  'Tests make a fresh object for nearly every calculation and never replace data after a calculation, so stale lazily cached '
  'tables cannot show.',
  ['euphonic/force_constants.py', 'euphonic/util.py', 'euphonic/crystal.py'],
  [('lazy supercell image tables', 'ForceConstants._calculate_supercell_images'),
   ('lazy Ewald tables keyed on dipole_parameter', 'ForceConstants._dipole_correction_init caller'),
   ('lazy ASR-corrected force constants', 'ForceConstants._enforce_realspace_asr caller'),
   ('data setters', 'ForceConstants.force_constants/born/dielectric setters')],
  state=[('_sc_image_i, _n_sc_images, _dipole_init_data, _force_constants_asr', 'caches filled on first use', 'euphonic/force_constants.py')],
  observe=['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies', 'ForceConstants.to_dict'])

p('C04', 'A calculation stopped part-way leaves its objects and the process sound',
  'If a calculation (phonons, structure factor, Debye-Waller, density of states, broadening, powder or spectrum operations) is '
  'stopped at any point by an exception such as KeyboardInterrupt or MemoryError, every object taking part still holds the same data '
  'as before and process-wide settings (warning filters, thread-pool limits, random state) are as they were before the call. '
  'The exception is never turned into a normally returned wrong result, and repeating the calculation afterwards gives the result that an undisturbed calculation gives.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every point of execution inside the library at which an exception may be raised, for every operation, repeatedly',
  'No test interrupts a calculation; the property quantifies over thousands of interruption points per operation.',
  ['euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py',
   'euphonic/debye_waller.py', 'euphonic/spectra.py', 'euphonic/broadening.py', 'euphonic/powder.py'],
  [('lazy caches assigned during a calculation', 'euphonic/force_constants.py'),
   ('catch-all fallback when the ASR modes are not found', 'ForceConstants._enforce_realspace_asr / _enforce_reciprocal_asr'),
   ('warnings.catch_warnings, threadpool_limits contexts', 'euphonic/qpoint_frequencies.py, euphonic/force_constants.py')],
  observe=['public attributes and to_dict() of all participating objects', 'warnings.filters', 'threadpool limits'])

p('C05', 'Concurrent callers sharing an object get the same results as alone',
  'When several caller threads run calculations at the same time on shared ForceConstants, QpointPhononModes, QpointFrequencies, '
  'StructureFactor or spectrum objects, each call returns the result it would have returned alone, whatever the interleaving, and the '
  'shared objects\' data is unchanged. '
  'This includes callers that use different calculation options (for example different dipole parameters) on the same object.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of 2..4 caller threads at source-line granularity, including the first use that fills lazy caches, over all '
  'read-only calculations and options',
  'The suite is single-threaded; the windows between checking, filling and using a lazy cache are a few bytecodes wide.',
  ['euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py',
   'euphonic/spectra.py', 'euphonic/util.py'],
  [('check-then-use of lazy caches', 'ForceConstants._calculate_phonons_at_qpts'),
   ('attribute rewriting before the C call', 'euphonic/util.py _ensure_contiguous_attrs')],
  state=[('_sc_image_i, _n_sc_images, _dipole_init_data, _force_constants_asr', 'lazily filled shared caches', 'euphonic/force_constants.py')],
  observe=['return value of every concurrent call'])

p('C06', 'Backend, environment and missing components never change results',
  'Whether the compiled extension is present, absent or fails to import, and whatever use_c, n_threads, EUPHONIC_NUM_THREADS and the '
  'memory layout of the input arrays are, a phonon calculation gives the same result or raises a clear error: an absent extension gives a '
  'warning and a correct pure-Python result by default and ImportCError when the extension was demanded. '
  'When optional packages (matplotlib, PyYAML, h5py, brille) are missing or appear later, features that need them raise an import error saying so and '
  'everything else gives unchanged results.',
  ['configurations', 'fault_sequences', 'histories'],
  'every combination and sequence of import faults, backend arguments and environment settings, interleaved with calculations on '
  'the same objects, and every array layout and integer width of the inputs',
  'Tests cover one missing-extension case and a few fixed environments with C-contiguous inputs; not combinations or '
  'components that disappear and come back within one process.',
  ['euphonic/force_constants.py', 'euphonic/util.py', 'euphonic/readers/phonopy.py', 'euphonic/plot.py', 'euphonic/brille.py', 'c/_euphonic.c'],
  [('use_c / import fallback', 'ForceConstants._calculate_phonons_at_qpts'),
   ('_ensure_contiguous_args/_attrs', 'euphonic/util.py'),
   ('ImportPhonopyReaderError, ModuleNotFoundError wrappers', 'euphonic/readers/phonopy.py, euphonic/plot.py, euphonic/brille.py')],
  observe=['results, warnings and exception types of public calculation and reader functions'])

p('C07', 'Damaged CASTEP files never load as silently incomplete data, nor hang',
  'Reading a .castep_bin/.check, .phonon or .phonon_dos file that is cut short at any byte, has a zeroed tail or (text formats) a zeroed storage block, or whose storage fails '
  'with an I/O error part-way, either raises an exception within a bounded number of reads, or returns exactly the data of the undamaged file. '
  'It never returns an object with missing, zero-filled or misplaced q-points, modes, atoms, force constants or bins, and slow storage '
  'delivering short reads changes nothing. (A cut inside the last number of a text file, which leaves a well-formed shorter number, one that removes exactly the final repeat of a q-point, and zeroed bytes inside the payload of a binary record are outside this.)',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every truncation point, lost or zeroed tail/block, read-error position and short-read pattern, over all CASTEP file kinds and reader entry points',
  'The tests read intact files only (plus a few wrong-type cases); truncation at the tens of thousands of byte positions is never tried.',
  ['euphonic/readers/castep.py', 'euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py', 'euphonic/spectra.py'],
  [('header then per-q-point block parsing into preallocated arrays', 'euphonic/readers/castep.py read_phonon_data'),
   ('record-marker checks', 'euphonic/readers/castep.py _read_entry'),
   ('np.loadtxt(max_rows) of DOS table', 'euphonic/readers/castep.py read_phonon_dos_data')],
  observe=['ForceConstants.from_castep', 'QpointPhononModes.from_castep', 'QpointFrequencies.from_castep', 'Spectrum1D.from_castep_phonon_dos',
           'Spectrum1DCollection.from_castep_phonon_dos', 'Crystal.from_castep'])

p('C08', 'Damaged Phonopy files never load as silently incomplete data, nor hang',
  'Reading Phonopy output (phonopy.yaml with FORCE_CONSTANTS, force_constants.hdf5 and BORN, or band/mesh/qpoints files in YAML or HDF5) in which a file is cut short '
  'at any byte, has (text formats) a zeroed tail or block, is missing, or fails with an I/O error part-way, either raises an exception or returns exactly the data of '
  'the undamaged files. It never returns an object with missing, zero, NaN or misplaced q-points, modes, atoms or force constants. '
  '(A cut inside the last number of a text file, or one that removes whole optional sections and leaves a well-formed file, is outside this.)',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every truncation point, lost or zeroed tail/block, missing file, read-error position and short-read pattern, over all Phonopy file kinds, formats and entry points',
  'The tests read intact files only; damaged variants are not tried, and the readers preallocate and trust what they find.',
  ['euphonic/readers/phonopy.py', 'euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py'],
  [('YAML/HDF5 extraction of q-point data', 'euphonic/readers/phonopy.py'),
   ('FORCE_CONSTANTS text parsing', 'euphonic/readers/phonopy.py _extract_force_constants'),
   ('BORN parsing', 'euphonic/readers/phonopy.py _extract_born')],
  observe=['ForceConstants.from_phonopy', 'QpointPhononModes.from_phonopy', 'QpointFrequencies.from_phonopy'])

p('C09', 'Saving and restoring through JSON is faithful; torn saves never load',
  'Any Euphonic object (crystal, force constants, q-point data, structure factor, Debye-Waller, spectra and collections), after any history of operations and unit changes, '
  'can be saved to a JSON file and restored, any number of times, to an object with the same data, units and behaviour. '
  'If saving fails or the process dies part-way, or the file is later cut short or unreadable, the failure is raised, success is never reported, and reading back what is left raises instead of giving '
  'different data.',
  ['histories', 'crash_points', 'fault_sequences'],
  'every history of operations, unit changes, saves and restores (including overwriting an older file), with write errors, full disks, short writes and crashes at every write, and reads of torn files and read errors',
  'Tests round-trip freshly made objects through an always-successful disk; histories of unit changes and failing or torn writes are not sampled.',
  ['euphonic/io.py', 'euphonic/crystal.py', 'euphonic/force_constants.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py',
   'euphonic/structure_factor.py', 'euphonic/debye_waller.py', 'euphonic/spectra.py'],
  [('_obj_to_json_file/_obj_from_json_file', 'euphonic/io.py'), ('to_dict/from_dict with units', 'every object class')],
  observe=['to_json_file / from_json_file results, stdout and file contents'])

p('C10', 'Command-line tools and exports never report success for output not written',
  'When writing an output (JSON, text data or a plot image) fails part-way for lack of space, an I/O error or an interruption, the export method or command-line tool '
  'stops with an error and never prints or returns that the file was saved. '
  'When an input file is damaged or missing the tool stops with an error and creates no output, and without faults the saved output equals what the library computes for the same request.',
  ['fault_sequences', 'crash_points', 'configurations'],
  'every command-line tool and text/JSON/plot export, with write failures at every write/open/close call, and damaged inputs',
  'Tests run tools against a disk that always succeeds; output-failure paths are never executed.',
  ['euphonic/cli/utils.py', 'euphonic/cli/dos.py', 'euphonic/cli/dispersion.py', 'euphonic/cli/intensity_map.py', 'euphonic/cli/powder_map.py',
   'euphonic/cli/optimise_dipole_parameter.py', 'euphonic/cli/show_sampling.py', 'euphonic/cli/brille_convergence.py', 'euphonic/io.py', 'euphonic/spectra.py'],
  [('matplotlib_save_or_show', 'euphonic/cli/utils.py'), ('_obj_to_json_file', 'euphonic/io.py'), ('to_text_file', 'euphonic/spectra.py')],
  observe=['exit status / exception, stdout, files created'])

p('C11', 'Unit changes and failed assignments never alter stored physical data',
  'Over any history of display-unit changes, data assignments in any compatible unit, and assignments that fail (incompatible units), '
  'every object reports the same physical values as the last successful assignment, expressed in the current display unit. '
  'A failed unit change or data assignment leaves the object exactly as it was, and every later calculation, conversion or save is unaffected.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of unit changes, assignments and failed assignments on crystals, force constants, q-point data, structure factors, Debye-Waller data, spectra and collections, interleaved with calculations',
  'Tests check one unit change or one bad unit at a time on a fresh object, and do not look at the object after a failed assignment.',
  ['euphonic/validate.py', 'euphonic/crystal.py', 'euphonic/force_constants.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py',
   'euphonic/debye_waller.py', 'euphonic/spectra.py'],
  [('data stored in internal units with a separate display unit', 'all object classes'), ('_check_unit_conversion in __setattr__', 'euphonic/validate.py'),
   ('property setters', 'all object classes')],
  state=[('_frequencies, _x_data, _y_data, _z_data, ... and *_unit', 'internal data and display unit', 'all object classes')],
  observe=['public quantities after every step'])

p('C12', 'Operations never modify their inputs, and results are independent objects',
  'No calculation, conversion, arithmetic, indexing, broadening, copying, saving or plotting operation changes the data, units or metadata of the objects, arrays or option dictionaries passed to it (apart from operations documented to act in place). '
  'Editing the data, units or metadata of a result through its public interface, afterwards, never changes the object it came from or other results, and the reverse. '
  '(Results of phonon calculations deliberately share their crystal object, q-points and weights arrays with their source by reference; editing those shared parts is outside this.)',
  ['histories', 'inputs'],
  'every history of derive/edit operations over a pool of objects, including edits through returned quantities and metadata dictionaries, with failing operations in between',
  'Tests compare outputs only; whether the inputs survive, or two results share storage, shows only under a later edit in a history.',
  ['euphonic/spectra.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py', 'euphonic/force_constants.py', 'euphonic/crystal.py', 'euphonic/brille.py', 'euphonic/powder.py', 'euphonic/plot.py'],
  [('copy on derive', 'Spectrum.copy, broaden, __add__, sum, group_by, split'), ('getters returning fresh quantities', 'property getters')],
  observe=['all public attributes of every live object after every operation'])

p('C13', 'Spectrum collections behave as the list of their spectra under any history',
  'Over any history of building, indexing, slicing, adding, summing, grouping, selecting, scaling, broadening, unit changes and metadata edits, a spectrum collection has the same x data, intensities and per-spectrum metadata as a plain list of individual spectra put through the same operations. '
  'Combining spectra whose display units differ gives physically correct values, and an operation that fails (mismatched axes, bad index, missing key) leaves every operand unchanged.',
  ['histories', 'inputs', 'fault_sequences'],
  'every history of collection operations, unit changes and failing operations over 1-D and 2-D spectra and collections of any size',
  'Tests apply one operation to a few stored spectra in default units; compositions, mixed units and failure in between are not sampled.',
  ['euphonic/spectra.py'],
  [('line_data metadata merging and grouping', 'euphonic/spectra.py _combine_metadata/_get_line_data_vals'), ('from_spectra, __getitem__, group_by, select, sum', 'euphonic/spectra.py')],
  observe=['x_data, y_data/z_data, metadata of collections and extracted spectra'])

p('C14', 'Random sampling and powder averaging are sound for every random stream',
  'For every possible sequence of random numbers (including the extremes of the range) and every number of points, random and jittered sampling gives exactly the stated number of finite points that lie in the unit square or on the unit sphere, and powder averaging samples momentum transfers of exactly the requested length. '
  'With the same seed the result is exactly reproducible, deterministic sampling uses no random numbers, and a powder average is the average over just those q-points of the underlying calculation.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every random stream fed through the random-number seam (including all-zero and just-below-one values and adversarial mixtures), all sampling kinds and sizes, all powder options',
  'Tests replace the random numbers by one fixed value or use the real generator once; boundary values have probability near zero.',
  ['euphonic/sampling.py', 'euphonic/powder.py', 'euphonic/cli/powder_map.py', 'euphonic/cli/show_sampling.py'],
  [('jitter displacement and clipping', 'euphonic/sampling.py'), ('np.random.random seam', 'euphonic/sampling.py'),
   ('_get_qpts_sphere and averaging', 'euphonic/powder.py')],
  observe=['yielded points', 'q-points passed to the force constants', 'Spectrum1D returned'])

p('C15', 'Work split into batches, reordered, repeated or resumed equals one-shot work',
  'Splitting a list of q-points into batches in any way, computing the batches in any order, repeatedly, by workers that crash and restart from saved JSON, with or without the reduction of equivalent q-points, '
  'gives for each q-point the same frequencies, eigenvectors, mode gradients and structure factors as computing the whole list at once. '
  'Weighted sums over q-points (density of states, Debye-Waller factor, powder average) equal the weighted combination of their batches; '
  'q-points of zero weight and masked modes of zero frequency disturb nothing.',
  ['schedules', 'crash_points', 'inputs'],
  'every partition, order, duplication and crash/restart schedule of a batch job over q-point lists, and every calculation option that acts per q-point',
  'Tests compute fixed lists in one go; index bookkeeping for duplicates, gamma points and reduction only shows under other partitions.',
  ['euphonic/force_constants.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/qpoint_frequencies.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py', 'euphonic/io.py'],
  [('q-point reduction and re-expansion', 'ForceConstants._calculate_phonons_at_qpts'), ('per-q loops', 'c/_euphonic.c, euphonic/qpoint_phonon_modes.py'),
   ('weighted accumulation', 'QpointPhononModes.calculate_debye_waller, QpointFrequencies.calculate_dos')],
  observe=['per-q results of batch jobs against one-shot results'])

p('C16', 'The dipole-parameter optimiser is sound under any clock',
  'Whatever the clock reports (coarse ticks, stalls, steps forward or back), the dipole-parameter optimiser tries exactly the requested range of values, '
  'reports the value whose measured time per q-point was smallest and the initialisation and per-q-point times the clock actually showed for it, and never fails because of the clock. '
  'The Ewald initialisation of each trial is done, and only done, inside its own timed initialisation, so that a trial shows the times it would show if it were the only one.',
  ['schedules', 'inputs', 'configurations'],
  'every sequence of clock readings (monotone, stalled, coarse, stepped) and every scan range',
  'Tests use the real clock, whose readings they cannot predict, so they can only check that numbers come out.',
  ['euphonic/cli/optimise_dipole_parameter.py'],
  [('time.time differences around initialisation and calculation', 'euphonic/cli/optimise_dipole_parameter.py calculate_optimum_dipole_parameter'),
   ('argmin over recorded times', 'euphonic/cli/optimise_dipole_parameter.py')],
  observe=['return value and stdout of calculate_optimum_dipole_parameter / euphonic-optimise-dipole-parameter'])

# ---- pure functions of their input: stated for breadth, not claimed with this technique
p('N01', 'Interpolated phonons are physical: Hermitian, periodic and symmetric in q',
  'For every force constants object and q-point, frequencies are unchanged under q -> q+G and q -> -q, eigenvectors of each q-point are orthonormal, and the eigenvectors and squared frequencies reconstruct a Hermitian dynamical matrix.',
  ['inputs'], 'every crystal, force constants matrix, q-point and option', 'Tests compare fixed crystals and q-points with stored reference values.',
  ['euphonic/force_constants.py', 'c/dyn_mat.c'], [('dynamical matrix construction', 'ForceConstants._calculate_dyn_mat, c/dyn_mat.c')])
p('N02', 'The acoustic sum rule gives three zero modes and a translation-invariant crystal',
  'With either acoustic sum rule correction, three modes at gamma have zero frequency (up to rounding) and the corrected dynamical matrix stays Hermitian, for every stable crystal.',
  ['inputs'], 'every force constants matrix and both corrections', 'Tests check stored values for a few crystals.',
  ['euphonic/force_constants.py'], [('_enforce_realspace_asr, _enforce_reciprocal_asr', 'euphonic/force_constants.py')])
p('N03', 'Density of states, binning and broadening conserve weight',
  'Densities of states integrate to the number of modes, projected ones sum to the total, and broadening with any width conserves total intensity away from the edges.',
  ['inputs'], 'all frequencies, weights, bins and widths', 'Tests compare with stored spectra.',
  ['euphonic/qpoint_frequencies.py', 'euphonic/broadening.py', 'euphonic/spectra.py'], [('_calculate_dos, variable_width_broadening', 'euphonic/qpoint_frequencies.py, euphonic/broadening.py')])
p('N04', 'Intact CASTEP and Phonopy files are read to the documented physical quantities',
  'Every intact file is converted to the documented units, ordering and phase convention, so that the same material read from either code gives the same phonons.',
  ['inputs'], 'every well-formed file of every supported version', 'Tests read a fixed set of files.',
  ['euphonic/readers/castep.py', 'euphonic/readers/phonopy.py'], [('unit and phase conversion', 'euphonic/readers')])
p('N05', 'Structure factors and Debye-Waller factors obey symmetry and detailed balance',
  'Structure factors do not depend on the choice of unit cell origin or degenerate eigenvector basis, S(Q,w) obeys detailed balance, and the Debye-Waller tensor is symmetric and positive definite.',
  ['inputs'], 'all modes, temperatures, scattering lengths and bins', 'Tests compare with stored values.',
  ['euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py'], [('calculate_structure_factor, _bose_corrected_structure_factor', 'euphonic/qpoint_phonon_modes.py')])
p('N06', 'Crystal geometry and symmetry operations are mutually consistent',
  'Cell vectors, reciprocal vectors, volume, symmetry operations, q-grids and q-point paths of a crystal are mutually consistent for every cell.',
  ['inputs'], 'all cells and tolerances', 'Tests use a few cells.',
  ['euphonic/crystal.py', 'euphonic/util.py', 'euphonic/cli/utils.py'], [('reciprocal_cell, get_symmetry_equivalent_atoms, mp_grid', 'euphonic/crystal.py')])

out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
print(len(P))
