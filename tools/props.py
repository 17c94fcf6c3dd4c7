prop('C01', 'Rebinning a template returns the exact bin averages of the redshifted input',
     'For any input grid, flux, redshifts and output bins inside the redshifted input range, the rebinned value of each '
     'bin is the integral over the bin of the linearly interpolated, redshifted input divided by the bin width, for every '
     'basis vector, redshift and wavelength grid. Bins reaching outside the redshifted input are refused with an error.',
     ['inputs'], 'all input grids (<=6 samples), fluxes, output edges (<=4 bins), redshifts',
     'tests compare a few smooth templates at a few redshifts against np.trapz-like answers; bin/sample coincidences, '
     'narrow bins and the redshift batch axis are unsampled', ['py/redrock/rebin.py'],
     [('trapz_rebin', 'py/redrock/rebin.py'), ('centers2edges', 'py/redrock/rebin.py'),
      ('rebin_template', 'py/redrock/rebin.py')])
prop('C02', 'Scan chi2 is the weighted least-squares chi2 of the reported coefficients',
     'For every target, template and redshift the coarse scan reports coefficients solving the weighted normal equations '
     'of the resolution-convolved template over all spectra of the target, and a chi2 equal to the weighted squared '
     'residual of exactly those coefficients. Masked pixels (zero inverse variance) never influence chi2, coefficients or '
     'penalty. A singular system is reported as the failure value with zero coefficients. The single-redshift, batched and '
     'multi-target code paths agree, each target gets its own result, and the [OII] penalty depends only on a negative '
     'mean [OII] flux of the fit.',
     ['inputs'], 'all fluxes, inverse variances, template values; <=3 spectra, <=8 pixels, <=3 bases, <=2 redshifts',
     'tests compare two code paths on a single noisy galaxy; degenerate, masked and multi-spectrum inputs and the identity '
     'of chi2 and coefficients need every value', ['py/redrock/zscan.py', 'py/redrock/targets.py'],
     [('calc_zchi2', 'py/redrock/zscan.py'), ('calc_zchi2_batch', 'py/redrock/zscan.py'),
      ('calc_zchi2_one', 'py/redrock/zscan.py'), ('spectral_data', 'py/redrock/zscan.py'),
      ('calc_negOII_penalty', 'py/redrock/zscan.py'), ('Spectrum', 'py/redrock/targets.py')])
prop('C03', 'Constrained template fits respect their constraints; failures are sentinels',
     'solve_matrices solves the system it is given with the algorithm asked for: PCA exactly, NMF/NNLS with non-negative '
     'coefficients, BVLS within the given bounds, each optimal among feasible points; unknown algorithm names are refused. '
     'In a scan with a non-negative template every reported coefficient is non-negative and its chi2 is that of the '
     'reported coefficients; a redshift whose solver fails is reported with the failure value and zero coefficients '
     'without disturbing its neighbours.',
     ['inputs', 'fault_sequences'], 'all right-hand sides and matrices up to 3x3, any solver failure position',
     'tests never make the solver fail and check one NMF template', ['py/redrock/zscan.py'],
     [('solve_matrices', 'py/redrock/zscan.py'), ('calc_zchi2', 'py/redrock/zscan.py')])
prop('C04', 'Chi2 minima are all found and the parabola through them is exact',
     'find_minima returns exactly the indices of all local minima, edges and ties included, ordered from smallest to '
     'largest chi2, also when some values are inf or nan. minfit returns the vertex, curvature width and minimum of the '
     'parabola through the points, and flags BAD_MINFIT exactly when there are too few points, the curve is flat or '
     'opens downwards, the vertex is outside the points, or the minimum is not positive.',
     ['inputs'], 'all curves of up to 5 (6) points; all 3-point parabolas',
     'tests use one hand-made curve', ['py/redrock/fitz.py'],
     [('find_minima', 'py/redrock/fitz.py'), ('minfit', 'py/redrock/fitz.py')])
prop('C05', 'Refined redshift candidates are few, ordered, distinct, in range and flagged',
     'fitz returns at most nminima candidates per template, sorted by chi2, any two of them separated by at least the '
     'velocity limit of the template type. The lowest minimum is always refined; a minimum is skipped only when too close '
     'to a candidate already taken. Each candidate reports redshift, error and chi2 of the parabola fit of its fine scan, '
     'falling back to the best fine-scan point with BAD_MINFIT when the fit leaves the scanned range. It carries Z_FITLIMIT '
     'when it lies in the outermost cells of the redshift range and not when the fit is inside them, the coefficients '
     'of the fit at the reported redshift, and the number of pixels with non-zero weight. A scan without any minimum '
     'yields an empty result.',
     ['inputs'], 'all coarse curves up to 5 points, all fine-scan results, <=3 minima, GALAXY/QSO/STAR',
     'tests refine one clean galaxy; range edges, ties, near-duplicates and failed parabola fits are not sampled',
     ['py/redrock/fitz.py'], [('fitz', 'py/redrock/fitz.py'), ('get_dv', 'py/redrock/fitz.py')])
prop('C06', 'Redshift priors act per target and a tophat confines the solution',
     'A prior read from a file is the documented function of redshift for exactly the target it names: the Gaussian and '
     'Lorentzian penalties with the given centre and width, and a tophat that is neutral inside the window and excludes '
     'everything outside, so that adding it to any chi2 curve can never make a redshift outside the window the best one. '
     'Unknown prior functions are refused, targets without a prior are unaffected.',
     ['inputs'], 'all windows, redshift grids of up to 4 (5) points, all chi2 curves',
     'tests check three fixed centres on one grid', ['py/redrock/priors.py'],
     [('Priors', 'py/redrock/priors.py')])
prop('C07', 'Final candidates are ranked, trimmed, flagged and lose no target',
     'zfind merges the candidates of all templates so that each target keeps its rows together: good fits before bad fits, '
     'then by chi2, at most nminima per spectral type with nothing better dropped, numbered from 0 in that order, each row '
     'still being one candidate of that target (type, redshift, chi2, zero-padded coefficients, count). deltachi2 is the '
     'difference to the next good candidate beyond the velocity limit; SMALL_DELTA_CHI2, LITTLE_COVERAGE and NODATA are '
     'set exactly on their documented conditions. Every input target appears, in input order, with its own metadata, even '
     'when some templates gave it no minimum.',
     ['inputs'], 'all chi2 values, bad-fit patterns and pixel counts; <=4 candidates, <=3 targets, <=3 templates',
     'tests run two targets with one template; ties, flags, several subtypes and missing minima need every combination',
     ['py/redrock/zfind.py'],
     [('zfind', 'py/redrock/zfind.py'), ('calc_deltachi2', 'py/redrock/zfind.py'), ('sort_zfit', 'py/redrock/zfind.py'),
      ('sort_zfit_dict', 'py/redrock/zfind.py'), ('sort_dict_by_cols', 'py/redrock/zfind.py')])
prop('C08', 'Results do not depend on processes, ranks, redshift slices or schedule',
     'The chi2 scan and the final table are the same whatever the number of worker processes or MPI ranks, whatever the '
     'split of targets and of redshifts between them and the order in which they run or answer: every target gets exactly '
     'one result per template, computed from its own spectra, over the whole redshift grid in ascending order, and every '
     'target appears in the table of the root rank with its own values and metadata. No schedule deadlocks. A stored scan '
     'is used for the target it was stored for. A failing worker ends the run with an error, never with a wait forever.',
     ['schedules', 'configurations', 'fault_sequences'],
     'all target/spectra counts up to 3 (4) x 2, 1-4 processes or ranks, any ownership, all rank orders (thorough: every '
     'interleaving of 2 ranks), any completion order of workers, one failing worker',
     'tests run without MPI (mpi4py absent) and with one number of processes and equal-size targets',
     ['py/redrock/zscan.py', 'py/redrock/zfind.py', 'py/redrock/targets.py'],
     [('calc_zchi2_targets', 'py/redrock/zscan.py'), ('_mp_calc_zchi2', 'py/redrock/zscan.py'),
      ('zfind', 'py/redrock/zfind.py'), ('_mp_fitz', 'py/redrock/zfind.py'), ('DistTargets', 'py/redrock/targets.py')])
prop('C09', 'Targets are distributed exactly once, balanced and in step with their ids',
     'distribute_work, distribute_targets and the GPU-aware split give every id to exactly one process, whatever the '
     'weights and capacities, each placed greedily (heaviest first) on the process with the smallest resulting relative '
     'load; a process without capacity advantage never receives work another could finish earlier. GPU ranks '
     'and CPU ranks receive disjoint shares covering all targets. DistTargetsCopy gives every rank the full id list, its '
     'own share of complete targets (all spectra, metadata), and local ids aligned with local data, wherever the root is and '
     'whether or not the other ranks hold the targets too.',
     ['inputs'], 'up to 4 (5) ids of any weight, up to 3 (4) processes of any capacity, up to 4 targets of 0-2 spectra',
     'tests distribute one list with fixed weights', ['py/redrock/utils.py', 'py/redrock/targets.py'],
     [('distribute_work', 'py/redrock/utils.py'), ('distribute_targets', 'py/redrock/targets.py'),
      ('DistTargetsCopy', 'py/redrock/targets.py')])
prop('C10', 'Each template redshift is rebinned once, with its IGM, and visits all ranks',
     'DistTemplate and DistTemplatePiece hold, for every redshift of the template grid exactly once over all ranks, the '
     'template rebinned to every wavelength grid and multiplied by the IGM transmission of the template model at that '
     'redshift where there is one; cycling the slices shows every rank every slice exactly once per turn, in any '
     'schedule, and brings its own slice back. More ranks than redshifts are handled.',
     ['inputs', 'schedules'], '1-4 redshifts, 1-2 basis vectors, 1-4 ranks, all rank orders; every interleaving of 2 (3) ranks',
     'tests run without MPI', ['py/redrock/templates.py'],
     [('DistTemplate', 'py/redrock/templates.py'), ('DistTemplatePiece', 'py/redrock/templates.py'),
      ('_mp_rebin_template', 'py/redrock/templates.py')])
prop('C11', 'Coadds are inverse-variance weighted per band; masked data have no influence',
     'The coadd of a target has one spectrum per band, in order of appearance, with the wavelength grid of the band, the '
     'summed inverse variance, the weighted mean flux (plain mean where nothing has weight) and the equally weighted '
     'resolution, the CSR form and the band list in step; pixels whose resolution row integrates below 0.99 get zero '
     'weight; the input exposures are unchanged. Cosmic-ray rejection masks, where the gradients of the exposures disagree '
     'beyond the threshold, only the exposure deviating most from their weighted mean; agreeing exposures are never masked.',
     ['inputs'], 'all fluxes and inverse variances; 1-4 exposures, 1-2 bands, 4-5 pixels, banded resolutions',
     'tests coadd identical exposures with unit weights', ['py/redrock/targets.py'],
     [('Target.compute_coadd', 'py/redrock/targets.py'), ('Spectrum', 'py/redrock/targets.py')])
prop('C12', 'Packing spectra into shared memory never changes them',
     'Any sequence of packing, unpacking, use of the CSR matrix and hand-over to a child process leaves wavelengths, flux, '
     'inverse variance, resolution (values, offsets, shape, CSR form), band and identity of every spectrum unchanged, in '
     'parent and child. mp_array keeps shape, type and values, empty arrays included.',
     ['histories'], 'all histories of up to 3 (5) operations on 1-2 spectra with symbolic contents',
     'tests pack and unpack once', ['py/redrock/targets.py', 'py/redrock/utils.py'],
     [('Spectrum.sharedmem_pack', 'py/redrock/targets.py'), ('Spectrum.sharedmem_unpack', 'py/redrock/targets.py'),
      ('mp_array', 'py/redrock/utils.py')])
prop('C13', 'IGM transmission is the optical depth of the chosen model',
     'transmission_Lyman(z, wave, model) gives, at every redshift and wavelength, exp(-optical depth) of the named model: '
     'the Lyman-series sum of Calura12, the Lyman-alpha term of Kamble20, and the forest plus damped-absorber line and '
     'continuum terms of Inoue14 (with its breaks in redshift and wavelength), shaped by redshift and wavelength whichever '
     'of them is a scalar. It is exactly 1 redward of Lyman alpha and for no model; None is returned only on request and only '
     'where nothing is absorbed. Unknown model names are refused.',
     ['inputs'], 'redshift 0-6, wavelength 500-10000 A; 1-2 redshifts x 1-3 wavelengths; Inoue tables of 2 lines, all 39 lines '
     'at redshift 3 (and 5)',
     'tests compare a few redshifts with stored numbers; each branch of the piecewise formulas has its own range',
     ['py/redrock/igm.py'],
     [('transmission_Lyman', 'py/redrock/igm.py'), ('transmission_Lyman_CaluraKamble', 'py/redrock/igm.py'),
      ('transmission_IGM_Inoue14', 'py/redrock/igm.py')])
prop('C14', 'Scan files keep every value under its target and template',
     'What write_zscan stores, read_zscan, read_zfit and read_zscan_redrock give back: for every target and every scanned '
     'template the redshifts, chi2, penalty and coefficients of exactly that target and template, and the table of fits with '
     'all columns and rows in order (redshifts and ids in full precision, the rest in single precision), grouped under the '
     'template they came from, archetype fits included. Any selection of targets in any order and upper-case names change '
     'nothing else. The best fits are stored one per target. The caller\'s table is not modified. Template names survive the '
     'trip through (spectype, subtype).',
     ['inputs', 'configurations'], 'all values; 1-3 targets, 1-3 templates, 1-2 fits per target of any template, selections of 3 targets',
     'tests use one stored file; order of targets, selections and templates without fits are not combined',
     ['py/redrock/results.py', 'py/redrock/templates.py'],
     [('write_zscan', 'py/redrock/results.py'), ('read_zscan', 'py/redrock/results.py'), ('read_zfit', 'py/redrock/results.py'),
      ('read_zscan_redrock', 'py/redrock/results.py'), ('make_fulltype', 'py/redrock/templates.py')])
prop('C15', 'An interrupted or failing run never leaves a partial output file',
     'Whatever file operation a run is stopped at, or fails at, the path of a scan file, redshift catalog or model file '
     'holds either what was there before or the complete new contents (nothing, only when there was nothing or replacement by '
     'deletion was asked for); a failed write is reported; the next run is not disturbed by what was left behind and leaves '
     'only the complete result.',
     ['crash_points', 'fault_sequences'], 'any one of the first 31 file operations, with and without an older file; 4 writers',
     'tests never interrupt a write', ['py/redrock/results.py', 'py/redrock/external/desi.py', 'py/redrock/external/boss.py'],
     [('write_zscan', 'py/redrock/results.py'), ('write_zbest', 'py/redrock/external/desi.py'),
      ('write_bestmodel', 'py/redrock/external/desi.py'), ('write_zbest', 'py/redrock/external/boss.py')])
prop('C16', 'Every input spectrum reaches its own target, with its own mask, on one rank',
     'Reading DESI coadd and spectra files gives each selected target, on exactly one rank, exactly the rows of all input '
     'files with its target id, for each band, with the wavelength, flux, inverse variance and resolution of that row; '
     'inverse variance is zero where flux or ivar is not finite, the mask of that same row is set, or the flux is '
     'significantly negative. Targets are in order of first appearance; selected by id or range; the fibermap, exposure '
     'and S/N tables hold exactly the rows of those targets in the same order on every rank, for any number of ranks, '
     'files, bands, missing masks, file layout and batch size; a coadd combines only the spectra of the same target.',
     ['inputs', 'configurations', 'schedules'], 'all fluxes, ivars, masks; 1-2 files, <=3 bands, <=6 rows, 1-4 ranks',
     'tests read two files with one layout and never with masks, invalid values or selections', ['py/redrock/external/desi.py'],
     [('DistTargetsDESI', 'py/redrock/external/desi.py')],
     note='DESI file reading needs astropy FITS and desispec: modelled (in-memory FITS), real files and desispec Resolution in replays.')
prop('C17', 'rrdesi flags bad fibers and writes the best fit of every target in its own row',
     'For any fiber status and object type the catalog keeps the fit warnings and adds exactly the bits those imply; unusable '
     'fibers are reported as GALAXY, z=0, zero coefficients and NODATA, others keep their best fit. The catalog has one row '
     'per target in input order, aligned with fibermap and S/N rows; models are those of the best fit of the target in the '
     'same row, for any number of ranks; all fits are in the details file. Only the bright sky lines are masked, and only '
     'unless switched off. Options reach the fit (minima defaults, priors, scan ranges, archetype settings), contradictory '
     'ones are refused, and a failing rank fails the run without leaving a result.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all 2^31 fiber statuses, 3 object types, any fit values; 1-4 ranks, 1-2 files, 2-5 targets',
     'tests run good fibers only, at one rank, and compare the number of rows', ['py/redrock/external/desi.py', 'py/redrock/targets.py'],
     [('rrdesi', 'py/redrock/external/desi.py'), ('eval_models', 'py/redrock/targets.py'), ('write_bestmodel', 'py/redrock/external/desi.py')],
     note='zfind and load_dist_templates are stand-ins returning arbitrary fits; they are decided by other properties.')
prop('C19', 'Archetype fits pick the best archetype and report what reproduces their chi2',
     'With archetypes, each refined redshift reports the archetype (or the N nearest) with the least chi2 of all archetypes of '
     'its type, fitted with Lyman absorption, resolution and Legendre terms shared or per camera (with prior on the Legendre '
     'terms only, archetype coefficients not negative). Evaluating the reported row - archetypes, coefficients, Legendre '
     'coefficients - for every spectrum of the target gives exactly the reported chi2, for any order and number of spectra per '
     'camera, any number of Legendre terms, minima, and types with or without archetypes. Negative archetypes are flagged; '
     'the template fit is kept beside the archetype fit in the PCA columns.',
     ['inputs', 'configurations'], 'all fluxes and all coefficients the bounded solver may return; <=3 archetypes, <=3 bands, 3 pixels, <=2 Legendre terms',
     'tests have no archetype fit at all', ['py/redrock/archetypes.py', 'py/redrock/zscan.py', 'py/redrock/targets.py', 'py/redrock/zfind.py', 'py/redrock/fitz.py'],
     [('get_best_archetype', 'py/redrock/archetypes.py'), ('nearest_neighbour_model', 'py/redrock/archetypes.py'), ('eval', 'py/redrock/archetypes.py'),
      ('per_camera_coeff_with_least_square_batch', 'py/redrock/zscan.py'), ('eval_model', 'py/redrock/targets.py')])
prop('C22', 'Model spectra are those the fit compared with the data',
     'Evaluating a template for a redshift and coefficients gives, for any wavelengths, resolution (or none), template and '
     'absorption model, the resolution times the Lyman-absorbed bin averages of the templates times the coefficients; extra '
     'coefficients are ignored and inputs unchanged. The model of every target, template and redshift of a scan therefore '
     'leaves exactly the reported chi2 as residual. eval_models gives each target the model of its own best row whatever the '
     'order of the table, zero when fully masked; eval_model does the same for tables, wavelength arrays or cameras, and '
     'refuses resolutions of other cameras. rrplot shows the data and model of the target and fit selected, archetypes included.',
     ['inputs', 'configurations'], 'all coefficients, fluxes, transmissions; <=3 basis vectors, 2 cameras, 3-4 pixels, <=3 targets, 2 keys',
     'tests check that a model has the right shape and no absorption', ['py/redrock/templates.py', 'py/redrock/targets.py', 'py/redrock/plotspec.py'],
     [('eval', 'py/redrock/templates.py'), ('eval_model', 'py/redrock/templates.py'), ('eval_model', 'py/redrock/targets.py'),
      ('eval_models', 'py/redrock/targets.py'), ('plot', 'py/redrock/plotspec.py')])
prop('C23', 'wrap-redrock runs every spectra file without results exactly once',
     'wrap-redrock finds exactly the spectra files under the input directory (not below the directory to avoid) whose catalog or '
     'details file is missing, and shares them among the nodes: each in exactly one group, longest first to the node that is done '
     'first, by the number of their targets, the same on all ranks; one group per MPI rank, or as many as 25 minutes each need up to '
     'the limit. Each file is run once, on one rank, and once more when it failed, whatever happens to the others, by a command that '
     'rrdesi or rrboss accepts, with its own input and outputs and the options given. Logs of earlier runs are kept; failed files and '
     'missing results are reported by name; a dry run runs nothing; nothing to do is no error. The planned job has the nodes, the time '
     'and the options of the plan.',
     ['inputs', 'schedules', 'configurations'], 'all weights, target ids, return codes, existing and produced files; <=6 files (40 with one free weight), '
     '1-4 nodes, 1-3 ranks in any order',
     'the script has no tests', ['bin/wrap-redrock'],
     [('weighted_partition', 'bin/wrap-redrock'), ('find_specfiles', 'bin/wrap-redrock'), ('group_specfiles', 'bin/wrap-redrock'),
      ('plan', 'bin/wrap-redrock'), ('run_redrock', 'bin/wrap-redrock')])
prop('C18', 'Templates are found, read and named as their files and headers say',
     'A template read from a file has exactly the vectors, linear or logarithmic wavelengths, type, subtype, version, method '
     'and absorption model of its header (with the documented default for old versions), and the redshifts of the file or '
     'else the grid of its type or of the scan options for that type only; unknown types, methods, absorption models or '
     'missing files are refused. The [OII] part is the pixels from 3724 to 3733 A. Templates come from the list, directory, '
     'list file, single file or environment asked for, in that order and completely, or the run is refused. One distributed '
     'template per file, the same on all ranks. Headers, in any numbering, lead back to the same template files. install_redrock_templates puts the version asked '
     'for where templates are then read from, never into an existing directory, and its exit status tells whether it did.',
     ['inputs', 'configurations'], 'all numbers; all combinations of the header texts; <=4 templates, <=3 files, 1-3 ranks',
     'tests load the installed templates, when there are any', ['py/redrock/templates.py', 'py/redrock/archetypes.py', 'py/redrock/external/desi.py'],
     [('Template', 'py/redrock/templates.py'), ('find_templates', 'py/redrock/templates.py'), ('load_templates', 'py/redrock/templates.py'),
      ('load_dist_templates', 'py/redrock/templates.py'), ('header2templatefiles', 'py/redrock/templates.py'), ('load_templates_from_header', 'py/redrock/templates.py'), ('main', 'bin/install_redrock_templates'), ('find_archetypes', 'py/redrock/archetypes.py')])

prop('C20', 'BOSS spectra are read, selected, fitted and catalogued fiber by fiber',
     'Target ids encode plate, MJD and fiber uniquely and reversibly. From spPlate files, or the spCFrame files of all '
     'exposures of all cameras, each target gets exactly the spectra of its fiber - by id on one plate, by THING_ID over '
     'several - with its flux, ivar (zero where and_mask is set, if asked), wavelengths (3500-10000 A; frames b up to 6000, '
     'r from 5500) and a column-normalised Gaussian resolution of its dispersion; selections by target or fiber are exact, '
     'and plate-MJD names are complete. rrboss fits exactly the targets asked for with the options given, with or '
     'without MPI, writes the best fit of each to the catalog and all to the details, refuses contradictory options, and '
     'leaves no catalog when any rank fails.',
     ['inputs', 'configurations', 'schedules', 'faults'], 'any flux, ivar, and_mask; <=3 fibers, 6 (12) pixels, 4 cameras, 2 plates; 1-3 ranks, any one failing',
     'tests never read a BOSS file', ['py/redrock/external/boss.py', 'py/redrock/targets.py'],
     [('read_spectra', 'py/redrock/external/boss.py'), ('platemjdfiber2targetid', 'py/redrock/external/boss.py'),
      ('rrboss', 'py/redrock/external/boss.py'), ('write_zbest', 'py/redrock/external/boss.py'), ('DistTargetsCopy', 'py/redrock/targets.py')])
prop('C21', 'GPU answers equal CPU answers and the kernels stay inside their arrays',
     'For every input, use_gpu=True gives what use_gpu=False gives: rebinned templates and archetypes (and the same inputs '
     'are refused), Lyman absorption, resolution products, chi2 and coefficients of scan, fit and archetypes for all '
     'solvers, priors and bounds, candidates and stored scans. The CUDA kernels read and write only inside their arrays, '
     'with the element types of the arrays, and no two threads conflict, for all sizes of the bounds. Copies kept on the '
     'device are those of the present request. With --gpu every target is on exactly one process, which has a device, '
     'whatever the number of processes and devices.',
     ['inputs', 'configurations', 'schedules'],
     'any flux, redshift, edges, chi2, solver answers; <=13 samples, <=101 bins, <=4 redshifts (513 for the products), 2-3 bases; every thread of every launch; 1-3 ranks, 1-3 devices',
     'tests of the GPU code are skipped without a GPU', ['py/redrock/rebin.py', 'py/redrock/zscan.py', 'py/redrock/templates.py', 'py/redrock/archetypes.py', 'py/redrock/igm.py'],
     [('trapz_rebin', 'py/redrock/rebin.py'), ('_batch_dot_product_sparse_gpu', 'py/redrock/zscan.py'),
      ('calc_batch_dot_product_3d3d_gpu', 'py/redrock/zscan.py'), ('calc_zchi2_batch', 'py/redrock/zscan.py'), ('solve_matrices', 'py/redrock/zscan.py'),
      ('get_best_archetype', 'py/redrock/archetypes.py'), ('legendre', 'py/redrock/targets.py'), ('transmission_Lyman', 'py/redrock/igm.py')])
