"""Single source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Generated-input search: evidence covers the inputs explored, not all '
        'inputs. Trusts numpy/scipy/xarray and the independent reference in the check.')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, observe=None, note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                               observe_at=observe or [], hook_needed=None),
                  _tech=technique, _note=note or NOTE))


LFS = ('The existing tests compare one recorded file per instrument with a stored result (and those '
       'files are Git-LFS pointers here, so those tests do not run); ')

prop('P01', 'Time representations agree and convert back without loss',
     'Epoch seconds, datetime objects, datetime64 values, MATLAB datenums and time strings denote the same UTC instant '
     'when converted into one another: epoch and datetime64 round trips lose no more than a microsecond, MATLAB round trips no '
     'more than its 100-microsecond rounding, and time order is preserved. The result does not depend on the time zone of the '
     'computer, and an hour offset shifts by exactly that many hours. Nor does it depend on the container (scalar, list, numpy array, DataArray) where a function takes several.',
     ['inputs', 'configurations'], 'all instants (incl. sub-second and pre-1970 for epoch/datetime64), all input container types, all local time zones',
     'Tests convert a handful of stored timestamps in one time zone; rounding and zone errors need particular instants or zones.',
     ['dolfyn/time.py'], [('conversions', 'dolfyn/time.py: epoch2dt64, dt642epoch, epoch2date, date2epoch, date2matlab, matlab2date')],
     'PBT: round trips, integer-exact reference, metamorphic over time zones')
prop('P02', 'Gap filling interpolates exactly the gaps it may fill',
     'Filling gaps by index or by time replaces a run of missing samples with the straight line between its two neighbouring valid samples '
     'exactly when the run is no longer than the maximum gap; every valid sample, and every longer run, keeps its value. With '
     'extrapolation enabled, missing ends no longer than the maximum gap take the nearest valid value, otherwise they stay missing. '
     'Each lane along the chosen dimension of a multi-dimensional array is treated independently, in place.',
     ['inputs'], 'all gap layouts, maximum gaps, array ranks, axes, memory layouts, sample spacings',
     'Tests use one short array; off-by-one at gap limits, ends, and axes needs searching.',
     ['dolfyn/tools/misc.py'], [('fillgaps/interpgaps', 'dolfyn/tools/misc.py')],
     'PBT: independent per-lane reference')
prop('P03', 'Array helpers: runs, lanes, detrending, running median, compass angles',
     'Run detection returns exactly the maximal runs of True of at least the minimum length, in order; 1-D lane iteration visits each lane once; '
     'detrending leaves the least-squares residual along the chosen axis; the running median equals the zero-padded window median on complete data '
     'and is missing where the missing fraction exceeds the threshold. Converting an angle between compass and mathematical convention preserves the '
     'direction it denotes, lies in the documented range, and undoes itself.',
     ['inputs'], 'all boolean masks, shapes, axes, kernels, thresholds and angles',
     'Tests sample one array per helper; group() was wrong for every mask starting with True and having several runs.',
     ['dolfyn/tools/misc.py'], [('helpers', 'dolfyn/tools/misc.py: group, slice1d_along_axis, detrend, medfiltnan, convert_degrees')],
     'PBT: brute-force references, involution, idempotence')
prop('P04', 'Heading, pitch, roll, quaternions and orientation matrices agree',
     'The orientation matrix built from heading/pitch/roll is the proper rotation of the documented convention (heading clockwise from North, pitch up, '
     'roll right-handed, ZYX order), in degrees or radians, and converting it back returns the same angles away from gimbal lock; quaternions of the same '
     'attitude give the same matrix, and tilt is the true vertical inclination. When a dataset has no stored orientation matrix, the instrument\'s own '
     'heading, pitch and roll define the earth frame by the manufacturer\'s convention, including upward/downward mounting. Samples whose stored matrix is '
     'not a rotation are named in a warning, and the others are rotated as usual.',
     ['inputs', 'configurations'], 'all attitudes; all instrument types and mountings',
     'test_hpr_defs checks 7 axis-aligned attitudes; other tests need unavailable data.',
     ['dolfyn/rotate/base.py', 'dolfyn/rotate/vector.py', 'dolfyn/rotate/rdi.py'],
     [('euler2orient/orient2euler/quaternion2orient/calc_tilt', 'dolfyn/rotate/base.py'), ('_calc_omat', 'dolfyn/rotate/vector.py'), ('_calc_orientmat', 'dolfyn/rotate/rdi.py')],
     'PBT: elementary-rotation reference, round trips')
prop('P05', 'Coordinate rotations are reversible and path-independent',
     'For every supported instrument, rotating a dataset through any sequence of the frames beam, inst, earth and principal gives the same vectors as rotating '
     'straight to the last frame, and rotating back restores the original samples to rounding; the variables the dataset lists as vectors rotate (velocity, if it has no list), all others are untouched. '
     'After every rotation the dataset\'s coordinate-system attribute and direction labels name the frame its vectors are in. An unknown frame or '
     'instrument is rejected without changing the data.',
     ['histories', 'inputs', 'configurations'], 'all sequences of frames x instrument types x attitudes x mountings x missing samples',
     LFS + 'sequences, mountings and head matrices are not combined.',
     ['dolfyn/rotate/api.py', 'dolfyn/rotate/base.py', 'dolfyn/rotate/vector.py', 'dolfyn/rotate/signature.py', 'dolfyn/rotate/rdi.py'],
     [('rotation chain', 'dolfyn/rotate/api.py: rotate2'), ('labels', 'dolfyn/rotate/base.py: _set_coords')],
     'PBT: stateful path/round-trip relations')
prop('P06', 'Every frame means what the manufacturer defines it to mean',
     'Beam-to-instrument uses the instrument\'s transformation matrix (and its true inverse), instrument-to-earth uses the transpose of the orientation matrix, with '
     'four-beam Nortek instruments using both vertical estimates and the sign changes of downward mounting, TRDI leaving the error velocity alone and treating ship '
     'data like instrument data; principal axes point along the principal heading with the cross-stream axis to its left. '
     'Missing samples never become finite and never affect other pings, and single- and double-precision data agree.',
     ['inputs', 'configurations'], 'all instruments x mountings x attitudes x samples',
     LFS + 'a sign or index error that only shows with tilt, downward mounting or a non-symmetric matrix survives.',
     ['dolfyn/rotate/vector.py', 'dolfyn/rotate/signature.py', 'dolfyn/rotate/rdi.py', 'dolfyn/rotate/base.py'],
     [('_inst2earth, _beam2inst, _earth2principal', 'dolfyn/rotate/*.py')], 'PBT: differential against independent algebra')
prop('P07', 'Magnetic declination turns everything to true North consistently',
     'Setting the declination turns the earth axes clockwise-positive by exactly that angle: earth-frame vectors, the orientation matrix, heading and principal heading all change '
     'by it, while vectors in beam, instrument and principal frames keep their values. Setting it commutes with rotating; setting another value replaces (does not add to) '
     'the earlier one, and setting zero undoes it.',
     ['histories', 'inputs'], 'all declinations, frames, instruments, sequences of set/rotate',
     LFS + 'only a single set in one frame is compared.',
     ['dolfyn/rotate/api.py'], [('set_declination', 'dolfyn/rotate/api.py')], 'PBT: stateful metamorphic relations + reference')
prop('P08', 'Principal heading is the flow axis',
     'In tidal mode the principal heading is the axis (0-180 degrees clockwise from North) of the speed-weighted flow, unchanged by reversing any subset of the samples, reordering '
     'them, or by the vertical component; otherwise it is the direction (0-360) of the vector mean. Missing samples are ignored, rows are '
     'independent, and turning all vectors by an angle turns the heading by it.',
     ['inputs'], 'all velocity samples, shapes and precisions',
     LFS + 'a handful of recorded flows.',
     ['dolfyn/rotate/api.py'], [('calc_principal_heading', 'dolfyn/rotate/api.py')], 'PBT: complex-number reference, metamorphic')
prop('P09', 'The ADV head rotation is applied once, in the instrument frame',
     'Setting the head rotation matrix of a Nortek Vector multiplies the velocity, expressed in instrument axes, by that matrix exactly once whatever frame the data is in '
     '(beam data is left alone and is rotated when it is next turned to the instrument frame), and the data comes back in the frame it was in. It cannot be set twice, on another '
     'instrument, or (when used) with a matrix whose determinant is not one.',
     ['histories', 'inputs'], 'all frames x matrices x set/rotate orders', LFS + 'one matrix, one frame.',
     ['dolfyn/rotate/api.py', 'dolfyn/rotate/vector.py'], [('set_inst2head_rotmat', 'dolfyn/rotate/api.py'), ('_rotate_inst2head', 'dolfyn/rotate/vector.py')],
     'PBT: reference algebra over frame/order histories')
prop('P21', 'netCDF save/load returns the dataset that was saved',
     'Saving a dataset and loading it returns the same variables, dimensions, coordinates, labels, attributes (including lists) and values: integers, booleans, strings, times (to a microsecond) and '
     'complex variables exactly, double-precision variables to single precision, with or without compression, and saving the loaded dataset again changes nothing; nor do earlier saves and loads. '
     'Saving leaves the dataset in memory (and an encoding passed to it) unchanged, an explicit encoding takes precedence over the compression option, and a file name with a wrong extension is rejected.',
     ['inputs', 'configurations'], 'all dataset contents (dtypes, NaNs, complex variables, attributes), all instruments, options',
     'The tests only check that a file appears; complex names, precision and attribute shapes need searching.',
     ['dolfyn/io/api.py'], [('save/load', 'dolfyn/io/api.py')], 'PBT: round trip, purity, second-generation fixpoint')

prop('P11', 'Ensemble binning uses every sample in order, once, for every variable',
     'Dividing a record into ensembles puts consecutive samples, in order, in bins of the requested length (fractional lengths included: bins stay evenly spaced), dropping only an incomplete last bin; '
     'padding each bin adds exactly its neighbours\' samples. Bin means, medians, variances, standard deviations and bin-wise detrending/demeaning equal the same statistic of that bin\'s samples, '
     'missing values skipped. Averaging a dataset does this to every time-dependent variable on its own time coordinate, keeps the other coordinates and attributes, averages time itself, '
     'and rejects a dataset whose sampling rate differs from the tool\'s. A binner keeps its settings and no memory of earlier calls.',
     ['inputs', 'configurations'], 'all record lengths, bin lengths, array ranks, dtypes, NaN layouts; all instruments', LFS + 'one bin size that divides evenly.',
     ['dolfyn/binned.py', 'dolfyn/velocity.py', 'dolfyn/adv/turbulence.py', 'dolfyn/adp/turbulence.py'],
     [('VelBinner.reshape/mean/variance/std/detrend/demean', 'dolfyn/binned.py: TimeBinner'), ('bin_average/bin_variance', 'dolfyn/velocity.py: VelBinner')],
     'PBT: explicit-index reference model')
prop('P12', 'Power spectra are correctly scaled averages of the windowed segments',
     'A power spectrum is the average, over half-overlapping segments covering the record, of the squared FFT of each segment after its linear trend is removed and the window applied, normalised so that its integral over frequency is the signal\'s '
     'variance; in Hz or rad/s alike. Frequencies are those of the FFT without zero. Per-ensemble spectra of a dataset equal the spectrum of each (padded) ensemble, with the requested noise removed and never negative, and with correct coordinates, whatever was calculated before and wherever the sizes were given; an FFT longer than the bin is limited to it; invalid units or '
     'windows are rejected.',
     ['inputs', 'configurations'], 'all signal lengths, segment lengths, overlaps, windows, units, noise levels', LFS + 'fixed sizes, so scaling and segment counting go untested.',
     ['dolfyn/tools/psd.py', 'dolfyn/velocity.py'], [('psd/psd_freq', 'dolfyn/tools/psd.py'), ('calc_psd/_psd_base/calc_freq', 'dolfyn/velocity.py, dolfyn/adv/turbulence.py')],
     'PBT: differential against an explicit DFT reference')
prop('P13', 'Cross-spectra, coherence and phase compare the right pieces of both signals',
     'The cross-spectrum is the average product of the conjugate FFT of one signal and the FFT of the other over the same segments; exchanging the signals conjugates it and a signal with itself gives its power spectrum. Signals of different length '
     'are compared quasi-synchronously. Coherence lies in range, is one for proportional signals, uses the same segments for numerator and denominator, and corrects noise and bias as documented; phase is the mean unit phasor. Ensemble '
     'versions equal these per ensemble pair, honour bin and FFT lengths, and depend on no earlier call.',
     ['inputs', 'configurations'], 'all pairs of signals (equal or different length), segment lengths, windows, noise levels', LFS + 'equal-length signals with one setting.',
     ['dolfyn/tools/psd.py', 'dolfyn/velocity.py', 'dolfyn/adv/turbulence.py'], [('cpsd/cpsd_quasisync/coherence/phase_angle', 'dolfyn/tools/psd.py'), ('calc_coh/calc_phase_angle/calc_csd', 'dolfyn/velocity.py, dolfyn/adv/turbulence.py')],
     'PBT: differential against an explicit DFT reference')
prop('P14', 'Auto- and cross-covariances equal the lagged products of each ensemble',
     'For every ensemble and lag, the autocovariance is the mean lagged product of the demeaned ensemble with the surrounding record, and equals the variance at zero lag; the cross-covariance is the corresponding quantity of two signals, '
     'normalised to a coefficient when asked; at the ends of the record only existing samples are used. Bin-length arguments are honoured, for that call alone.',
     ['inputs', 'configurations'], 'all records, bin lengths, ranks and normalisations', LFS + 'one bin size.',
     ['dolfyn/velocity.py'], [('calc_acov/calc_xcov', 'dolfyn/velocity.py')], 'PBT: differential against a direct lag-sum reference')
prop('P15', 'TKE components, stresses and turbulence intensity are ensemble moments',
     'The turbulent kinetic energy components are the ensemble variances of the (detrended or demeaned) velocity components less the squared noise, the Reynolds stresses the ensemble covariances of the component pairs in the order they are labelled, and '
     'turbulence intensity the ratio of the standard deviation to the mean of speed, noise-corrected and masked below the threshold; samples missing or bad in other ensembles leave an ensemble\'s statistics alone. The all-in-one ADV analysis returns the same quantities as the single steps and leaves its input unchanged; no result depends on earlier calls.',
     ['inputs', 'configurations'], 'all velocity records, bins, noise specifications and detrending choices', LFS + 'noise given one way only.',
     ['dolfyn/velocity.py', 'dolfyn/adv/turbulence.py'], [('calc_tke/calc_ti', 'dolfyn/velocity.py'), ('calc_stress/ADVBinner.__call__', 'dolfyn/adv/turbulence.py')],
     'PBT: differential against direct moments')
prop('P16', 'ADV dissipation, Doppler noise, slope and length scale follow their formulas',
     'Given a spectrum with an inertial subrange the LT83 method returns the dissipation rate that made it; given any data, the LT83, structure-function and TE01 methods, the spectral-slope fit, the Doppler noise level and the integral length scale equal their published formulas '
     'evaluated independently over exactly the requested frequency range, in Hz or rad/s, ensemble by ensemble; a missing spectrum gives no rate, and no earlier call matters. Inconsistent inputs are rejected.',
     ['inputs', 'configurations'], 'all spectra/velocities, frequency ranges, units, noise levels', LFS + 'one frequency range and one unit.',
     ['dolfyn/adv/turbulence.py'], [('calc_epsilon_*/calc_L_int/calc_doppler_noise/check_turbulence_cascade_slope', 'dolfyn/adv/turbulence.py')],
     'PBT: synthesis round trip + independent formulas')

prop('P19', 'ADCP shear, beam-variance stresses, structure function and friction velocity',
     'Shear is the (first, centered or extended centered) range difference of each velocity component at the range it is reported for, with the sign of the first component following the orientation. For a flow all beams see alike, the four- and '
     'five-beam methods return that flow\'s variances and covariances in the axes of the stated orientation, less the noise given. The structure function is the mean square difference of the along-beam fluctuations for each cell '
     'and separation, and dissipation its line fit; the friction velocity reproduces a linear stress profile. Earlier calls do not matter. Impossible requests are rejected.',
     ['inputs', 'configurations'], 'all flows, instruments, orientations, tilts, noise levels, bin sizes, NaN layouts', LFS + 'one upward instrument, one cell size.',
     ['dolfyn/adp/turbulence.py'], [('ADPBinner.calc_dudz/calc_stress_4beam/calc_stress_5beam/calc_dissipation_SF/calc_ustar_fit', 'dolfyn/adp/turbulence.py')],
     'PBT: synthetic flows with known statistics + independent formulas')

prop('P17', 'ADV despiking flags what its criteria say, and filling repairs only that',
     'Phase-space despiking flags exactly the samples outside the Goring-Nikora/Wahl ellipsoid of their block, each component and each stretch between long gaps on its own, independent of the unit of velocity; spike and range masks flag exactly the samples beyond their '
     'limits. Filling replaces only masked or missing samples: interpolation (linear in time, cubic exact for cubics) never touches good samples, never extrapolates, fills gaps up to maxgap and not beyond; ensemble-mean filling uses the mean of the same ensemble, including the partial last one.',
     ['inputs'], 'all velocity records, spike/gap layouts, masks (per component or common), block lengths, methods', LFS + 'one mask per method.',
     ['dolfyn/adv/clean.py'], [('GN2002/spike_thresh/range_limit/clean_fill/fill_nan_ensemble_mean', 'dolfyn/adv/clean.py')],
     'PBT: independent ellipsoid reference, metamorphic, per-gap oracle')
prop('P18', 'ADCP cleaning masks exactly the cells its rule describes',
     'Range offsets shift every range coordinate and accumulate; depth from pressure follows the documented equation of state; the echo-based boundary is the median of the beams\' estimates; masking beyond the surface removes exactly the cells of every profile variable (including a fifth '
     'beam or echo sounder with other cells) beyond the interference limit; the correlation filter removes exactly the low-correlation beam samples whatever the frame the data is in and returns it in that frame; orientation filtering, thresholding and gap filling change only what they document. '
     'Operations that return a dataset leave their input unchanged.',
     ['inputs', 'configurations'], 'all profiles, depths, beam layouts, frames, dtypes, gap layouts', LFS + 'two recordings.',
     ['dolfyn/adp/clean.py'], [('set_range_offset/find_surface/find_surface_from_P/nan_beyond_surface/correlation_filter/medfilt_orient/val_exceeds_thresh/fillgaps', 'dolfyn/adp/clean.py')],
     'PBT: per-cell reference model, purity')

prop('P10', 'In-place and copying operations agree over any history; reading changes nothing',
     'For any sequence of rotations, declination and head-matrix settings, masking, filtering, saving/loading and read-only analysis, the inplace=True and inplace=False variants of each operation give identical datasets (data, coordinates and attributes); the copying variant and read-only analysis leave their input '
     'unchanged and share no memory or attributes with it; an operation that is refused is refused in both variants and leaves usable, unchanged data.',
     ['histories', 'inputs'], 'all operation histories, instruments, frames', 'Tests apply one operation to one recording.',
     ['dolfyn/rotate/api.py', 'dolfyn/adp/clean.py', 'dolfyn/io/api.py', 'dolfyn/velocity.py'],
     [('rotate2/set_declination/set_inst2head_rotmat', 'dolfyn/rotate/api.py'), ('nan_beyond_surface/correlation_filter', 'dolfyn/adp/clean.py')],
     'PBT: stateful histories, differential in-place vs copy')
prop('P20', 'ADV motion correction removes the motion the sensors saw, in any frame',
     'correct_motion adds exactly the velocity induced by rotation about the IMU (velrot) and the band-limited integral of the measured acceleration (velacc): independently filtered and integrated, for any filter frequencies, lever arm and head orientation; vel_raw keeps the measured data; the result, in earth or instrument frame, '
     'does not depend on the frame the data arrived in or on when the declination was set; a stationary-water, moving-instrument record is reduced to (nearly) zero; duty-cycled records are corrected burst by burst; records lacking what is needed, or already corrected, are refused.',
     ['inputs', 'configurations'], 'all motions, attitudes, frames, filter settings, duty cycles', LFS + 'one recording.',
     ['dolfyn/adv/motion.py', 'dolfyn/adv/api.py'], [('correct_motion/CalcMotion', 'dolfyn/adv/motion.py')],
     'PBT: independent model, physical oracle, metamorphic over frames')
prop('P23', 'The velds shortcuts report the velocity and turbulence quantities they document',
     'u, v, w, U, U_mag, U_dir, the tke and stress components, turbulence intensities and coherent energy are exactly those functions of the stored velocity, in the current frame, for every instrument and bin layout; U_dir is the direction in degrees clockwise from North (earth) or from the first axis (other frames) as its units say, NaN where the vector is missing; they follow every change of the data; '
     'the methods (rotate2, set_declination, save, ...) do what the functions of the same name do; printing it tells the instrument, start and length of the record, frame, number of pings and variables; quantities that are not available are reported as such.',
     ['inputs'], 'all datasets, frames, NaN layouts', 'Tests compare against stored files (Git LFS) for one dataset.',
     ['dolfyn/velocity.py'], [('Velocity', 'dolfyn/velocity.py')],
     'PBT: independent formulas, differential with functions')
prop('P25', 'A Nortek Vector file is read completely, in order, and in SI units',
     'Every complete velocity sample of the file becomes exactly one time step, in order, with its velocity, amplitude, correlation and pressure in the documented units (incl. the 0.1 mm/s velocity scale), nothing is added and nothing is lost, also with an incomplete '
     'record at the end, unknown record types in between, burst sampling, or a requested number/range of samples; time stamps increase by 1/fs within a burst and agree with the system records; housekeeping values are those of the system records, interpolated in between (heading along the shorter arc); '
     'IMU data are in the axes and units of the instrument; the metadata are those of the configuration records, and every variable carries its units and (CF) names.',
     ['inputs', 'configurations'], 'all files: sampling rates, bursts, coordinate systems, IMU types, raw values, start/stop samples, cuts',
     LFS + 'unit tests read the first 100 samples of three files.',
     ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py', 'dolfyn/rotate/vector.py'],
     [('record readers', 'dolfyn/io/nortek.py: read_vec_data, read_vec_sysdata, read_microstrain, sci_*'), ('assembly', 'dolfyn/io/base.py: _create_dataset, _handle_nan')],
     'PBT: files generated by an independent writer, compared with the values written')
prop('P26', 'Nortek AWAC and Vectrino files are read completely, in order, and in SI units',
     'Every complete AWAC profile or Vectrino sample of the file becomes exactly one time step, in order, with its velocity, amplitude, correlation, pressure, temperature, tilt and time in the documented units; cell ranges are those of the cell size and blanking distance of the instrument head; '
     'a profile without a valid clock takes its time from the others (trailing ones are left out); nothing is added or lost with an incomplete last record, unknown record types in between, or a requested number/range of samples; the metadata are those of the configuration records, and every variable carries its units and (CF) names.',
     ['inputs', 'configurations'], 'all files: sampling intervals, cells, head frequencies, coordinate systems, raw values, start/stop samples, cuts',
     LFS + 'one AWAC and one Vectrino file.',
     ['dolfyn/io/nortek.py', 'dolfyn/io/nortek_defs.py', 'dolfyn/io/base.py'],
     [('record readers', 'dolfyn/io/nortek.py: read_awac_profile, sci_awac_profile, read_vno_data, read_head_cfg, read_user_cfg')],
     'PBT: files generated by an independent writer, compared with the values written')
prop('P28', 'A TRDI PD0 file is read completely, in order, and in SI units',
     'Every complete ensemble of a TRDI file becomes exactly one time step, in order, with its velocity, correlation, amplitude, percent-good, status, bottom-track, altimeter, surface-layer and attitude/sensor values in the documented units, and its VMDAS or WinRiver II navigation data on the GPS times (repeats removed); '
     'unknown data types, any order of data types, junk between ensembles, damaged headers, a cut end, a growing number of cells, a second profile or a requested number of ensembles neither lose, repeat nor mix up other ensembles; metadata, cell ranges, beam and orientation matrices and declination (instrument and userdata) are those of the leaders; every variable carries its own units and (CF) names.',
     ['inputs', 'configurations'], 'all files: firmware versions, frames, data types and their order, raw values, damage, navigation sources',
     LFS + 'a few recorded files.',
     ['dolfyn/io/rdi.py', 'dolfyn/io/rdi_lib.py', 'dolfyn/io/rdi_defs.py', 'dolfyn/rotate/rdi.py'],
     [('block readers', 'dolfyn/io/rdi.py: read_*'), ('ensemble search', 'dolfyn/io/rdi.py: search_buffer, checkheader, count_ensembles')],
     'PBT: files generated by an independent writer, compared with the values written')
prop('P29', 'A Nortek Signature (AD2CP) file is read completely, in order, in SI units',
     'Every complete ensemble of an AD2CP file becomes exactly one time step, in order, with its burst, averaged, fifth-beam, bottom-track, echo-sounder, altimeter and AHRS values in the documented units and its records matched by ensemble, '
     'whatever the order and size of records, unknown or string records, pings skipped or recorded less often, counters that restart, a bad clock, a cut end or a requested range of ensembles; dual profiles are returned as two datasets; the index file never hides what is in the data file now; crop_ensembles() keeps exactly the ensembles asked for; '
     'metadata, cell ranges, beam and orientation matrices and declination are those of the file and its userdata; every variable carries its own units and (CF) names.',
     ['inputs', 'configurations', 'histories'], 'all files: record kinds and layouts, raw values, damage; all histories of growing, replacing, indexing and cropping',
     LFS + 'a few recorded files.',
     ['dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py', 'dolfyn/io/nortek2_defs.py'],
     [('reader', 'dolfyn/io/nortek2.py: _Ad2cpReader, _reorg, _reduce, split_dp_datasets'), ('index', 'dolfyn/io/nortek2_lib.py: _create_index, _check_index, get_index, crop_ensembles')],
     'PBT: files generated by an independent writer, compared with the values written; histories of a growing file')
prop('P24', 'dolfyn.read picks the reader by contents and applies exactly the right userdata',
     'dolfyn.read reads a file with the reader its first bytes call for, whatever its name, exactly as that reader does, and refuses all others (empty, foreign, git-lfs pointers) with an IOError. '
     'The user metadata of <name without extension>.userdata.json, else of <file>.userdata.json, or those of the file given, and no others, are applied as they are at the time of reading (by default and with userdata=True), none with userdata=False: '
     'declination and inst2head_rotmat as set_declination and set_inst2head_rotmat do, everything else as attributes of every dataset returned; deprecated body2head_* names and the short forms of the identity matrix included.',
     ['inputs', 'configurations'], 'all file names, folders, ways of naming a path, places of userdata files, contents of userdata, instruments',
     LFS + 'userdata of two files in the default place.',
     ['dolfyn/io/api.py', 'dolfyn/io/base.py', 'dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/rdi.py'],
     [('dispatch', 'dolfyn/io/api.py: read; dolfyn/io/base.py: _get_filetype'), ('userdata', 'dolfyn/io/base.py: _find_userdata, _read_userdata; the read_* functions'), ('TRDI declination', 'dolfyn/io/rdi.py: _set_rdi_declination')],
     'PBT: differential against reading without user metadata and applying them by hand, over generated paths and metadata')
prop('P33', 'Calls are independent of each other and of the session they are made in',
     'What a function or method of the public API returns (or raises) depends on its arguments, the files it is given and nothing else: in any session, after any other calls, with results or arguments of earlier calls changed since, it gives exactly what it gives as the first call of a fresh process. '
     'Results share no memory with later results nor, unless they are documented views (velds.u and the like), with the arguments; only the functions documented to work in place change their arguments; and process-wide settings (warning filters, floating-point error handling, random state, working folder, environment, locale, xarray options, logging, open files, threads, umask) are left alone.',
     ['histories', 'inputs'], 'all sequences of about 110 calls: the calls of P27, time functions, velds shortcuts, motion correction, reading, saving', 'Every test makes each call once, in one order, and in a fresh dataset.',
     ['dolfyn'], [('API', 'dolfyn/velocity.py, dolfyn/binned.py, dolfyn/adv, dolfyn/adp, dolfyn/tools, dolfyn/rotate, dolfyn/time.py'), ('io', 'dolfyn/io')],
     'PBT: differential between a call made in a pristine process and the same call within a generated session of calls; invariants of arguments and process state')
prop('P31', 'Reading a damaged file ends, and damage stays where it is',
     'Reading any file, however damaged, ends soon: with an exception, or with a dataset that is complete in itself (measurements, clock, coordinates for all dimensions, attributes) and the same each time it is read; the file is never changed. '
     'Damaged values of one time step change no other. With do_checksum=True no Nortek file with a damaged record is read. A Nortek record whose sync byte is damaged is lost alone, and bytes between records cost nothing. In a TRDI file a damaged ensemble header costs that ensemble and at most the one before it, bytes between two ensembles at most the one before them. What precedes the damage in a Signature file is read as it is in the sound one, or the file is refused.',
     ['inputs', 'faults'], 'all files: damage of any kind (bytes, bits, zeros, cuts, missing, doubled, moved or foreign parts) at any place',
     'unit tests read sound files only.',
     ['dolfyn/io/nortek.py', 'dolfyn/io/nortek2.py', 'dolfyn/io/nortek2_lib.py', 'dolfyn/io/nortek2_defs.py', 'dolfyn/io/rdi.py', 'dolfyn/io/base.py'],
     [('resynchronisation', 'dolfyn/io/nortek.py: findnext, findnextid, read_id; dolfyn/io/rdi.py: search_buffer, count_ensembles'), ('checksums', 'dolfyn/io/nortek.py: checksum')],
     'mutation-based fuzzing of generated files; invariants of the result and differential against the sound file')
prop('P22', 'MATLAB save/load returns the dataset that was saved',
     'load_mat(save_mat(ds)) of a dataset made by one of the readers, then rotated, corrected for declination, cut or otherwise edited, has the same variables, dimensions, values, types, units, names, coordinate labels and attributes, '
     'times to the resolution of a datenum (or of an epoch time with datenum=False); it works like the original; the file has the documented structure and MATLAB datenums; saving leaves the dataset as it is; other extensions are refused.',
     ['inputs', 'histories'], 'all datasets made by the readers, frames, declinations, windows, NaNs, user attributes, file names, both ways to save time',
     LFS + 'one round trip of three files.',
     ['dolfyn/io/api.py', 'dolfyn/io/base.py'],
     [('MAT files', 'dolfyn/io/api.py: save_mat, load_mat'), ('assembly', 'dolfyn/io/base.py: _create_dataset')],
     'PBT: round trip over datasets read from generated files and edited, the file read independently with scipy')
prop('P27', 'Calls without options mean the documented defaults',
     'Every function and method of the public API called without its optional arguments does exactly what it does when each of them is given its documented default (returned values, attributes, changes to the arguments), and the numbers a binner falls back to are those it was made with.',
     ['inputs'], 'about 80 calls: tools, time, binner, spectra, ADV and ADP turbulence, cleaning, motion correction, rotations, io',
     'Tests pass most options explicitly or compare one call with a stored file.',
     ['dolfyn/velocity.py', 'dolfyn/binned.py', 'dolfyn/adv', 'dolfyn/adp', 'dolfyn/tools', 'dolfyn/rotate', 'dolfyn/io/api.py', 'dolfyn/time.py'],
     [('binner', 'dolfyn/velocity.py, dolfyn/binned.py'), ('turbulence', 'dolfyn/adv/turbulence.py, dolfyn/adp/turbulence.py'), ('cleaning', 'dolfyn/adv/clean.py, dolfyn/adp/clean.py'), ('tools', 'dolfyn/tools')],
     'PBT: differential between the short and the fully written call over generated data')
prop('P30', 'The command-line scripts give what the library gives',
     'scripts/motcorrect_vector.py writes, for each file named on the command line, exactly what reading it, setting the head geometry, declination and filter frequency (options first, then userdata, then the documented default), correcting motion and saving give, '
     'with heading, pitch and roll of the orientation matrix; scripts/binary2mat.py what read and save_mat(datenum=True) give. Output names are the input names with another extension, inputs are left alone, --fixed-head means the fixed geometry, missing geometry is refused before anything is written.',
     ['inputs', 'configurations'], 'all Vector/instrument files and names, options and userdata', 'The scripts have no tests at all.',
     ['scripts/motcorrect_vector.py', 'scripts/binary2mat.py'],
     [('scripts', 'scripts/motcorrect_vector.py, scripts/binary2mat.py')],
     'PBT: differential between the script, run as a program on generated files, and the documented sequence of library calls')
prop('P32', 'Workflows give the same results in pieces, and when stored on the way',
     'A sequence of processing steps (rotation, declination, head geometry, range offset, surface detection, cleaning, derived quantities) and the ensemble analysis after it (averages, variances, TKE, stresses, spectra, noise, dissipation, shear, TI) '
     'give each ensemble what they give it alone: cutting the record at ensemble boundaries first and joining the results afterwards changes nothing, and steps refused for the whole are refused for the pieces. '
     'Saving and loading (netCDF, compressed or not, MATLAB) between any two steps changes neither later results nor which steps are accepted.',
     ['inputs', 'histories'], 'all step sequences up to six, instruments, frames, bin sizes, places to cut or store', 'Tests run one step at a time on whole files, in one session.',
     ['dolfyn/velocity.py', 'dolfyn/binned.py', 'dolfyn/adp', 'dolfyn/adv/turbulence.py', 'dolfyn/rotate', 'dolfyn/io/api.py', 'dolfyn/io/base.py'],
     [('pipelines', 'dolfyn/velocity.py: VelBinner; dolfyn/adp/clean.py, turbulence.py; dolfyn/adv/turbulence.py'), ('storage', 'dolfyn/io/api.py')],
     'PBT: stateful step sequences; metamorphic (cut at ensemble boundaries and join) and differential (stored or not) relations')


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks')) if f.startswith('p')}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in have:
            run = '/opt/venv/bin/python run.py ' + p['id']
            checks.append(dict(property=p['id'], quick_cmd=run + ' --tier quick',
                               thorough_cmd=run + ' --tier thorough',
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=p['_tech'], level='exploration', level_note=p['_note']))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='Python harness on Hypothesis (pre-installed); nothing to build. run.py imports /repo as it is on disk.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', len(na), 'unclaimed')


if __name__ == '__main__':
    main()
