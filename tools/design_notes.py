"""Per-property notes for DESIGN.md: oracle, bounds, why beyond the tests."""
N = {}
N['P01'] = '''Oracle: integer arithmetic on nanoseconds (never floats) and the documented rounding of each representation; round trips; the same
conversion under six values of TZ (time.tzset) must agree. Instants: 1678..2262 where datetime64[ns] allows, clustered at sub-second
boundaries (x.9999995), year ends, leap days. Containers: scalar, list, ndarray, DataArray, masked.'''
N['P02'] = '''Oracle: a per-lane loop over runs of NaN written from the docstring (neighbours, gap length, ends), independent of dolfyn's vectorised
index arithmetic. Arrays of rank 1-3, every axis (also negative), every memory layout (C, F, strided views), maxgap 0..beyond the
array, all-NaN lanes, uneven abscissae for interpgaps.'''
N['P03'] = '''Oracle: brute force (run detection by scanning, np.polyfit residual, sorted-window median, direction vectors of angles). Also the exact
boundaries of convert_degrees (0, 90, 180, 270, 360 and both neighbours in floating point).'''
N['P04'] = '''Oracle: product of the three elementary rotations built in vlib/gen.py (Rz, Ry, Rx), not dolfyn's expanded sines and cosines; round trip
away from gimbal lock; quaternion algebra; tilt = angle between z axes. instrument_angles/vector_angles drop the stored matrix and compare
rotate2('earth') with the reference matrix times the samples.'''
N['P05'] = '''Histories: random paths through beam/inst/earth/principal of up to 8 steps for Vector (with and without IMU), AWAC, Signature (also AHRS,
5th beam, bottom track, extra IMU vectors) and TRDI, up/down/mixed mounting, head matrices, float32/64, NaNs, with declination. Relations:
path == direct, there-and-back == identity, labels == frame, other variables untouched, refused frames change nothing.'''
N['P06'] = '''Oracle: explicit numpy algebra per manufacturer definition on each ping (no einsum shared with dolfyn). Missing-sample taint analysis:
the NaN pattern of the output is computed from the non-zero pattern of the transformation.'''
N['P07'] = '''Oracle: Rz(declination) applied to the earth frame by hand; histories of set/rotate/set; undo.'''
N['P08'] = '''Oracle: complex doubling of angles, numerically independent; metamorphic (reverse a subset, permute, rotate all, change w).
Samples whose mean resultant is too small to define an axis are excluded by an error bound.'''
N['P09'] = '''Oracle: matrix product in the instrument frame computed on the snapshot; orders of set/rotate/declination; refusals leave data as they are.'''
N['P10'] = '''Stateful: a list of up to 12 operations (rotate, declination, head matrix, nan_beyond_surface, correlation_filter, save/load, reading analysis)
is applied to two copies, inplace and copying; after each step datasets must be identical including attributes and dtypes, the input of the
copying variant unchanged (byte snapshot) and no memory shared (np.shares_memory).'''
N['P11'] = '''Oracle: bins by explicit index lists (also fractional n_bin, padding taken from neighbours), nan-statistics per bin in float64.
Datasets of every instrument including variables on other clocks (5th beam, altimeter raw data). A warning is expected exactly if bins are longer than bursts.'''
N['P12'] = '''Oracle: explicit segment loop with np.fft.rfft of a polyfit-detrended window; Parseval for the boxcar; noise floor and clipping per bin.
Metamorphic: sizes given in the call (shorter, equal or longer bins and FFTs than the binner's) give what a binner made with them gives; an FFT longer than
the record is the record's single segment.'''
N['P13'] = '''Oracle: the same explicit segments for both signals; quasi-synchronous segments from their documented spacing; Hermitian symmetry; |coh|<=1.
The known defect of phase_angle is modelled exactly (first segment right, the rest 1), so anything else is still reported. Sizes given in the call as under P12, for the
three functions.'''
N['P14'] = '''Oracle: direct lag sums over the (padded) record per ensemble; boundaries by existing samples only.'''
N['P15'] = '''Oracle: direct moments per ensemble; noise given as number, list, array, DataArray; the all-in-one analysis is compared with the single steps.
Gaps in records that lie on a line must not leave any trend behind (detrend=True with missing samples).'''
N['P16'] = '''Oracle: synthetic inertial-range spectra whose dissipation is known in closed form, and independent evaluation of LT83, SF and TE01 formulas
on arbitrary data; units Hz and rad/s; frequency ranges including edges.'''
N['P17'] = '''Oracle: ellipsoid test recomputed from Goring & Nikora / Wahl per block; gap filling per gap (linear exact, cubic exact for cubics,
spline/pchip over exactly npt good points each side compared with scipy on those points); ensemble means by explicit windows.'''
N['P18'] = '''Oracle: per-cell loops; UNESCO density formula written out; masks compared with cell-by-cell predicates; purity.
Cells within rounding of a limit are excluded.'''
N['P19'] = '''Oracle: Dewey & Stringer (2007) formulas written from the paper, finite differences per cell, structure functions by double loop,
orthogonal-fit friction velocity. Known defects are modelled exactly.'''
N['P20'] = '''Oracle: an independent model (scipy filtfilt, cumulative trapezoid, cross products) and a physical oracle: a rigid body shaken in a steady
current must measure the current; commutation with frame, declination and output frame; burst by burst equality for duty cycles;
filter frequencies recorded in the dataset against the same given in the call.'''
N['P21'] = '''Round trip over datasets made by the generator and by the readers with extra dtypes, complex variables, awkward attributes; second generation is a fixpoint;
user encoding precedence; input snapshot.'''
N['P22'] = '''Round trip over datasets read from generated files of all seven instrument kinds and edited (rotated, declination, window, NaN, attributes); the MAT file is
also read with scipy directly and checked against its documented layout.'''
N['P23'] = '''Formulas evaluated in numpy on the stored arrays; every velds method against the function of the same name; the printed summary is parsed back.'''
N['P24'] = '''Differential: read(file) with userdata == read(userdata=False) followed by applying the metadata by hand. Paths: relative, absolute, ~, dots in
folders, spaces, double extensions, both places of userdata files, decoys.'''
N['P25'] = '''vlib/nortek_w.py writes Vector files (hardware, head, user configuration, vector headers, system, velocity, two IMU record types, checksums, probe checks, unknown
records, truncations) from the System Integrator manual, sharing no code with dolfyn. The dataset read must hold the values written.'''
N['P26'] = '''Same writer, AWAC profiles (some with unset or damaged clocks) and Vectrino records.'''
N['P27'] = '''Table of about 80 calls with their documented defaults written out by hand; f(x) is compared bit by bit with f(x, a=default...), including
changes to arguments; a case counts as non-trivial when another option value would have changed the result.'''
N['P33'] = '''Each single call is made in a child forked from a pristine process (its canonicalised result, exception and final arguments are sent back); a second
child makes a generated sequence of calls, spoiling results and arguments in between. Both must agree bit by bit; arguments may change only for the functions
documented to work in place, and a snapshot of process-wide state is compared before and after.
Afterwards the result is overwritten (values, attributes, nested lists): the arguments must not notice. `repeated` calls one function several times (same and other
arguments), `sessions` mixes them. The `history` subs of P11-P16, P19, P21, P23 and P24 (vlib/history.py) do the same inside those properties: one tool object,
generated sequences of calls with varying arguments, and each result against a fresh object. debug=True is left out (it replaces the logging handlers by design).'''
N['P28'] = '''vlib/trdi_w.py writes PD0 ensembles (fixed/variable leader of several firmwares, velocity, correlation, amplitude, percent good, status, bottom track,
surface layer, 5th beam, VMDAS and WinRiver II navigation, unknown ids, junk, cuts, growing cells,
NMEA sentences without data).'''
N['P29'] = '''vlib/ad2cp_w.py writes Signature files (string/configuration records, burst, average, beam 5, bottom track, echo sounder, altimeter, raw altimeter, AHRS,
skipped pings, ensemble counters that restart with each burst, bad clocks, cuts) and histories (grow, replace, re-index, crop). The `_deep`, `_long` and
`_megabytes` subs draw the same cases with many cells, hundreds of ensembles or records of realistic size (files beyond the readers' buffers and first estimates).'''
N['P31'] = '''Mutation-based fuzzing of the files of P25-P29 (byte and bit flips, zeroing, cutting, deleting, duplicating, moving, splicing of blocks; targeted damage of
size fields, sync bytes, checksums). Oracle: a 90 s CPU limit per case (hang detector), result is an exception or a coherent dataset equal on
re-reading; file unchanged; damage of one step stays in it; checksum option; resynchronisation.'''

N['P30'] = '''Oracle: the same sequence of library calls written out from the scripts' help texts, outputs compared variable by variable (netCDF) or field by field (MAT).
The scripts are run in-process (runpy, own argv and working directory) and, in sub `process`, as programs. Everything happens in scratch folders.'''
N['P32'] = '''Two relations over random step sequences on datasets read from generated files. `pieces`: cut at ensemble boundaries, all steps and the analysis on each piece,
results joined = those of the whole. Left out: quantities that by design use samples beyond the ensemble (autocovariance, cross-covariance, coherence, phase, cross-spectra with n_fft_coh,
length scale). `stored`: save/load between steps (format drawn per step) = no storing; ill-conditioned quantities (slopes, coherence) only in shape, since netCDF stores single precision.'''
