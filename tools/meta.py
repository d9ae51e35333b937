NOT_APPLICABLE = {}
BND = "Exhaustive over all paths and all solver values within the stated array sizes; sizes are small (a few antennas, blts, channels, pols); floats are reals. "
P = [
 dict(id="C01", title="Baseline numbers and antenna pairs convert back and forth exactly",
  statement="Every pair of antenna numbers maps to a baseline number that converts back to exactly that pair, for every supported numbering scheme (2147483648-antenna, 2048-antenna and 256-antenna conventions), and two different pairs never share a number under one scheme. Numbers outside the supported range are refused rather than mapped to a wrong baseline. The scheme picked automatically when converting back is the one the numbers were made with.",
  quant="all antenna number pairs 0..2^31-1, all antenna counts, all attempt/override options, arrays of up to 3 pairs",
  why="the ranges (2^62 pairs and the boundaries at 256, 2048, 2^16, 2^22, 2^31) cannot be enumerated; off-by-one at a scheme boundary shows only at one value",
  files=["src/pyuvdata/utils/bls.py", "src/pyuvdata/utils/bls.pyx"], mech="integer encodings 2^16/2^22/2^31 offsets, in Cython and Python",
  note="All integers in range are symbolic, so the verdict covers every pair; C integer overflow of 64-bit values is modelled by range checks."),
 dict(id="C02", title="Selecting part of a visibility data set keeps exactly the matching data",
  statement="Selecting on any combination of antennas, baselines, antenna strings, frequencies, channels, times or time ranges, LSTs or LST ranges, polarizations, phase centers or baseline-time indices keeps exactly the entries that satisfy every criterion, in their original order. All arrays (visibilities, flags, sample counts, metadata) of the result are the corresponding elements of the original, every size count matches, and a request that matches nothing or names something absent is refused.",
  quant="all visibility/flag/nsample values, all time and LST bounds, all subsets of blts, channels, pols, antennas on objects with up to 6 baseline-times, 3 channels, 4 polarizations",
  why="tests compare a few hand-picked selections on real files; interactions of criteria and boundary values are unbounded",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/times.py", "src/pyuvdata/uvbase.py"], mech="select preprocessing computes index lists which are applied to every parameter by its axis names",
  note=BND),
 dict(id="C03", title="Combining visibility objects loses, mixes and invents nothing",
  statement="Adding two visibility objects (the + operator, __add__ in place, or fast_concat along an axis) gives an object holding exactly the union of their baseline-times, channels and polarizations, in which every visibility, flag, sample count and per-axis metadata value is the one the operand had at that key, whatever the order of the operands' axes. Keys present in neither operand are filled as zero, flagged, with no samples, and operands that overlap (except where the first is blank) or whose metadata disagree are refused. The operands not modified in place are left as they were.",
  quant="all data values; all ways to split and order up to 3 baseline-times, 3 channels in up to 2 windows, 4 polarizations over the two objects",
  why="tests add back the halves of a few files; the number of partial overlaps and relative orders is combinatorial",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/tools.py"], mech="__add__ computes key unions and target indices for each axis; fast_concat concatenates",
  note=BND),
 dict(id="C04", title="Reordering visibility axes permutes whole entries and nothing else",
  statement="reorder_blts, reorder_freqs and reorder_pols put the axis in exactly the requested order (named orders, minor orders, autos first, window order, channel order within the selected windows, or an explicit index array), moving every visibility, flag, sample count and metadata value of an entry together. Afterwards the recorded ordering and rectangularity describe the data and lookups by baseline or polarization still return the same values as before. Index arrays for channel_order that are not permutations are refused with nothing changed.",
  quant="all data values; all initial orders of up to 4 baseline-times, 5 channels in 2 windows, 4 polarizations; all named orders and all index permutations",
  why="a wrongly permuted metadata array or stale cache only shows for particular initial orders and option combinations",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/frequency.py", "src/pyuvdata/utils/pol.py", "src/pyuvdata/utils/bltaxis.py"], mech="lexsort/argsort index arrays applied to each array; rectangularity recomputed",
  note=BND),
 dict(id="C05", title="Conjugating baselines reverses exactly the chosen entries, consistently",
  statement="conjugate_bls reverses exactly the entries chosen by the index array or convention (antenna order, or the sign of u or v from antenna positions or uvws with a tolerance, falling through to the next coordinates when zero): their antennas are swapped, uvws negated, visibilities conjugated, and data, flags and sample counts moved to the conjugate polarization, while all other entries stay as they were. Baseline numbers, counts and baseline lookups follow, conjugating twice restores the object, and a missing conjugate polarization or bad index is refused with nothing changed.",
  quant="all data and uvw values and tolerances; all subsets of 4 baseline-times; 6 polarization sets; all conventions",
  why="needs the combination of cross-pols, particular subset and orientation, and signs at tolerance boundaries",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/pol.py"], mech="index array from convention; in-place negate/conjugate and polarization swap",
  note=BND),
 dict(id="C06", title="Reading and writing by baseline and polarization hits exactly that data",
  statement="get_data, get_flags, get_nsamples, get_times and get_lsts for an antenna pair, baseline number and/or polarization (number or string) return exactly the matching entries in order, followed by the entries stored in the opposite orientation, conjugated and at the conjugate polarization; set_data, set_flags and set_nsamples change exactly the addressed elements and refuse conjugated keys or wrong shapes. antpair2ind finds exactly the entries of a pair, with or without orientation, and a key that is not in the data raises KeyError. Lookups stay right after the object has been reordered, conjugated, selected or added to.",
  quant="all data values; 5 baseline layouts (either or both orientations, autos, rectangular or not), 8 polarization sets, all key forms and squeeze options",
  why="slices, caches and rectangular shortcuts go wrong only for particular layouts and histories",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/tools.py", "src/pyuvdata/utils/io/hdf5.py"], mech="_key2inds/antpair2ind with caches, slicify, _smart_slicing, _index_dset",
  note=BND),
 dict(id="C07", title="Phasing moves uvws and visibility phases together and can be undone",
  statement="phase, phase_to_time, unproject_phase, set_uvws_from_antenna_positions and update_antenna_positions leave every baseline-time with the uvw of its baseline rotated to its phase center (or east/north/up if unprojected) and its visibilities multiplied by exp(-2 pi i dw nu/c) for exactly the change in w, whatever sequence of phasings led there and whether uvws come from antenna positions or from the old uvws. Only the selected baseline-times change; every entry's phase center id, apparent coordinates and position angle describe its own phase center, also when centers share a name or are looked up by name. Baseline lengths never change, unprojected visibilities are never rephased, and position angles are right next to the poles.",
  quant="all antenna positions, uvws, visibilities, source directions, position angles, LSTs, latitudes/longitudes; all masks of 3 baseline-times; 5 starting states; every option of phase/unproject",
  why="identities between rotations for all angles, and masks mixing projected and unprojected baselines, cannot be sampled exhaustively",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/utils/phasing.py", "src/pyuvdata/utils/phase_center_catalog.py"], mech="calc_uvw rotation matrices, _apply_w_proj, catalog ids",
  note=BND+"Angles are symbolic with cos^2+sin^2=1; identities decided by normal form modulo that ideal, else Z3. Astropy/ERFA astrometry is replaced by arbitrary values (not verified)."),
 dict(id="C08", title="Coordinate conversions are exact inverses and rigid rotations",
  statement="ENU_from_ECEF and ECEF_from_ENU are inverse to each other and are the offset from the center resolved on the local east, north and up directions; XYZ_from_LatLonAlt gives the point at that height along the ellipsoid normal and LatLonAlt_from_XYZ recovers it; rotECEF_from_ECEF/ECEF_from_rotECEF, old_uvw_calc/undo_old_uvw_calc and polar2_to_cart3/cart3_to_polar2 invert each other. One point or many, given as center_loc or latitude/longitude/altitude, give the same result, and points that cannot be on the surface are refused. Rotating about two axes equals the two single rotations in order.",
  quant="all latitudes, longitudes, altitudes, positions, angles; 1-2 points",
  why="must hold for every location and direction, including signs in every octant",
  files=["src/pyuvdata/utils/coordinates.py", "src/pyuvdata/utils/coordinates.pyx", "src/pyuvdata/utils/phasing.py", "src/pyuvdata/utils/phasing.pyx"], mech="Cython kernels and rotation matrices",
  note=BND+"LatLonAlt_from_XYZ latitude/altitude over a grid of 25 values only (longitude symbolic); Earth only (no lunarsky here)."),
 dict(id="C09", title="Resampling in time conserves the data it splits or averages",
  statement="upsample_in_time splits each integration longer than max_int_time into the smallest number of equal parts that are short enough, evenly spaced around the original time, each with the original visibilities (divided by the number of parts for a summing correlator), flags and sample counts; shorter (or, within tolerance, equal) integrations are untouched. downsample_in_time groups consecutive integrations of each baseline (until min_int_time is reached, or n_times_to_avg at a time; the last short group is kept or dropped with keep_ragged) and gives the average of the unflagged visibilities weighted by sample count times integration time (the plain sum for a summing correlator), flagged only if every input was (then averaging all), sample counts and times averaged by integration time, integration times added. Data that are unprojected or driftscan are averaged at a fixed sky position and returned to their original phase center unless allow_drift is set; data with other phase centers are not rephased; different celestial phase centers are never averaged together. uvws, LSTs, apparent coordinates, scan numbers, counts and the requested baseline-time order all match the new baseline-times. resample_in_time does these for targets at least a factor of two off.",
  quant="all visibilities, flags, positive sample counts; all thresholds; 6 layouts of up to 6 baseline-times; all options, 4 orders, 5 phase-center setups",
  why="window boundaries depend on thresholds and uneven integration times; flag patterns and mixes of phase centers are combinatorial",
  files=["src/pyuvdata/uvdata/uvdata.py"], mech="per-baseline running windows with masked arrays; _harmonize_resample_arrays",
  note=BND+"Times, integration times and astrometry are concrete; thresholds closer than 0.2% to (but not at) a tie are excluded."),
 dict(id="C10", title="Frequency averaging combines exactly the right channels",
  statement="frequency_average replaces each run of n_chan_to_avg channels of a spectral window by their average of unflagged visibilities weighted by sample counts (the plain sum for a summing correlator), flagged only if all were flagged (then averaging all of them) or, with propagate_flags, if any was; sample counts, frequencies and equalization coefficients are averaged and channel widths added. Leftover channels form a shorter last average or are dropped with keep_ragged=False, in which case windows with no channels left disappear. Windows are never mixed unless respect_spws=False, which merges them all into one. Baseline-times and polarizations never mix and all other parameters stay.",
  quant="all visibilities, flags and positive sample counts for 6 channel layouts of up to 5 channels in up to 3 windows, n_chan_to_avg 1-4, all options",
  why="flag patterns across windows and ragged ends are combinatorial; an index mix-up between windows only shows for particular flags",
  files=["src/pyuvdata/uvdata/uvdata.py"], mech="reshape to (nchan, navg) per window with masked arrays",
  note=BND),
 dict(id="C11", title="Redundant baselines are grouped, averaged and expanded consistently",
  statement="find_clusters returns exactly the cliques of locations closer than the tolerance (refusing overlapping groups when strict), however the work is split into blocks; get_baseline_redundancies and get_antenna_redundancies put each baseline of well-separated groups in exactly one group with the mean vector and its length, treating opposite orientations as redundant under the u>0, else v>0, else w>0 convention (zero meaning within tolerance), with both algorithms; get_redundancies of an object agrees from baselines or antennas, phased or not, rectangular or not. compress_by_redundancy keeps the first baseline of each group at each time, with its own data or with the sample-weighted average of the group's unflagged data (opposite orientations conjugated and their cross-polarizations swapped), summed sample counts, flagged only if all were, keeping its metadata. inflate_by_redundancy gives every antenna pair redundant with one in the data that data, oriented to u>0 (conjugated if needed), with matching metadata, counts and order.",
  quant="all locations and tolerances for 3-4 points; all visibilities, flags, weights and orientations of up to 4 baselines x 2 times, 3 polarizations; both algorithms and all options",
  why="orientation of each baseline, tolerance edges and cross-polarizations combine; tests use one array",
  files=["src/pyuvdata/utils/redundancy.py", "src/pyuvdata/uvdata/uvdata.py"], mech="adjacency cliques or grid; masked weighted averages; index maps",
  note=BND+"For the grid algorithm groups have scatter below tol/4 and separation above 2 tol. Data under an average that is fully flagged while other channels are not are unspecified."),
 dict(id="C12", title="Summing or differencing visibilities combines only matching objects",
  statement="sum_vis and diff_vis give exactly the element-wise sum or difference of the visibilities, keep every other parameter of the first object, merge extra keywords with the first object's taking precedence, and leave the second object (and the first, unless in place) unchanged. Any other parameter that differs, including flags and sample counts, makes them refuse unless it is named in override_params, in which case the first object's value is kept.",
  quant="all visibility, flag and nsample values on 2x2x2 objects; 11 kinds of mismatch at any element; all options",
  why="a comparison that misses one element or one parameter cannot be sampled exhaustively",
  files=["src/pyuvdata/uvdata/uvdata.py", "src/pyuvdata/parameter.py"], mech="parameter-by-parameter equality then array arithmetic",
  note=BND),
 dict(id="C13", title="UVFlag collapses and conversions keep every value at its place",
  statement="array_collapse gives the weighted mean, mean magnitude or rms over any axes (infinite entries carry no weight; no weight gives infinity) or the OR/AND of flags, with the summed weights and squared weights. UVFlag.collapse_pol and to_waterfall combine, for each time, channel and polarization, exactly the entries that belong there, with their weights, whatever the order of the times; to_baseline gives each baseline-time the waterfall entry of its own time (nothing where the time is unknown) or, from antenna type, flags it if either antenna is flagged or if an antenna or the time is unknown; to_antenna gives every antenna the waterfall; force_pol spreads a single polarization. to_flag flags metrics at or above the threshold, to_metric turns flags into 0/1 with optional zero weights for fully flagged times or channels; flags2waterfall gives flagged fractions; objects built from data or calibration share their axes and, if asked, a copy of the flags. Counts, times, LSTs and baselines stay consistent.",
  quant="all flags, metrics, weights and thresholds on objects of up to 4 baseline-times (or 3 antennas x 3 times), 2 channels, 2 polarizations; rectangular and irregular layouts, sorted and unsorted times; all methods and options",
  why="the layouts (baseline, antenna, waterfall) have different axis orders and a permuted time or dropped antenna silently moves flags",
  files=["src/pyuvdata/uvflag/uvflag.py", "src/pyuvdata/utils/array_collapse.py"], mech="per-time grouping and broadcasting between three layouts",
  note=BND+"rms weights are fixed values."),
 dict(id="C14", title="Selecting, joining and applying flags keeps every flag at its place",
  statement="UVFlag.select on antennas, baselines, antenna strings, times, frequencies, channels, polarizations or baseline-time indices keeps exactly the matching entries of the flags or metrics, weights and axes for every type (baseline, antenna, waterfall). Joining two UVFlag objects along time, baseline, antenna, frequency or polarization holds both objects' values at their own places and is refused when another axis, the type or the mode differs; | and |= give the OR of flag objects and combine_metrics the weighted mean, mean magnitude or rms of several metric objects. apply_uvflag flags (or, with unflag_first, replaces the flags of) exactly the visibilities whose own baseline, time, channel and polarization are flagged, whatever the order of the axes, and refuses flags whose times, channels or polarizations do not match the data.",
  quant="all flag, metric and weight values on objects of up to 4 baseline-times (or 3 antennas x 3 times), 2-3 channels, 2 polarizations; all subsets, all orders of the second operand's axes",
  why="flags applied to the wrong time or channel raise no error; tests use matching files in the same order",
  files=["src/pyuvdata/uvflag/uvflag.py", "src/pyuvdata/utils/apply_uvflag.py"], mech="three layouts with different axis orders, index matching by value",
  note=BND+"rms weights are fixed values."),
 dict(id="C15", title="Selecting, reordering and reading UVCal keeps each solution with its key",
  statement="UVCal.select on antennas, frequencies or channels, times or time ranges, LSTs or LST ranges (also across the 24 h wrap), Jones terms, spectral windows or phase centers keeps exactly the matching gains, delays, flags, qualities and axis metadata, for per-channel gains, delays, wide-band and flexible-Jones objects, and refuses what matches nothing. reorder_antennas, reorder_times, reorder_jones and reorder_freqs only permute: every solution keeps its antenna, channel or window, time and Jones term, and the order is the requested one. get_gains, get_flags and get_quality return the entries of the named antenna and Jones term; convert_to_gain turns a delay tau into exp(-/+ 2 pi i nu tau) for every channel; convert_to_flex_jones and remove_flex_jones lose and invent no solution.",
  quant="all gains, delays, flags and qualities on objects of up to 3 antennas, 3 times, 3 channels in up to 3 windows, 2 Jones terms; all subsets and explicit orders, all range bounds",
  why="a solution that moves to another antenna or channel is still a valid file; only the meaning is wrong",
  files=["src/pyuvdata/uvcal/uvcal.py", "src/pyuvdata/utils/times.py", "src/pyuvdata/utils/frequency.py"], mech="index lists and permutations applied by axis names; wrapped LST intervals",
  note=BND),
 dict(id="C16", title="Combining UVCal objects loses, mixes and invents no solution",
  statement="Adding two UVCal objects (the + operator, __iadd__) or joining them with fast_concat along antennas, times, channels, spectral windows or Jones terms gives an object with exactly the union of their keys in which each gain, delay, flag, quality, total quality and axis metadata value is the one the operand had at that key, whatever the order of the operands' axes; combinations neither operand has are flagged. Overlapping or incompatible operands (type, convention, reference antenna, time ranges) are refused, and operands not modified in place are left as they were.",
  quant="all solution values, flags and qualities; all splits and relative orders of up to 3 antennas, 3 times, 3 channels/windows and 2 Jones terms over the two objects, gains, delays, wide-band, sky-based and flexible-Jones",
  why="tests add back the halves of a few files in order; partial overlaps and relative orders are combinatorial",
  files=["src/pyuvdata/uvcal/uvcal.py", "src/pyuvdata/utils/tools.py"], mech="key unions and target indices for each axis",
  note=BND),
 dict(id="C17", title="Calibration applies to each visibility the gains of its own two antennas",
  statement="uvcalibrate multiplies or divides (by the gain convention and undo) every visibility by g_i conj(g_j) (conj(g_i) g_j with flip_gain_conj) of its own two antennas, matched by antenna name, the two feeds of its polarization, its own time (or the time range holding it) and its own frequency, whatever the order of the two objects' axes and whatever times each baseline has. With prop_flags, visibilities with a flagged or zero gain are left alone and flagged; antennas without solutions are refused or, with ant_check off, flagged and unchanged. Delay solutions act as exp(-/+ 2 pi i nu tau). Units and polarization conventions (a factor 2 between sum and avg) are tracked, undoing returns the original, and solutions that do not cover the data's times, channels or feeds are refused.",
  quant="all visibilities and flags, symbolic gains (all values away from zero) on crossed and auto baselines, symbolic delays and solution flags; up to 5 baseline-times, 3 times, 2-3 channels, 4 polarizations; all axis orders, conventions and options",
  why="a gain taken from the wrong time, feed or antenna gives plausible data; the tests use one file with matching axes",
  files=["src/pyuvdata/utils/uvcalibrate.py", "src/pyuvdata/uvcal/uvcal.py"], mech="name/time/frequency matching and per-baseline loop",
  note=BND+"Gains are symbolic on small objects and distinct fixed numbers on the larger ones."),
 dict(id="C18", title="Antenna beams keep every value with its own direction, frequency and feed",
  statement="Selecting from a UVBeam by feeds or polarizations (numbers, names or orientation names, in any order), frequencies, channels, axis indices or HEALPix pixels keeps exactly the chosen entries in their original order, each with its own data, basis vectors, bandpass, couplings and per-frequency metadata; absent values are refused. Adding two beams gives the union with every value of both at its own place, whatever the order of their axes, zeros only where neither has data; overlapping or incompatible beams are refused with the operands untouched. Peak normalization divides each frequency by its own peak and moves that into the bandpass; efield_to_power and efield_to_pstokes give the power of each pair of feeds and the diagonal Mueller elements of each direction and frequency; areas sum the pixels of the named polarization. Interpolating to a frequency, direction or HEALPix pixel centre that the beam has returns the stored values of it (linear in frequency between them, periodic in azimuth), for the requested polarizations and frequencies, in arrays or a new object, and splines kept for reuse are never used for other data or options; nothing is extrapolated in frequency.",
  quant="all data, bandpass and coupling values; all selections of up to 3 entries per axis; all orders of feeds, polarizations, frequencies and pixels at these sizes; efield and power beams with and without cross polarizations, azimuth/zenith and HEALPix, simple and phased arrays",
  why="a wrong index keeps shapes valid and beams look alike; the tests compare smooth beams in sorted order within tolerances",
  files=["src/pyuvdata/uvbeam/uvbeam.py", "src/pyuvdata/uvbeam/initializers.py", "src/pyuvdata/uvbeam/uvbeam.pyx", "src/pyuvdata/utils/tools.py"], mech="select, __add__, interp, peak_normalize, efield_to_power, efield_to_pstokes, to_healpix, beam areas",
  note=BND+"scipy's splines and astropy_healpix's bilinear weights are libraries: they are evaluated on unit samples at the concrete points and applied to the symbolic samples, being linear in them. Directions and frequencies of interpolation are fixed numbers. Basis vectors are fixed distinct numbers. File formats are outside."),
 dict(id="C19", title="UVH5 files return exactly what was written, in whole or in part",
  statement="Writing a UVData object to a UVH5 file and reading it gives back every visibility, flag, weight and metadata value (also optional ones, several phase centers and spectral windows, whatever the storage type), and leaves the object in memory as it was; an existing file is only replaced when asked. Reading part of a file by any selection keyword or axis indices, with or without multi-dimensional indexing, gives the same as reading everything and selecting, and refuses the same requests. A file that is initialised and then filled in parts, in any order and over any index sets or selection keywords, holds exactly the parts at their places; parts of the wrong shape or for an object with other metadata are refused and change neither file nor object. Reading metadata first and data later, or several files at once, gives the same as reading and adding. FastUVH5Meta reports the file's own sizes, times, pairs, ordering and keys.",
  quant="all visibilities, flags and weights; contiguous, strided, irregular, single, paired and reversed index sets on each axis and their combinations; all partitions of the listed kinds on three axes; complex, float-pair and integer-pair storage",
  why="index arithmetic over slices, lists and axes has many branches, picked by sizes and spacing that test files do not reach; misplaced data keep their shape",
  files=["src/pyuvdata/uvdata/uvh5.py", "src/pyuvdata/utils/io/hdf5.py", "src/pyuvdata/utils/tools.py"], mech="_get_data, _index_dset, _read_complex_astype, _write_complex_astype, write_uvh5, initialize_uvh5_file, write_uvh5_part, _check_header, FastUVH5Meta",
  note=BND+"HDF5 itself is a library: metadata and selections go through the real h5py; symbolic datasets are kept beside the file and indexed as h5py says. Compression filters are off; nsamples are stored in single precision and compared to 1e-4; scan numbers, file names and history are not part of the claim."),
 dict(id="C20", title="CalH5 and UVFlag files return exactly what was written",
  statement="Writing a UVCal object to a CalH5 file, or a UVFlag object (flag or metric mode; baseline, antenna or waterfall type) to a UVFlag file, and reading it gives back every gain, delay, flag, quality, metric, weight and metadata value, also optional ones, and leaves the object in memory as it was; an existing file is only replaced when asked. Reading part of a CalH5 file by any selection keyword gives the same as reading everything and selecting, and refuses the same requests. Reading metadata first and data later, or several files at once (added, or concatenated along an axis), gives the same as reading and adding. FastCalH5Meta reports the file's own sizes, antennas, Jones terms, channels and times.",
  quant="all gains, delays, flags, qualities, metrics and weights; gain, delay and wide-band layouts, time arrays or ranges; contiguous, strided, irregular and single selections on antennas, channels, windows, times and Jones terms and their combinations",
  why="partial reads translate selections into slices of the file on up to four axes by many branches; a wrong branch returns plausible values of other antennas or channels",
  files=["src/pyuvdata/uvcal/calh5.py", "src/pyuvdata/uvflag/uvflag.py", "src/pyuvdata/utils/io/hdf5.py"], mech="CalH5.read_calh5, _get_data, write_calh5, FastCalH5Meta, UVCal.read, UVFlag.write, UVFlag.read",
  note=BND+"HDF5 itself is a library (as in C19). Compression filters are off; file names and history are not part of the claim."),
 dict(id="C21", title="UVFITS, CalFITS and BeamFITS files return what was written",
  statement="Writing a UVData object to UVFITS, a UVCal object to CalFITS or a UVBeam object to BeamFITS and reading the file gives back every visibility, weight, flag (also where the weight is zero), gain, delay, quality, total quality, beam value, bandpass and basis vector at the same baseline, time, frequency, polarization, antenna or pixel, whatever the order of polarizations, the direction of the axes and the order of the spectral windows, together with the metadata the format keeps (phase centers, telescope, antennas, widths, optional per-frequency arrays, extra keywords), and leaves the object in memory as it was. What a format cannot hold (uneven axes, several windows in CalFITS, windows of different sizes, phased-array beams) is refused. Reading part of a file by any selection keyword, or by frequency, azimuth and zenith-angle ranges of a beam, gives exactly what a full read restricted to that selection gives, and refuses the same requests. Reading only metadata, or a list of BeamFITS files, agrees with full reads.",
  quant="all visibilities, flags, weights, gains, delays, qualities, beam values and bandpasses; all real ranges; ascending and descending axes, several windows, any order of polarizations; every listed selection keyword and combination",
  why="the formats describe axes by a reference value and an increment and pack flags into weight signs; a wrong sign, order or axis gives files that read without error but hold values at other frequencies or polarizations",
  files=["src/pyuvdata/uvdata/uvfits.py", "src/pyuvdata/uvcal/calfits.py", "src/pyuvdata/uvbeam/beamfits.py", "src/pyuvdata/utils/io/fits.py"], mech="write_uvfits, read_uvfits, _get_data, write_calfits, read_calfits, write_beamfits, read_beamfits, _gethduaxis",
  note=BND+"astropy.io.fits is a library: real files are written and read, in which every symbolic value is represented by a number of its own that no computation touches. Rounding to single precision is outside the claim; window and phase-center numbers are renumbered by the formats, polarizations are written in the order of their absolute value; weights are positive except at chosen places. Wide-band gains (which CalFITS stores as one channel), file names and history are not part of the claim."),
]
