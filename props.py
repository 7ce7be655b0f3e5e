"""The properties claimed by this framework. tools/mkmanifest.py writes properties.jsonl and MANIFEST.json from this table."""

U = "PyFHD/pyfhd_tools/pyfhd_utils.py"
CU = "PyFHD/calibration/calibration_utils.py"
CC = "PyFHD/calibration/calibrate.py"
GU = "PyFHD/gridding/gridding_utils.py"
FL = "PyFHD/flagging/flagging.py"
UVF = "PyFHD/data_setup/uvfits.py"
OBS = "PyFHD/data_setup/obs.py"
IO = "PyFHD/io/pyfhd_io.py"
HP = "PyFHD/healpix/healpix_utils.py"
BU = "PyFHD/beam_setup/beam_utils.py"
BS = "PyFHD/beam_setup/beam.py"
UC = "PyFHD/pyfhd_tools/unit_conv.py"
VM = "PyFHD/source_modeling/vis_model_transfer.py"
SU = "PyFHD/pyfhd_tools/pyfhd_setup.py"
MAIN = "PyFHD/pyfhd.py"

P = []


def prop(id, title, statement, files, mechanism, text, why, over=("inputs",), note=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, files=list(files), mechanism=[dict(name=n, where=w) for n, w in mechanism], text=text, why=why, over=list(over), note=note, observe=list(observe)))


# ---------------------------------------------------------------- generic numerical tools
prop("U01", "Histogram counts and reverse indices partition the data",
     "For any numeric data, bin size and range, the bin positions are evenly spaced from the minimum, every bin counts exactly the values that fall into it and values outside the range are counted nowhere. The reverse indices list, bin by bin, exactly the positions of the values counted in that bin, each position once, so no value is lost, duplicated or attributed to another bin.",
     [U], [("bin edges, counting pass and reverse-index pass", U + ":get_bins/get_hist/get_ri/histogram")],
     "all data arrays, bin sizes, minima, maxima and bin counts", "tests compare a few stored IDL outputs (not available offline); boundary values and empty bins are unlimited")
prop("U02", "Rebinning averages or replicates whole blocks",
     "Shrinking an array by a whole factor gives the mean of each block (truncated towards zero for integers), or its first element when sampling; growing it by a whole factor replicates or linearly interpolates each element. The result has the requested shape for every combination of growing and shrinking axes, the input is not modified, and sizes that are not whole factors are refused.",
     [U], [("axis by axis block reduction and expansion", U + ":rebin/rebin_rows/rebin_columns")],
     "all one and two dimensional arrays and all whole scale factors per axis", "the existing tests check a handful of fixed arrays")
prop("U03", "Inverting weights never divides by zero",
     "Inverting weights returns the reciprocal wherever the weight is usable (non-zero, not NaN, at least the threshold if one is given) and exactly zero everywhere else. The result is never NaN or infinite and the weights passed in are not modified.",
     [U], [("masked reciprocal", U + ":weight_invert")],
     "all real and complex weight arrays with NaN, infinities and zeros, with and without threshold", "a test samples a few arrays; zero, NaN and negative weights can occur anywhere")
prop("U04", "Index matching and coordinate grids are exact",
     "Matching values against one or two index arrays returns every position where either array holds a listed value and no other, whatever duplicates occur, or signals that nothing matched. Coordinate grids hold at each element its own coordinate along the requested axis, uniqueness reports the last position of every distinct value of a sorted list, and the derivative coefficients are those of the falling factorial.",
     [U], [("histogram based matching", U + ":array_match"), ("index grids", U + ":meshgrid"), ("unique values", U + ":idl_argunique"), ("derivative", U + ":deriv_coefficients")],
     "all integer arrays, values and sizes", "duplicates, empty bins and missing second arrays are not sampled by the tests")
prop("U05", "Robust mean and median ignore outliers consistently",
     "The resistant mean is the mean of exactly those values that lie within the requested number of robust standard deviations of the median (estimated in two stages), so moving a far outlier further away does not change it. The median is the upper middle value, or the mean of the two middle values for even counts on request; with a sliding window the interior values are window medians and the ends are copied.",
     [U], [("median absolute deviation clipping", U + ":resistant_mean"), ("median conventions", U + ":idl_median")],
     "all data arrays, deviation limits and window widths", "only a few fixed arrays are compared with stored results")
prop("U06", "Sky geometry: direction cosines, angles and w-phases are exact",
     "Direction cosines of sky positions relative to the phase centre follow the spherical-trigonometry formulas and lie on the unit sphere, and are zero for pixels below the horizon; angular separations are great-circle distances and the parallactic angle satisfies the standard tangent formula. De-projecting the third baseline coordinate multiplies every visibility of every polarization by the unit phase of its own baseline and frequency and nothing else.",
     [U], [("direction cosines", U + ":l_m_n"), ("angles", U + ":angle_difference/parallactic_angle"), ("w-term phases", U + ":simple_deproject_w_term")],
     "all right ascensions, declinations, observatories, baselines and frequencies", "the tests compare one stored example each")
prop("U07", "Region growing returns exactly the connected region",
     "Growing a region from seed pixels returns exactly the interior pixels that are connected to a seed, edge to edge, through pixels whose values lie in the accepted range (the given limits, or the range of the seeds). Pixels outside the range, unconnected ones and the image border are never included, and nothing is returned when nothing grows.",
     [U], [("labelled connected components", U + ":region_grow")],
     "all two dimensional images, seeds and limits", "connectivity can be arbitrarily long, a test samples one shape")
prop("U08", "Sky, horizon and pixel coordinates convert into each other",
     "The pixel of a sky position is that of the slant orthographic projection about the reference position with the given pixel size, reference pixel and slant, and the position of a pixel is the one that projects onto it. Altitude and azimuth are those of the position as seen from the given place at the given time, and converting them back gives the position, whatever the format of the time.",
     [UC], [("projection", UC + ":radec_to_pixel/pixel_to_radec"), ("horizon", UC + ":radec_to_altaz/altaz_to_radec")],
     "all positions, projections, places and times", "the tests compare one stored example; sign and axis errors vanish at special positions")
# ---------------------------------------------------------------- visibility weights
prop("W01", "Updated weights never revive flagged data and lose none unflagged",
     "After updating the weights, a sample is zero whenever its frequency, its time or either of its tiles is flagged, its baseline length at that frequency is outside the selected range, or its gridding footprint would leave the grid; every other sample keeps its weight, in every polarization. The recorded numbers of usable visibilities and of flagged tiles, frequencies and times follow from these, and the coordinates are not modified.",
     ["PyFHD/pyfhd_tools/pyfhd_utils.py"], [("tile, frequency, time and baseline-range cuts", U + ":vis_weights_update")],
     "all weights, tile/frequency/time flags and baseline length limits", "the interaction of several flag kinds at arbitrary positions is not sampled")
prop("W02", "Even and odd weights use the same paired samples",
     "Splitting the weights into an even and an odd half pairs adjacent used times: a sample stays usable only if its partner at the adjacent time (same frequency, baseline and polarization) is usable too, and then both get the same combined weight, limited to one. The two halves list equally many samples, partner by partner, and all samples without a partner get zero weight.",
     [U], [("pairing of adjacent times", U + ":split_vis_weights")],
     "all weights and numbers of times, including odd ones", "flag patterns over time are unlimited")
prop("W03", "Noise is estimated from even-odd differences only",
     "The noise per polarization and frequency is the standard deviation of the imaginary part of the difference between paired even and odd samples whose weights are both positive, over the square root of two, so a signal common to both halves leaves it unchanged. A frequency without pairs and data with a single time give zero, and the visibilities are not modified.",
     [U], [("even-odd difference", U + ":vis_noise_calc")],
     "all visibilities and weights", "signal independence is a relation between runs on all inputs")
# ---------------------------------------------------------------- flagging
prop("F01", "Requested tiles, band edges and times are flagged completely",
     "Flagging by configuration gives zero weight to every sample of a named tile, outside the frequency limits, at an unused time and, when channel flagging is on, on the edges of the coarse channels, on every baseline and polarization involved. All other weights are kept, except that without channel flagging a frequency that is flagged throughout is restored where a baseline in use has data. A tile or frequency stays recorded as used exactly while every polarization has usable data for it, and the recorded numbers of flagged tiles, frequencies and times agree.",
     [FL], [("tile selection", FL + ":vis_flag_tiles"), ("configured cuts", FL + ":vis_flag_basic")],
     "all configurations of the flagging options and all weights", "combinations of options and positions are unlimited; the tests need data that are not available offline", over=("inputs", "configurations"))
prop("F02", "Outlier flagging removes outliers and nothing else",
     "Automatic flagging gives zero weight to every sample of exactly those tiles, frequencies and times whose scatter is beyond the sigma threshold around the median (estimated in two passes, the second without the first pass's outliers) or that lack data, and of baselines outside the length range; all other weights are kept. The records of used tiles and frequencies and the number of usable visibilities agree, and the visibilities are not modified.",
     [FL], [("two-pass sigma clipping per tile, frequency and time", FL + ":vis_flag")],
     "all visibilities, weights and thresholds", "outliers can sit in any tile, frequency or time")
# ---------------------------------------------------------------- calibration
prop("C01", "Applying gains divides each visibility by its own two gains",
     "Calibrated visibilities are the measured ones divided by the gain of the first tile and the conjugate gain of the second tile of their baseline, at their own frequency and polarization pairing, and zero where that product is zero. With four polarizations the two cross polarizations are additionally rotated in opposite directions by the phase that agrees best with the model, and gains are not modified.",
     [CU], [("gain product per baseline", CU + ":vis_calibration_apply")],
     "all visibilities, gains, baseline-to-tile assignments, numbers of polarizations, frequencies and times", "every tile pairing and polarization order has to be right, a stored example samples one")
prop("C02", "Dividing out and restoring the auto-correlation ratio is lossless",
     "The squared ratio of a tile equals its auto-correlation over that of the reference tile at every frequency, and is one for tiles without an auto-correlation. Dividing the gains by it and multiplying back returns the original gains exactly, and tiles without auto-correlations keep theirs.",
     [CU], [("ratio", CU + ":cal_auto_ratio_divide"), ("restore", CU + ":cal_auto_ratio_remultiply")],
     "all gains, auto-correlations, reference tiles and subsets of tiles with auto-correlations", "subsets and orders of tiles are unlimited")
prop("C03", "Band pass and remainder together are the original gains",
     "The band pass of a tile in use is the robust mean over the tiles of its group (all tiles, or those with the same cable length when requested and available) of the gain amplitudes, each tile normalised by its own robust mean over the used frequencies. Band pass times remainder is the original gain wherever the band pass is not zero; unused frequencies have no band pass and keep their gain; nothing becomes NaN and the gains passed in are not modified.",
     [CU], [("robust mean over groups of tiles", CU + ":vis_cal_bandpass")],
     "all gains, tile and frequency flags, cable groups", "flag patterns and zero gains are unlimited")
prop("C04", "Polynomial gain fits are least squares fits plus the reported reflection",
     "Each gain is replaced by the least squares polynomial of its amplitude over the used frequencies (one on each side of the digital gain jump when requested and inside the band) with the least squares polynomial of its unwrapped phase; the reported parameters are the coefficients of these fits. With a cable reflection mode the fit is multiplied by one plus the reflection given by the reported mode, amplitude and phase, which are the tabulated, theoretical or best fitting ones for that tile; tiles not in use get none.",
     [CU], [("polynomial and reflection fits", CU + ":vis_cal_polyfit")],
     "all gains, degrees, frequency flags and reflection modes", "degrees, flags, modes and their combinations are unlimited", over=("inputs", "configurations"))
prop("C05", "Auto-correlations reach their own tile",
     "The auto-correlation of a tile is the real part of its own baseline at each used time, averaged over these when requested. Initial gains are the square root of the ratio of data to model auto-correlation of the same tile, scaled to the robust amplitude ratio of data and model and one where unusable; fitted gains are the least squares scale and offset of that ratio over used frequencies away from flagged ones, with the phase of the solved gain, and gains of tiles without auto-correlation stay as they are.",
     [CU], [("extraction", CU + ":vis_extract_autocorr"), ("initial gains", CU + ":vis_cal_auto_init"), ("fit", CU + ":vis_cal_auto_fit")],
     "all tile orders, subsets of tiles with auto-correlations, times and frequency flags", "orders and subsets are unlimited")
prop("C06", "The solver recovers the gains and ignores unusable data",
     "When the data are exactly gain times model times conjugate gain, the solver returns these gains up to the phase of the reference tile, whatever the samples without weight, at unused frequencies or outside the calibration baseline range hold; with noise each gain is the least squares fit of its own baselines given the other gains, each averaged over time with its own weights when requested. Tiles with fewer than five baselines at a frequency get zero, flagged tiles without data NaN, and tiles or frequencies that take no part keep their initial gain.",
     ["PyFHD/calibration/vis_calibrate_subroutine.py"], [("alternating least squares", "PyFHD/calibration/vis_calibrate_subroutine.py:vis_calibrate_subroutine")],
     "all visibilities, weights, flags, baseline ranges and solver settings", "recovery and independence from flagged data are relations over all inputs", over=("inputs", "configurations"))
prop("C07", "Averaging calibration data over time keeps baselines apart",
     "Averaging calibration data over the times of one observation gives, for each frequency and baseline, the weighted sum over that baseline's samples at all times. Nothing leaks between baselines, frequencies and times, and the inputs are not modified.",
     [U, CU], [("time axis recovered from the flat baseline axis", U + ":reshape_and_average_in_time")],
     "all visibilities, weights, numbers of times and baselines", "the flat axis mixes times and baselines, errors show only for particular counts")
prop("C08", "Calibration diagnostics describe the data they claim to",
     "The residual statistics list, for every bin of five wavelengths of baseline length within the observation's range, the mean and the scatter of the absolute difference between calibrated data and model over the mean model amplitude, using exactly the visibilities of that length whose model is not zero. The Q-U mixing angle is the difference between the phases of the regression of Q on U in the model and in the data, over the weighted time averages.",
     [CU, CC], [("length histogram", CU + ":vis_baseline_hist"), ("regression phase", CC + ":calibrate_qu_mixing")],
     "all visibilities, models, weights and baseline lengths", "bin membership and flagged models are unlimited")
prop("C09", "The adaptive solver gain stays in its safe range",
     "The step used by the calibration loop is the base gain for the first iterations and afterwards the value predicted from the last convergences, averaged with the last step. It never falls below half the base gain nor exceeds the larger of that and the mean of one and the last step, and only the entry of the current iteration is recorded.",
     [CU], [("convergence prediction", CU + ":calculate_adaptive_gain")],
     "all convergence histories, base gains and iterations", "histories are unlimited; a test checks one number", over=("inputs", "histories"))
prop("C10", "Calibration flagging removes exactly the outlying solutions",
     "Flagging by calibration removes exactly the tiles whose gain amplitudes do not vary, scatter beyond five standard deviations, average less than half or more than twice the median tile, or whose phase slope or phase scatter is an outlier, and (only if requested) the frequencies without variation or with outlying scatter. Nothing that was flagged becomes usable again and the gains are not modified.",
     [CU], [("outlier cuts on amplitude and phase", CU + ":vis_calibration_flag")],
     "all gains and flags", "outliers of every kind can occur anywhere")
prop("C11", "Calibration runs exactly the requested stages and reports what it did",
     "The final gains are the solved ones carried through exactly the requested stages: ratio division, band pass, polynomial fit of the remainder, ratio restoration, auto-correlation fit. The returned visibilities are the measured ones divided by these gains, the gain residual is solved minus final gain, the gain statistics are taken over used tiles and frequencies, flags change only when calibration flagging is requested, and model and weights are not modified.",
     [CC], [("orchestration", CC + ":calibrate")],
     "all observations and combinations of calibration options", "the number of combinations of options and flags is beyond tests", over=("inputs", "configurations"))
# ---------------------------------------------------------------- gridding
prop("G01", "The conjugate mirror maps every uv pixel to its negative",
     "Mirroring a uv plane places at every pixel the complex conjugate of the value at the point reflected through the origin pixel, with indices wrapping around the edges, so mirroring twice restores the plane. The shape is preserved and the input is not modified, for real and complex planes of any size.",
     [GU], [("flip, roll and conjugate", GU + ":conjugate_mirror")],
     "all square uv planes", "an off-by-one shows only at particular pixels")
prop("G02", "Kernel interpolation is exact bilinear interpolation",
     "The kernel for a visibility is the combination of its four neighbouring tabulated kernels, each with its own bilinear weight: the entry at the offsets, and those one step further along the first, the second and both directions. The kernel table is not modified and the result has the length of one kernel.",
     [GU], [("four-neighbour weighting", GU + ":interpolate_kernel")],
     "all kernel tables, offsets and fractional positions", "axis swaps vanish on symmetric examples")
prop("G03", "Cross-polarization reformatting keeps every component",
     "Reformatting four gridded polarizations leaves the two parallel ones untouched, turns the third into half the difference of it and the conjugate-mirrored fourth, and makes the fourth the conjugate mirror of the third, at every pixel. Splitting a complex cross-polarization image stores its real and its imaginary part separately without losing either, names them accordingly, and leaves the parallel polarizations as they are.",
     [GU, U], [("forward and inverse combination", GU + ":crosspol_reformat"), ("real and imaginary parts", U + ":crosspol_split_real_imaginary")],
     "all images and polarization counts", "the round trip must hold for every image")
prop("G04", "Every visibility is placed at its own uv pixel or excluded",
     "The footprint corner of each sample is the whole part of its baseline in wavelengths over the pixel size (flipped into the gridded half plane), its offset and bilinear weights come from the remaining fraction, and samples with no weight, outside the baseline range or whose footprint leaves the grid are excluded. Samples are grouped by position so that each usable sample occurs exactly once.",
     [GU], [("positions, exclusion and grouping", GU + ":baseline_grid_locations")],
     "all baselines, frequencies, weights, grid sizes, kernels and selections", "boundary pixels, flags and coinciding samples are unlimited")
prop("G05", "Gridding adds each usable visibility exactly once with its own kernel",
     "The uv plane is the sum over usable samples of visibility times conjugate kernel of that sample's frequency, baseline, polarization and sub-pixel offset at its own position, over the number of samples, averaged with its conjugate mirror unless disabled. Weights, variance and model planes are the same sums with unit visibilities, squared kernels and model visibilities, and the counts per frequency are those of the gridded samples. The visibilities are not modified.",
     ["PyFHD/gridding/visibility_grid.py", GU], [("accumulation over groups of samples", "PyFHD/gridding/visibility_grid.py:visibility_grid")],
     "all visibilities, weights, baselines, kernels and gridding options", "grouping, offsets and options combine without limit", over=("inputs", "configurations"))
prop("G06", "Uniform weighting divides by the number of samples covering each pixel",
     "The visibility count of a pixel is the number of usable sample footprints covering it, averaged with the mirrored plane unless disabled. The uniform filter is the reciprocal of that count where at least one sample contributes and zero elsewhere, scaled so that its mean over the weighted (or non-zero) pixels is one, and it multiplies the image.",
     [GU, "PyFHD/gridding/filters.py"], [("footprint counts", GU + ":visibility_count"), ("filter", "PyFHD/gridding/filters.py:filter_uv_uniform")],
     "all baselines, weights, counts and images", "flags, empty pixels and overlapping footprints are unlimited")
prop("G07", "Dirty images are the Fourier transform of the filtered uv plane",
     "The dirty image is the centred discrete Fourier sum of the uv plane after exactly the requested baseline cut, mask, filter, resizing, padding and pixel scaling, times beam and normalization, and real unless a complex image is requested. The plane passed in is not modified. The renormalization of each polarization is its squared beam at the phase centre over the mean of its filtered weights.",
     [GU, "PyFHD/io/pyfhd_quickview.py"], [("image", GU + ":dirty_image_generate"), ("renormalization", "PyFHD/io/pyfhd_quickview.py:get_image_renormalization")],
     "all uv planes and options", "options combine without limit", over=("inputs", "configurations"))
prop("G08", "Kernels per baseline carry the phases of their own baseline",
     "When the beam is made per baseline, the kernel of every sample is the centred Fourier transform of the power beam of its polarization with the phases of its own baseline, time and frequency relative to the uv pixel it is placed at, lowered by the beam floor when requested. The visibilities are gridded with exactly these kernels, each at its own position; inputs are not modified.",
     [GU, "PyFHD/gridding/visibility_grid.py"], [("kernels per baseline", GU + ":grid_beam_per_baseline"), ("gridding with them", "PyFHD/gridding/visibility_grid.py:visibility_grid")],
     "all kernels, baselines, frequencies and offsets", "no test makes kernels per baseline")
# ---------------------------------------------------------------- beams
prop("B01", "Beam images are those of the requested polarization and frequencies",
     "The beam image is the average over the used frequencies, or the one requested, of the image (squared on request) of the beam of the frequency's bin and of the requested polarization, over its normalization: the sum of its Gaussians scaled to the grid of the image, or the centred Fourier transform of its kernel. A beam file gives the table it contains, read lazily exactly when requested, and a table converted from an IDL file keeps the kernels of every polarization and frequency and is saved beside it.",
     [BU, BS], [("beam image", BU + ":beam_image/gaussian_decomp"), ("beam tables", BS + ":create_psf")],
     "all beams, frequency bins, frequency flags and polarizations", "no test has a beam", over=("inputs", "configurations"))
# ---------------------------------------------------------------- data setup
prop("D01", "Reading a uvfits file keeps every visibility with its baseline, time and frequency",
     "Every visibility and weight of the file is returned at its own polarization, frequency and sample in double precision, whatever the sizes (also of one) of these axes; baseline coordinates, the Julian date (one or two DATE parameters) and both antennas (from the antenna parameters, or decoded from the baseline code of either convention) belong to the same sample, in whatever order the group parameters are stored. Frequencies follow reference value, pixel and resolution, pointing and array location come from the header (else from the instrument), and a file without a needed group parameter is refused.",
     [UVF], [("header", UVF + ":extract_header"), ("parameters of the samples", UVF + ":create_params"), ("visibilities and weights", UVF + ":extract_visibilities")],
     "all random group files", "axis sizes, parameter orders and baseline codes are unlimited; no test reads a file", over=("inputs", "configurations"))
prop("D02", "Tiles and times of the observation match the antenna table, the samples and the flags",
     "The layout has every entry of the antenna table and its header, in table order, or its default where it is missing, and is saved. Baselines refer to tiles by their position in the antenna table counted from one, in whatever way the antennas are numbered; time steps, their offsets and dates match the samples; exactly the requested times at the start and the end (rounded up to whole steps) and exactly the tiles flagged in the metadata, or without any baseline when there are none, are unused, and the counts of unused ones are right.",
     [UVF, OBS], [("antenna table", UVF + ":create_layout"), ("tile numbering and time steps", OBS + ":create_obs")],
     "all antenna tables, numberings, baselines, time cuts and flags", "numberings and orders are unlimited; tests have no observation", over=("inputs", "configurations"))
prop("D03", "The uv plane of the observation follows the configuration and its baselines",
     "The size of a uv pixel follows the requested field of view, else the configured bin size; the plane has the configured size or is the square with a power of two size near twice the longest baseline; the angular pixel size is its reciprocal. The longest and shortest baselines are those of the samples that fit the plane and the limits, and each frequency belongs to the beam bin of its distance from the first. Resizing an observation updates plane, pixel sizes, baseline limit, bins and projection together.",
     [OBS], [("plane and limits", OBS + ":create_obs"), ("resizing", OBS + ":update_obs")],
     "all baselines, frequencies and configurations of the plane", "options and baselines combine without limit", over=("inputs", "configurations"))
prop("D04", "Pointing, zenith and projection of the observation are consistent with each other",
     "Pointing and phase centre are those of the metadata file, or of the visibility file without one; tile names, heights and flags are in antenna order. The zenith lies at the local sidereal time and latitude of the array, the altitude is the complement of the distance of the pointing to it, and the projection is centred on the phase centre with the slant that the zenith distance and parallactic angle require, so that the zenith pixel is where this projection puts the zenith.",
     [OBS], [("metadata", OBS + ":read_metafits"), ("slant orthographic projection", OBS + ":project_slant_orthographic")],
     "all pointings and times", "geometry must hold in every direction of the sky", over=("inputs", "configurations"))
prop("I01", "What is saved can be loaded again unchanged",
     "Loading a saved file gives back every entry under its own name: numbers, texts, paths, missing values, arrays of all types and sizes, ragged lists and nested dictionaries, in double precision; missing entries of arrays come back as NaN or empty texts. Chunked storage changes nothing, an existing file is replaced, and what was saved is not modified.",
     [IO], [("writing", IO + ":save/save_dataset/dict_to_group"), ("reading", IO + ":load/load_dataset/group_to_dict"), ("missing values", IO + ":format_array")],
     "all dictionaries and arrays", "types, emptiness and nesting combine without limit")
prop("I02", "IDL structures become dictionaries with the same values",
     "A record array as read from an IDL save file becomes a dictionary with one entry per field under its lower case name: numbers and arrays as they are, bytes as texts without padding, pointers to arrays of one shape as one array, null pointers as NaN, pointers to different shapes as separate arrays, and nested structures as nested dictionaries.",
     [IO], [("conversion", IO + ":recarray_to_dict")],
     "all record arrays", "structures nest without limit")
prop("M01", "Model visibilities are matched to the data by antennas and time",
     "After matching, every sample of the data has the model visibility of the same pair of antennas at the nearest model time, whatever the order of the samples in either file and whatever antennas or times only the model has. Auto-correlations that the model does not have are zero, and neither the model nor the parameters are modified.",
     [VM], [("matching by antenna pair and time", VM + ":flag_model_visibilities")],
     "all sets and orders of baselines, antennas and times in data and model", "orders, missing antennas and time offsets combine without limit")
prop("M02", "The transferred model is the content of the requested file",
     "Transferring a model gives exactly the visibilities and parameters stored in the uvfits file or the set of save files, one entry per polarization used. A file with another number of frequencies, a missing file or an unknown type stops the run instead of giving other visibilities.",
     [VM], [("reading model files", VM + ":vis_model_transfer")],
     "all models, types of file and numbers of polarizations and frequencies", "tests have no model files", over=("inputs", "configurations"))
prop("H01", "Conversion to HEALPix interpolates every requested pixel exactly",
     "The conversion covers exactly the requested pixels, or those within the radius around the field, that lie inside the image, inside the mask and above the horizon, each once. Converting an image gives at each of them the bilinear interpolation of the image at the position of the pixel centre, as a weighted sum of image pixels that loses no contribution; image and mask are not modified.",
     [HP, GU], [("interpolation weights", HP + ":healpix_cnv_generate"), ("weighted sums", HP + ":healpix_cnv_apply"), ("positions", U + ":radec_to_pixel")],
     "all images, masks, pointings, resolutions and lists of pixels", "positions on the sky and masks are unlimited")
prop("H02", "Phase shifting a uv plane moves the phase centre only",
     "The phases for shifting a uv plane are, at each of its pixels, the unit phase of its own coordinates that moves the original phase centre to the centre of the image, also for planes that are not square. Nothing is shifted when the phase centre has not been changed.",
     [HP], [("phase ramp", HP + ":phase_shift_uv_image")],
     "all plane sizes and offsets of the phase centre", "a test samples one plane")
prop("H03", "Frequency cubes contain each used frequency in its own plane",
     "Splitting into a frequency cube grids, for every group of averaged frequencies, exactly the unflagged frequencies of that group and the requested samples, and gives the plane or its image, with those of its model, weights and variance, each times the number of visibilities in it. Groups without data are zero, the counts of visibilities are those of the gridded samples, and the inputs are not modified.",
     [HP], [("planes per frequency group", HP + ":vis_model_freq_split")],
     "all flags, frequency groupings, selections and polarizations", "flag patterns and groupings combine without limit")
prop("H04", "Beam cubes hold the beam of each frequency and a common mask",
     "A beam cube has one image per polarization and frequency, each made from the beam of the frequency bin that the frequency belongs to, squared on request. The mask is the connected region around the centre where the beams of all polarizations and frequencies exceed the threshold.",
     [HP], [("beam images and mask", HP + ":beam_image_cube")],
     "all beams, frequency bins, thresholds and polarizations", "beams and bins combine without limit")
prop("H05", "Exported HEALPix cubes belong to the requested plane, samples and polarization",
     "The export resizes the observation to the requested field, span, dimension or pixel size, an option that is zero or missing being ignored, and writes one file per cube and polarization. Each file has the residual or dirty, model, weights and variance cubes of exactly its own half of the samples and its own polarization, and the squared beam weighted with the numbers of visibilities of each frequency.",
     ["PyFHD/healpix/export.py"], [("export of cubes", "PyFHD/healpix/export.py:healpix_snapshot_cube_generate")],
     "all options of the plane, splits, flags and polarizations", "options combine without limit", over=("inputs", "configurations"))
prop("R01", "A resumed run gives the same results as a run from the start",
     "The pipeline applies exactly the requested stages in their order, each to the results of the one before, and writes exactly the requested files with their data. A run that resumes from the checkpoint after reading, calibration or gridding gives the same images, cubes and files as one from the start with the same options, and a run whose data is all flagged stops with a failure.",
     [MAIN], [("stages and checkpoints", MAIN + ":main/main_python_only"), ("checkpoint files", IO + ":save/load")],
     "all combinations of stages, checkpoints, polarizations and outputs", "combinations of options and of interrupted and resumed runs are not tested", over=("inputs", "configurations", "histories"))
prop("S01", "Configurations that cannot be run stop before anything is written",
     "A configuration with a missing input, a missing referenced file, or options that exclude or require others stops with a failure status and without any output of the run. Any other configuration is accepted as it was given, apart from the documented adjustments: implied options are switched on, conflicting ones off, negative offsets and missing gains replaced, and paths of files made absolute.",
     [SU], [("validation", SU + ":pyfhd_setup/_check_file_exists"), ("directories", SU + ":pyfhd_logger")],
     "all combinations of validated options and missing files", "combinations of options are not tested", over=("inputs", "configurations"))
prop("S02", "The configuration written for a run reproduces it",
     "Feeding the configuration file written for a run back to the parser is accepted and gives every option the value it had in that run: numbers, switches, choices, texts with any punctuation, paths, and lists of tiles, times and files. This holds for the file written at the start and for the one written at the end of the run.",
     [SU], [("options", SU + ":pyfhd_parser"), ("written configuration", SU + ":write_collated_yaml_config")],
     "all values of all options", "an option or value that is not written or read back is only seen when it is used", over=("inputs", "configurations", "histories"))
# ---------------------------------------------------------------- not applicable
NA = []


def na(id, title, statement, files, mechanism, text, why, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, files=list(files), mechanism=[dict(name=n, where=w) for n, w in mechanism], text=text, why=why, over=list(over), observe=[], reason=reason))


na("Z01", "End to end accuracy against the reference pipeline",
   "For every observation the calibrated visibilities and uv planes agree with those of the original IDL pipeline to within single precision.",
   ["PyFHD/pyfhd.py"], [("whole pipeline", "PyFHD/pyfhd.py:main_python_only")], "all observations", "needs observations and IDL results that are not available",
   "a relation between two programs in different languages on large data; no contract on this code alone expresses it and the reference is not available offline", over=("inputs", "configurations"))
na("Z02", "Fourier transforms and coordinate transformations are accurate",
   "Forward and inverse Fourier transforms and sky-to-pixel transformations invert each other to within rounding for every image and position.",
   [GU, "PyFHD/source_modeling/vis_model_transfer.py"], [("numpy.fft and astropy", GU + ":dirty_image_generate")], "all images and positions", "library numerics",
   "the transforms are library code (numpy.fft, astropy); their contracts are assumed at call sites, and rounding is dropped by the real-number semantics of the verifier")
na("Z03", "Interrupted writes leave no half written results",
   "If the process dies while results are being written, a reader later finds either a complete file or none.",
   ["PyFHD/io/pyfhd_io.py"], [("h5py file handling", "PyFHD/io/pyfhd_io.py:save")], "all crash points during a write", "no test crashes a writer",
   "the code makes no attempt at atomic writes, so the property does not hold by design; crash points of HDF5 are outside pre/postcondition reasoning", over=("crash_points",))
