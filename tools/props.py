"""The one table behind properties.jsonl and MANIFEST.json.

P(id, title, statement, over, quantifier text, why tests cannot, files,
  [(mechanism, where)], [state], [observe_at], technique, note)
"""
PROPS = []


LAYOUT = " How arrays lie in memory makes no difference, and those given are left alone."
ARRAYS = "C01 C02 C04 C05 A02 A03 G01 R01 R02 U02 F01 F02 S01 P02 X02".split()


def P(pid, title, statement, over, text, why, files, mech, state, observe, technique, note):
    statement += LAYOUT if pid in ARRAYS else ""
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, observe=observe, technique=technique, note=note))


CORR = "skbeam/core/correlation.py"
P("C01", "One-time multi-tau correlation is the exact correlation of its frames",
  "For every stack of frames, label array, number of levels and number of buffers, the one-time correlation of each region of interest at each lag is the average over the frame pairs that are that lag apart (frames averaged pairwise once per level), divided by the average past and average future intensity over the same pairs. Lags are those announced next to it, and frames that are not a number take part in no pair.",
  ["inputs", "histories", "configurations"], "every sequence of good and missing frames, every level/buffer configuration, every label array",
  "The tests compare with stored arrays for a few configurations; a wrong pairing at a level boundary, after a missing frame or in a partly filled buffer shows only for particular numbers of frames, levels and buffers.",
  [CORR], [("multi_tau_auto_corr / lazy_one_time: level buffers and cascade", CORR), ("_one_time_process normalisation", CORR)],
  [dict(name="internal state", meaning="buffers, counters and accumulators per level", where=CORR)],
  ["g2 and lag steps returned by multi_tau_auto_corr and by lazy_one_time after each frame"],
  "TLA+ model of the multi-tau cascade explored by TLC; its behaviours replayed into the code",
  "Exhaustive over frame histories (good/missing) for small level/buffer/frame numbers; each behaviour is replayed with random integer and real images. Trusts TLC and the harness arithmetic.")
P("C02", "Two-time correlation holds each pair of times in its own cell",
  "For every stack of frames, label array and level/buffer configuration, entry (t1, t2) of the two-time correlation of a region is the correlation of the frames at those two times normalised by their mean intensities in the region, the matrix is symmetric, and cells outside the computed lags are zero. The one-time correlation derived from it is the average along each diagonal.",
  ["inputs", "histories", "configurations"], "every number of frames, level/buffer configuration and label array",
  "The tests check shapes and one plateau value; a cell written at the wrong time or level is invisible to them.",
  [CORR], [("two_time_corr / lazy_two_time", CORR), ("one_time_from_two_time", CORR)],
  [dict(name="two-time state", meaning="buffers, time indices and result cube", where=CORR)],
  ["two_time_corr, lazy_two_time, one_time_from_two_time results"],
  "TLA+ model of the two-time machine explored by TLC; results replayed into the code",
  "Exhaustive over the frame numbers in range for each level/buffer configuration; random images per behaviour. Trusts TLC and the harness arithmetic.")
P("C03", "Correlation can be stopped and resumed anywhere without changing the result",
  "Splitting a series of frames at any points and feeding the parts one after the other with the returned internal state gives, for one-time and two-time correlation, the result of feeding the whole series at once. Every partial result equals the result for the frames seen so far.",
  ["histories", "inputs"], "every way of cutting a series of frames into consecutive parts, every configuration",
  "The tests cut one series in one place and compare the end; state lost at other cut points (inside a level, before a buffer is full) goes unseen.",
  [CORR], [("internal_state argument and yield", CORR)],
  [dict(name="internal state", meaning="namedtuple handed from one call to the next", where=CORR)],
  ["results of lazy_one_time / lazy_two_time with internal_state"],
  "TLA+ model with Interrupt/Resume steps explored by TLC; cut schedules replayed into the code",
  "All cut schedules of the small models; the whole result is compared after every frame.")
P("C04", "Spatial correlation is the masked, normalised correlation of the regions",
  "For every mask of regions and pair of images, the cross-correlator returns for each region the sum over pairs of its pixels at each displacement divided by the number of such pairs (and by the mean intensities in the chosen normalisation), with zero displacement in the centre of the region's frame; the peak lies where the second image was moved to. It does not depend on pixels outside the region nor on images processed before.",
  ["inputs", "histories", "configurations"], "every mask, image pair, normalisation and sequence of calls",
  "The tests compare a few sums for one geometry; orientation, off-region leakage and odd/even sized regions are not covered.",
  [CORR], [("CrossCorrelator", CORR), ("_centered / submask handling", CORR)], [],
  ["CrossCorrelator.__call__ result, centers, shapes"],
  "TLA+ specification of masked correlation evaluated by TLC; cases replayed into the code",
  "Exact integer arithmetic in the model; random small masks and images, several calls per object.")
P("C05", "Speckle visibility statistics count every integration block once",
  "For every set of image stacks, label array and maximum count, the photon statistics at each integration time are the average over the stacks of the average over the disjoint consecutive blocks of that many frames of the distribution of summed counts in the region; blocks containing a missing frame do not count. The integration times are the powers of two up to the number of images and the bin edges belong to them. Summed counts may exceed what the type of the frames holds.",
  ["inputs", "histories", "configurations"], "every sequence of good and missing frames, number of stacks and frames, label array",
  "The tests use one or two stacks with few frames; a block counted twice, skipped or mixed between levels or stacks shows only for particular frame numbers.",
  ["skbeam/core/speckle.py", "skbeam/core/utils.py"], [("xsvs / _process", "skbeam/core/speckle.py"), ("geometric_series", "skbeam/core/utils.py")],
  [dict(name="level buffers", meaning="frame sums per integration time", where="skbeam/core/speckle.py")],
  ["xsvs result, normalize_bin_edges, geometric_series"],
  "TLA+ model of the level cascade explored by TLC; behaviours replayed into the code",
  "Exhaustive over missing-frame histories of the small models; timebin_num = 2 only.")
HIST = "src/_accumulators/histogram/*.pyx / skbeam/core/accumulators"
P("A01", "Histogram accumulation counts every event in its bin, over any history",
  "After any sequence of fills and resets, each bin of an N-dimensional histogram holds the sum of the weights of the events filled since the last reset whose coordinates lie in it (lower edge included, upper edge excluded); events outside the range or not a number count nowhere. Results do not depend on how events are split over calls, on number types or on memory layout, and edges and centres describe the bins.",
  ["inputs", "histories"], "every sequence of fill and reset calls, coordinates, weights, types and array layouts",
  "The tests fill random events and compare with numpy; boundary coordinates, mixed types, strided arrays and call histories are not enumerated.",
  ["skbeam/core/accumulators/histogram.pyx"], [("Histogram.fill / reset", "skbeam/core/accumulators/histogram.pyx")],
  [dict(name="values", meaning="bin contents", where="skbeam/core/accumulators/histogram.pyx")],
  ["Histogram.values, edges, centers after each call"],
  "TLA+ accumulator machine run by TLC; histories replayed into the code",
  "All histories of up to three one-event calls on a two-bin axis, plus random longer histories in 1 to 4 dimensions.")
P("A02", "Binned statistics are the statistic of exactly the points in each bin",
  "For 1-D, 2-D, N-D, radial and radius/angle binning, every statistic (mean, sum, count, median, standard deviation or a user function) of each bin is that of exactly the values whose position lies in the bin and whose mask is set, with the upper edge of the last bin included. The bin assignment is fixed by the positions, so an object may be called any number of times with new values and always answers as a fresh one. Values may be of any number type, up to its limits.",
  ["inputs", "histories", "configurations"], "every set of positions, values, masks, bins, ranges and statistics, every sequence of calls",
  "The tests compare with scipy on random points of one or two shapes; masks, edges, unequal bins and repeated calls are barely touched.",
  ["skbeam/core/accumulators/binned_statistic.py"], [("BinnedStatisticDD.__init__ / __call__", "skbeam/core/accumulators/binned_statistic.py")],
  [dict(name="bin numbers", meaning="bin of every point, fixed at construction", where="skbeam/core/accumulators/binned_statistic.py")],
  ["result of calls, bin_edges, bin_centers"],
  "TLA+ booking machine run by TLC; cases replayed into the code",
  "Random small cases on exact and awkward grids; each object is called several times.")
P("A03", "Gridding conserves points and does not depend on the thread schedule",
  "Gridding scattered points onto a regular grid gives in each voxel the number, the mean and the standard error of the points whose coordinates lie in it (lower bound included, upper excluded), leaving out masked pixels and intensities that are not a number, whatever the number of threads and of calls the points are spread over when sums go on from those of an earlier call. With default bounds every point is inside the grid.",
  ["schedules", "inputs", "configurations"], "every distribution of the points over threads, every set of points, masks and bounds",
  "The tests grid one regular mesh with one thread count; schedules, boundary points, masks and default bounds are not covered.",
  ["src/ctrans.c", "skbeam/core/utils.py"], [("c_grid3d thread-local grids and gather", "src/ctrans.c"), ("grid3d bounds and mask handling", "skbeam/core/utils.py")],
  [dict(name="thread grids", meaning="one accumulator grid per thread", where="src/ctrans.c")],
  ["mean, occupancy, std_err and bounds returned by grid3d under 1 to 8 threads"],
  "TLA+ model of the thread team: all schedules in TLC; cases replayed with several thread counts",
  "All schedules of three points over two or three threads in the model; the code runs under 1, 2, 3, 4 and 8 OpenMP threads.")
P("G01", "Detector pixels convert to reciprocal space exactly, image by image",
  "For every set of six-circle angles, detector geometry, wavelength, orientation matrix and frame, each row of the result is the momentum transfer of one pixel of one image (images in order, columns varying fastest), depends on that image's angles only, and has the length elastic scattering demands in the frames that are rotations of each other. Grazing-incidence angles and wave-vector components follow their geometry in the same way, as does the momentum transfer of the pixels of a calibrated detector, and requests without six angles per image or with an unknown frame are refused.",
  ["inputs", "schedules", "configurations"], "every combination of angles, geometry, frame and number of images, every order of processing the images",
  "The tests check two pixels of one setting; pixel order, non-square detectors, several images and other frames are not covered.",
  ["skbeam/core/recip.py", "src/ctrans.c"], [("processImages, calcDeltaGamma, calcQTheta, calcQPhiFromQTheta, calcHKLFromQPhi", "src/ctrans.c"), ("process_to_q, gisaxs, calibrated_pixels_to_q", "skbeam/core/recip.py")], [],
  ["process_to_q, hkl_to_q, gisaxs results"],
  "TLA+ model with exact arithmetic on 45-degree angles, all image orders, run by TLC; cases replayed into the code",
  "Exact cases on multiples of 45 degrees plus random angles against the same formulas in floating point.")
P("R01", "Every pixel gets the label of the region of interest it lies in",
  "Rectangles, bars, boxes, rings, segmented rings and lines label exactly the pixels inside the image that lie in the requested region, with labels in the order of the request, background zero, and no pixel in two regions; segment labels are distinct for every (ring, segment) pair for any offset or partial set of angles. Overlapping or impossible requests are refused, and ring radii follow the widths and spacings asked for. Edges and coordinates may be of any number type.",
  ["inputs", "configurations"], "every region, centre, image shape, segment list and offset, inside, across or outside the image",
  "The tests draw a handful of regions that lie inside the image; clipping, offsets, partial segments and coordinates given by the caller are not covered.",
  ["skbeam/core/roi.py"], [("rectangles, bar, box, rings, ring_edges, segmented_rings, lines", "skbeam/core/roi.py")], [],
  ["label arrays returned"],
  "TLA+ canvas machine in exact integer geometry run by TLC; cases replayed into the code",
  "Random small canvases; pixels exactly on a segment ray may take either side.")
P("R02", "Quantities of a region use exactly the pixels labelled with it",
  "Mean intensities, pixel lists, kymographs, the brightest count, pixel indices and circular averages are computed from exactly the pixels of the region (or ring) asked for, per image and in raster order, for any label values, with or without background. Binning positions conserves counts and sums inside the range. Images may be of any number type, up to its limits.",
  ["inputs"], "every label array, image stack, centre, pixel size, mask, bins and choice of regions",
  "The tests use constant images or one geometry; permuted pixels, label gaps and mask or edge mistakes are not visible.",
  ["skbeam/core/roi.py", "skbeam/core/utils.py"], [("mean_intensity, roi_pixel_values, kymograph, roi_max_counts, extract_label_indices, circular_average", "skbeam/core/roi.py"), ("bin_1D, radial_grid", "skbeam/core/utils.py")], [],
  ["values returned"],
  "TLA+ sweep machine run by TLC; cases replayed into the code",
  "Random small image stacks and label arrays in exact integer arithmetic.")
P("M01", "Masks reject exactly the pixels and frames they are asked to",
  "A threshold mask after any number of frames excludes exactly the pixels that reached the threshold in any of them (and those already excluded); frames listed as bad become not-a-number and all others pass unchanged, in order and one at a time; a margin excludes exactly the pixels closer than the given number to a side; the outlier mask excludes exactly the pixels farther than alpha standard deviations from the mean of their own bin, and never brings back a masked pixel.",
  ["histories", "inputs"], "every sequence of frames, threshold, list of bad frames, margin, binning and starting mask",
  "The tests look at the last mask of one stack; intermediate masks, generators, empty margins and bin edges are not covered.",
  ["skbeam/core/mask.py"], [("threshold, bad_to_nan_gen, margin, binned_outlier", "skbeam/core/mask.py")],
  [dict(name="mask", meaning="pixels still trusted", where="skbeam/core/mask.py")],
  ["masks and frames yielded or returned"],
  "TLA+ stream machine explored by TLC; all histories of small streams replayed, outlier cases in exact arithmetic",
  "Exhaustive over small streams; random outlier cases with integer values (equality at the limit may go either way).")
UT = "skbeam/core/utils.py"
P("U01", "Metadata containers keep every leaf under its own path",
  "A dotted-path dictionary behaves, over any sequence of assignments, reads, deletions and listings, as a tree: a value assigned under a path is what reading that path gives until it is reassigned or deleted; reading or refusing something changes nothing; leaves and branches do not turn into each other; length and iteration list exactly the leaves, each once; the plain-dictionary form holds the same tree. The resource-parameter dictionary and the verbose dictionary keep the same contract for their access forms (attribute, item, dotted).",
  ["histories", "inputs"], "every sequence of assignments, reads, deletions and listings over every set of paths and values",
  "The tests assign a fixed set of paths and read them back once; lost leaves after failed reads, values that look like (value, units) pairs and paths through leaves are not covered.",
  [UT], [("MD_dict, RCParamDict, verbosedict", UT)],
  [dict(name="tree", meaning="leaves and branches by path", where=UT)],
  ["items, iteration, length, deletion, exceptions after every operation"],
  "TLA+ tree machine explored by TLC; all short histories and random longer ones replayed into the code",
  "All histories of the small models up to the bound and random walks beyond it; the whole container is compared after every operation.")
P("U02", "Coordinate, binning and background helpers compute exactly what they name",
  "Background subtraction takes from every frame the latest reference frame before it (also where the difference is negative) and yields no reference frame; bin edges are evenly spaced over the range for every three of (start, stop, number, step) and other requests are refused; one-dimensional binning counts every point inside the range exactly once and sums its values; bin centres are the midpoints; radial and angular grids give each pixel its own distance and direction; relative pixel coordinates belong to the intensity next to them; conversions between q, d and scattering angle are inverse to each other.",
  ["inputs", "histories"], "every stream of frames with references, every range, step, image shape, centre and pixel size, every wavelength",
  "The tests use one stream and a few symmetric geometries; order of references, ends of ranges and non-square images are not covered.",
  [UT], [("subtract_reference_images", UT), ("bin_edges, bin_1D, bin_edges_to_centers, radial_grid, angle_grid, bin_grid, img_to_relative_xyi, q/d/twotheta conversions, pairwise", UT)],
  [dict(name="current reference", meaning="last reference frame seen", where=UT)],
  ["frames and arrays returned"],
  "TLA+ stream machine and exact helper definitions run by TLC; cases replayed into the code",
  "All reference patterns of short streams; random cases in exact integer or rational arithmetic for the rest. One known finding (coordinates of non-square images).")
P("I01", "Images rebuilt from averages put each value at its radius and angle",
  "An image constructed from a radial average has at every pixel the average linearly interpolated at the pixel's distance from the centre, with the requested values outside the radii; one constructed from a polar average has the value interpolated in radius and, going round the full circle, in angle, and not-a-number outside the radii or where the polar mask is not set. Default shapes just hold the largest radius with the centre in the middle. The ring-centre estimate of an image (of any number type) with a clear mirror in both directions is that mirror. Arguments are left unchanged.",
  ["inputs", "configurations"], "every radii, angle list, values, mask, centre, pixel size and image shape",
  "The tests rebuild one radially symmetric square image; swapped axes, unequal pixel sizes, angles that wrap around and masks are not covered.",
  ["skbeam/core/image.py"], [("construct_circ_avg_image, construct_rphi_avg_image, find_ring_center_acorr_1D", "skbeam/core/image.py")], [],
  ["images and centres returned"],
  "TLA+ exact-geometry definitions run by TLC (pixels at whole distances, on-axis angles); cases replayed into the code",
  "Compared at the pixels whose distance (and angle) is exact; random geometries with unequal pixel sizes.")
FT, SP = "skbeam/core/feature.py", "skbeam/core/spectroscopy.py"
P("F01", "Peaks are filtered, refined and integrated from exactly their own samples",
  "From any list of candidates, the height filter keeps (in order) exactly those whose window, cut at the ends of the data, spans more than the threshold; the number filter keeps the largest, in descending order; refinement calls the refine function with exactly the window of each candidate and leaves out exactly those it rejects, returning arrays also when none is left. Quadratic refinement gives the least-squares parabola's centre and height and rejects a fit worse than its threshold; the largest peak of a Gaussian is found from its window only. Integration of a region goes from the first sample not below its lower bound to the first not below its upper bound, is exact for parabolas over any spacing and for falling data, sums over regions, and refuses senseless bounds; histogram integration goes by bin centres; spectra are aligned on their peak and scaled to the width of the first. Channels and counts may be of any number type.",
  ["inputs", "configurations"], "every curve, candidate list, window (also reaching over the ends), threshold, region list and spacing",
  "The tests use peaks well inside the data and unit spacing with constant values; truncated windows, rejected peaks, uneven samples and empty results are not covered.",
  [FT, SP, "skbeam/core/fitting/funcs.py"], [("peak_refinement, refine_*, filter_*", FT), ("find_largest_peak, align_and_scale, integrate_ROI, integrate_ROI_spectrum", SP), ("fit_quad_to_peak", "skbeam/core/fitting/funcs.py")],
  [dict(name="candidates", meaning="what is left after each stage of the pipeline", where=FT)],
  ["candidates after every stage, windows given to the refine function, integrals"],
  "TLA+ pipeline machine run by TLC, exact rational fits and integrals; cases replayed into the code",
  "Random curves of up to 14 samples in exact integer arithmetic; Gaussians in floating point.")
P("F02", "Calibration finds the distance and the centre of the rings",
  "The blind distance estimate is the mean, with its standard deviation, of ring radius over tan(2 theta) over the first rings found, the k-th ring that passes the height threshold paired with the k-th reflection of the standard and at most the requested number of them. Refining a centre estimate that is off by a few pixels in any direction leads to the centre of the rings (within a pixel), for any pixel sizes, image shape, brightness and number of sectors, and a refined centre stays. Without an estimate, the centre (column, row) and the radii of complete concentric rings in a clear image are found within a pixel or so, from the largest ring on, and each ring is painted with its number.",
  ["inputs", "configurations", "histories"], "every list of ring heights and radii, standard, wavelength, window, threshold and limit; every offset of the estimate in rows and columns",
  "The tests use one perfect pattern and one diagonal offset, where rows and columns cannot be told apart.",
  ["skbeam/core/calibration.py", "skbeam/core/roi.py"], [("estimate_d_blind, refine_center", "skbeam/core/calibration.py"), ("auto_find_center_rings", "skbeam/core/roi.py")], [],
  ["distance, spread, refined centre, rings found"],
  "TLA+ model of ring selection and pairing run by TLC; offsets enumerated and replayed into the code",
  "Rings drawn as Gaussians; heights close to the threshold are not judged; centre within 0.7 of the larger pixel side.")
P("K01", "Element and standard tables answer for the element, line and energy asked",
  "An element is the same by atomic number, symbol or name in any case, carries the values of the data file, and compares by number; each line and shell quantity is that of the physics library for this element, line and the incident energy set last, zero where there is none; the line search returns exactly the elements and lines within the range that the incident energy excites, among the elements asked for; a powder standard lists its reflections by increasing q, each with its own spacing and indices, and converts them to any wavelength. Unknown elements and lines are refused.",
  ["inputs", "histories"], "every element, key spelling, line, shell, energy history, search window and list of spacings",
  "The tests smoke-test most elements and search one energy; a swapped line, a stale energy or a lost line stays unseen.",
  ["skbeam/core/constants/basic.py", "skbeam/core/constants/xrf.py", "skbeam/core/constants/xrs.py"], [("BasicElement", "skbeam/core/constants/basic.py"), ("XrayLibWrap, XrayLibWrap_Energy, XrfElement, emission_line_search", "skbeam/core/constants/xrf.py"), ("PowderStandard", "skbeam/core/constants/xrs.py")],
  [dict(name="incident energy", meaning="energy of a cross-section table", where="skbeam/core/constants/xrf.py")],
  ["attributes, mapping contents, search results"],
  "TLA+ model of tables, search and energy histories run by TLC; replayed into the code for all elements",
  "All elements and lines of the tables; random searches; trusts xraylib for the numbers.")
P("S01", "Smoothing, image logic and binned statistics hold up to the borders",
  "Savitzky-Golay smoothing gives every pixel the value (or the slope along rows or columns) of the polynomial fitted to its window, reproduces polynomial images of its order away from the borders, continues the image over the borders as defined, whatever the number type, and refuses even windows and orders too high. Logical nand, nor and subtraction follow their truth tables element by element, also when written into a given array or into one of the arguments. One-dimensional statistics are those of exactly the points in each equal bin, the end included.",
  ["inputs", "configurations"], "every image, window, order, derivative, number type, pair of arrays, output array and set of points",
  "The tests smooth one gradient and compare constant arrays; borders, slopes, unsigned images and aliased outputs are not covered.",
  ["skbeam/core/smoothing.py", "skbeam/core/arithmetic.py", "skbeam/core/stats.py"], [("sgolay2d", "skbeam/core/smoothing.py"), ("logical_nand, logical_nor, logical_sub", "skbeam/core/arithmetic.py"), ("statistics_1D", "skbeam/core/stats.py")], [],
  ["arrays returned and written"],
  "TLA+ definitions with exact integer windows and borders run by TLC; cases replayed into the code",
  "Orders 0 and 1 exact over the whole image, orders up to 3 in the interior; small random images.")
P("P01", "Phase retrieval follows the difference map and its schedule to the end",
  "Every iteration of the reconstruction is one step of the difference map with the support in force: measured amplitudes replace computed ones where there is a measurement, phases are kept, the pattern is centred for even and odd sizes, and the object is real when asked. The support is refined exactly at the scheduled iterations, from the iterate reached, to the pixels above a fraction of the smoothed maximum; the callback comes after every cb_step iterations with the state reached; errors are recorded for every iteration; the result is the mean of the iterates after start_avg, or the last one. An object that fits pattern and support stays. Arguments are left alone. Box, disk and Gaussian are centred on the array for any shape and radius.",
  ["inputs", "schedules", "histories"], "every pattern, start, support, shape in 1 to 3 dimensions, feedback, schedule of refinement, averaging and callbacks",
  "The tests only compare the shapes of two reconstructions; what an iteration does, when the support changes and what is averaged is not tested.",
  ["skbeam/core/cdi.py"], [("cdi_recon", "skbeam/core/cdi.py"), ("pi_modulus, find_support, cal_diff_error, generate_random_phase_field", "skbeam/core/cdi.py"), ("_dist, gauss, generate_box_support, generate_disk_support", "skbeam/core/cdi.py")],
  [dict(name="iterate", meaning="sample object", where="cdi_recon: sample_obj"), dict(name="support", meaning="pixels the object may occupy", where="cdi_recon: outside_sup_index"), dict(name="average", meaning="sum and number of iterates averaged", where="cdi_recon: obj_avg, avg_i")],
  ["iterates seen by the callback, errors, result"],
  "TLA+ schedule machine of the difference map run by TLC; every schedule carried out step by step and compared with the code",
  "Runs of up to 16 iterations on up to 90 pixels; runs too sensitive to rounding are not judged.")
P("P02", "Differential phase contrast books every pattern at its place, in any sitting",
  "Each pattern of a raster scan gives amplitude and phase gradients at its own scan position, in scan order; a scan may be given up after any pattern and taken up again with the state reached without a difference, and a phase image of what is there may be made at any time without changing it. A pattern that is the reference, attenuated and shifted, has that attenuation and a gradient of 2 pi shift over size in the direction of the shift. Pixels outside the region of interest and bad pixels count nothing. The phase image is the one whose gradients fit best, in a frame of zeros if asked for, with x gradients negated and gradients scaled exactly if asked for; the amplitude is the mean of both directions. Impossible weights and pixels that are not square are refused.",
  ["inputs", "histories", "configurations"], "every scan size, history of interruptions and partial reconstructions, region, bad pixels, shift, attenuation, padding, weighting, negation and scale",
  "The tests use one 2 by 2 scan of identical patterns, in which position, direction and order cannot be told apart.",
  ["skbeam/core/dpc.py"], [("lazy_dpc, dpc_runner", "skbeam/core/dpc.py"), ("reconstruct_phase_from_partial_info, recon", "skbeam/core/dpc.py"), ("image_reduction, dpc_fit, _rss_factory", "skbeam/core/dpc.py")],
  [dict(name="scan state", meaning="maps of amplitude and gradient, number of patterns booked", where="dpc_internal_state")],
  ["state after every pattern, phase, amplitude, sums"],
  "TLA+ machine of interrupted scans run by TLC; all its histories replayed into lazy_dpc; exact sums from TLC",
  "Scans of up to 6 patterns (9 thorough) with up to 2 interruptions; shifts of up to 2 pixels of a Gaussian beam.")
P("W01", "What is written to files is read back, and refused requests touch no file",
  "A powder pattern written to a GSAS file of any kind and length is read back with its angles, intensities and weights, each channel in its own cell, all intensities and errors (and nothing else) divided by the same power of ten when they do not fit; readers take blank cells for zero and return exactly the announced number of points. Columns saved to chi, dat and xye files are read back to the last digit under a header that tells what they are. Masks in fit2d files, raw binary volumes of any type with a header, AmiraMesh volumes with their header and netCDF volumes come back as stored. A save changes only the file it names; one that is refused (lengths that differ, errors missing, unknown kinds, a missing directory) changes nothing.",
  ["inputs", "histories", "configurations"], "every pattern, length, magnitude, mode, mask shape, volume, number type, byte order and sequence of saves and refused saves",
  "The tests write one pattern whose length is a multiple of the record size with values below the scaling limit; volumes are not tested at all.",
  ["skbeam/io"], [("gsas_writer, save_output, _create_file_path", "skbeam/io/save_powder_output.py"), ("gsas_reader", "skbeam/io/gsas_file_reader.py"), ("fit2d_save, read_fit2d_msk", "skbeam/io/fit2d.py"), ("read_binary", "skbeam/io/binary.py"), ("load_amiramesh", "skbeam/io/avizo_io.py"), ("load_netCDF", "skbeam/io/net_cdf_io.py")],
  [dict(name="directory", meaning="files and their contents", where="skbeam/io/save_powder_output.py")],
  ["bytes of the files, arrays read back"],
  "TLA+ machines of the record layout (write then read) and of a directory run by TLC; replayed into writers and readers",
  "Patterns of up to 2000 channels up to 2e9 counts, negative values among them; scripts of up to 6 requests on 7 files; volumes of up to 130 along an edge; one known finding (netCDF scale factor).")
XM = "skbeam/core/fitting/xrf_model.py"
P("X01", "The fluorescence model is one peak per excited line, tied as documented",
  "For every element, series, beam energy and set of parameters, the model of an element is exactly one Gaussian per line of the series that the beam excites (none if it does not excite the first), at the line's energy plus the user's shift, as wide as the calibrated detector at that energy plus the user's change, its area the area of the first line times the ratio of cross sections times the user's ratio; Ka2 goes with Ka1, and only what the user lets move may move in a fit, within his bounds. User and pileup peaks sit where they are said to be. All peaks share calibration and width parameters with the elastic and Compton peaks, and the spectrum is the sum of them all, left alone by elements that are not excited. A fit of a spectrum of the model returns its areas; results go back to the parameters. Parameters given are not changed.",
  ["inputs", "configurations", "histories"], "every element and series, beam energy, calibration, set of user parameters and bounds, list of elements, pileup and user peaks",
  "The tests fit one synthetic spectrum of a few elements with standard parameters, in which a lost line, a wrong tie or a bound that is ignored cannot be seen.",
  [XM, "skbeam/core/fitting/models.py", "skbeam/core/fitting/lineshapes.py"], [("ModelSpectrum: setup_element_model, assemble_models, model_fit", XM), ("sum_area, get_line_energy", XM), ("elastic, compton", "skbeam/core/fitting/lineshapes.py"), ("ElasticModel, ComptonModel, set_default", "skbeam/core/fitting/models.py")],
  [dict(name="model", meaning="components and parameter hints", where=XM)],
  ["component names, parameter values, vary flags, bounds, evaluated spectra, fit results"],
  "TLA+ model of lines, sources and ties enumerated by TLC; each case built, evaluated and compared in the code",
  "All combinations of excited lines, user parameters and bounds of the model, each with random elements and energies; numbers from xraylib and closed forms.")
P("X02", "A spectrum is split into non-negative amounts of known profiles, pixel by pixel",
  "The amounts found for a spectrum are the non-negative ones with the least weighted sum of squares, whatever the profiles and weights; profiles that make up a spectrum exactly are found exactly. The matrix of profiles has one column per excited element of the list, then Compton and elastic, each with its own area. Fitting a spectrum subtracts the background once, gives each profile with its amount and area, and all of them add up to the best fit. Maps give every pixel its own answer at its own place for any number of processes, binning of rows or shape, with the background and the share explained. Trimming keeps exactly the points within the bounds, ends included.",
  ["inputs", "schedules", "configurations"], "every matrix of profiles, spectrum, weights, map shape, number of processes, energy window and list of elements",
  "The tests fit a single spectrum and compare the total; pixels exchanged between processes, wrong areas and lost columns are not seen.",
  [XM], [("nnls_fit, fit_per_line_nnls, fit_pixel_multiprocess_nnls, calculate_area", XM), ("construct_linear_model, linear_spectrum_fitting, nnls weights", XM), ("trim, define_range, compute_escape_peak, get_relative_cs_ratio", XM)], [],
  ["amounts, residuals, maps, areas, profiles"],
  "TLA+ exact non-negative least squares (Cramer's rule, optimality invariants) run by TLC; replayed into the code",
  "Up to 3 profiles of up to 6 channels in exact arithmetic; maps of up to 12 pixels, 1 to 3 processes; spectra of elements by an own reconstruction.")
P("X03", "Fit parameters follow their history: peaks added, strategies set, values changed",
  "After every sequence of adding peaks and parameters, editing the list of elements, setting and registering strategies, editing values and taking over fit results, the parameters are exactly those of the peaks listed, one set per excited line, named as the model names them; the bounds of each are those of the strategy last set for it, else as asked for when it was added, else fixed; values are the default until changed. Only excited lines appear, series by series. Controllers, strategies, default parameters and dictionaries given do not share anything; a strategy is not replaced unless asked for; unknown ones are refused.",
  ["histories", "inputs"], "every sequence of up to a dozen operations on lists of K, L, M, user and pileup peaks at any beam energy",
  "The tests make one controller and compare a handful of keys; an edit that leaks into another controller or is lost after a later step shows only in particular sequences.",
  [XM, "skbeam/core/fitting/base/parameter_data.py"], [("ParamController", XM), ("get_activated_lines, _set_parameter_hint, update_parameter_dict, set_parameter_bound, register_strategy, extract_strategy", XM), ("get_para and strategies", "skbeam/core/fitting/base/parameter_data.py")],
  [dict(name="parameters", meaning="value, bounds and bound type per name", where="ParamController.params"), dict(name="strategies", meaning="strategies registered by name", where=XM)],
  ["params, element_list and element_linenames after every step"],
  "TLA+ machine of the controller run by TLC on histories; replayed step by step into the code",
  "Histories of up to 10 steps on up to 4 peaks drawn anew for every seed.")
P("L01", "Peak profiles and photon statistics have their shape, centre and area",
  "For every area, centre, width and position, the Gaussian, Lorentzian, squared Lorentzian, Voigt (a true convolution, its Lorentzian as wide as its Gaussian unless said otherwise), pseudo-Voigt (fraction is the Lorentzian's), step and tail have the values of their definitions, move with the centre, grow with the area, and integrate to the area where documented. Poisson and negative binomial give each count its probability, growing count by count by the ratio of the distribution, sum to one and have their mean and variance; the gamma distribution is the density of intensities with that mean and number of modes. The model of a decaying correlation is the contrast times the squared decay on its baseline. Whole (of any type) and real numbers, arrays of positions of any shape give the same; positions are left alone.",
  ["inputs"], "every position, area, centre, width, fraction, gamma, mean, number of modes and count",
  "The tests compare with one stored array per profile; wrong scaling with area or width, mixed up fractions and larger or fractional means stay unseen.",
  ["skbeam/core/fitting/lineshapes.py"], [("gaussian, lorentzian, lorentzian2, voigt, pvoigt, gausssian_step, gaussian_tail", "skbeam/core/fitting/lineshapes.py"), ("poisson_dist, nbinom_dist, gamma_dist", "skbeam/core/fitting/lineshapes.py"), ("auto_corr_scat_factor", "skbeam/core/correlation.py")], [],
  ["values returned"],
  "TLA+ exact rational structure of profiles and count-by-count distributions run by TLC; replayed into the code",
  "Random rational parameters; transcendental factors by the Python library, Voigt by quadrature; two known findings (areas of lorentzian2 and of the tail).")
P("B01", "The background is what clipping with shrinking windows leaves of a spectrum",
  "For every spectrum, calibration and setting, the background is found on the double logarithmic scale by lowering every channel to the mean of the two channels one window away where that is less: the given number of times with the full window, then again and again while the window shrinks by the factor, as long as the largest is not below the threshold. The window of a channel is the width times the detector's resolution at its energy; windows end at xmin and xmax; a binned spectrum has its energies per bin and half the window. Smoothing comes first and, like the number of passes, has its documented defaults. The background never lies above the smoothed spectrum or below its least channel, has its length, and is zero where there is no number. The spectrum is left alone.",
  ["inputs", "configurations", "histories"], "every spectrum, calibration (also quadratic), width, factor, threshold, number of passes, binning, smoothing and bounds",
  "The tests compare one spectrum within a loose tolerance; a wrong window, end or number of passes changes it too little.",
  ["skbeam/core/fitting/background.py"], [("snip_method", "skbeam/core/fitting/background.py")],
  [dict(name="background", meaning="spectrum clipped so far", where="snip_method: background"), dict(name="window", meaning="present width per channel", where="snip_method: current_width")],
  ["the background returned"],
  "TLA+ machine of the clipping passes, exact integers, run by TLC; its results replayed into the code",
  "Spectra of up to 24 channels exact (windows that end on a channel are not judged); usual spectra of up to 4500 channels by the rule in floating point.")
