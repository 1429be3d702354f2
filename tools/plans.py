"""How each property is decided (goes into DESIGN.md)."""
PLANS = {}
PLANS["C01"] = """
*Spec* `MultiTau.tla`: frames arrive one by one, good or missing; level buffers, cascade, per-lag running averages as the operational
side; invariants `Exact` (each row holds exactly the set of good pairs of its lag), `Counted`, `Normalised`, `Lags`, `TrackInv` as the declarative side.
*Bounds* all good/missing histories for (levels, buffers, frames) up to (3,2,8), single missing frames up to (4,2,17); thorough: 2^11 histories, 40 frames.
*Binding* every complete behaviour is replayed into lazy_one_time / multi_tau_auto_corr with random images, labels (gaps, any dtype), partly missing
frames; g2 and lags after each frame are compared with the model's pair sets evaluated on the images.
*Why beyond tests* the tests store arrays for three configurations; here every history of the bounded machine is run.
*Cost* 13 s.
"""
PLANS["C02"] = """
*Spec* `TwoTime.tla`: the two-time machine; each cell (t1,t2) holds the pair of (averaged) frames written there last; invariants: right level,
right times, symmetric completion, nothing outside. *Bounds* all frame numbers up to 18 (quick) for each level/buffer configuration.
*Binding* the cell map is evaluated on random images and compared with two_time_corr / lazy_two_time after every frame, and
one_time_from_two_time with the diagonal averages. *Cost* 10 s.
"""
PLANS["C03"] = """
*Spec* `MultiTau.tla` / `TwoTime.tla` with Interrupt/Resume steps: the cut points are part of the history and the invariants hold for all of them.
*Bounds* all sets of up to MaxSplit cuts. *Binding* the cut schedule is replayed with `internal_state`, in one-time and two-time; result after every frame
equals that of the uninterrupted model; looking at partial results (two_time_state_to_results) in between is part of the schedule. *Cost* 55 s.
"""
PLANS["C04"] = """
*Spec* `CrossCorr.tla`: pairs of region pixels per displacement, exact integer sums; symmetric averaging as rationals. *Bounds* random masks up to 5x6 with up to
three regions, odd and even frames, 1-D and 2-D. *Binding* CrossCorrelator objects called several times, self and cross, both normalisations;
pixels outside the region are random garbage / NaN. *Cost* 5 s.
"""
PLANS["C05"] = """
*Spec* `Xsvs.tla` (level cascade, sets of blocks, missing frames) and `Series.tla` (integration times). Invariant: each level has counted exactly the complete,
disjoint, consecutive good blocks. *Bounds* all missing-frame histories up to 9 frames, several stacks. *Binding* xsvs on random count images; geometric_series and
normalize_bin_edges on ranges. *Cost* 8 s.
"""
PLANS["A01"] = """
*Spec* `Hist.tla`: machine with Fill(points, weights) and Reset; invariants `Conserved`, `PerBin`, `InBounds`. *Bounds* all histories of up to three one-point
calls on a two-bin axis (quick replays a sample of them), 450/6000 random histories in 1 to 4 dimensions. *Binding* values compared after every call, for all integer and float
types, strided / reversed / list / scalar arguments, both fill paths, mixed types per axis. *Cost* 5 s.
"""
PLANS["A02"] = """
*Spec* `BinStat.tla`: booking of points into bins (closed last edge, masked points), then statistics of each bin as exact rationals over the members. *Bounds* random small cases,
1-D to 3-D, uneven edges. `BinCalls.tla`: every life of four (five) steps of an object - calls with its own or another statistic, its statistic replaced or a senseless one refused - with what
each call has to answer and the property that nothing handed out changes; a life is drawn for each case. *Binding* BinnedStatistic1D/2D/DD, RadialBinned, RPhiBinned; binmap, edges, centres. *Cost* 8 s.
"""
PLANS["A03"] = """
*Spec* `Grid3d.tla`: a team of threads takes points in any order into its own grids, which are gathered; invariant `Exact` for every schedule.
*Bounds* all schedules of three points over two (three) threads; 500/6000 random cases, with the points given in one or several sittings (sums going on from the earlier ones). *Binding* grid3d under 1, 2, 3, 4, 8 OpenMP threads; masks of every type, missing
intensities, coordinates that are not a number or infinite, default bounds over scales 1e-6 to 1e5. *Cost* 7 s.
"""
PLANS["G01"] = """
*Spec* `Recip.tla`: images processed in any order (each into its own rows), with exact arithmetic on multiples of 45 degrees in Z[sqrt 2]; invariant: rows of an image depend on its angles only, and the
length of Q is preserved by the frame changes. *Binding* process_to_q in all frames, hkl_to_q, gisaxs; random angles are evaluated with the same formulas in floating point. *Cost* 7 s.
"""
PLANS["R01"] = """
*Spec* `Roi.tla`, `RingEdges.tla`, `RoiLines.tla`: membership of a pixel in rectangle / bar / box / ring / segment / line; invariant: at most one region per pixel.
*Bounds* random requests inside, across and outside small images; all width/spacing list shapes. *Binding* label arrays compared pixel by pixel; refusals compared. *Cost* 5 s.
"""
PLANS["R02"] = """
*Spec* `RoiStats.tla`: exact sums over the pixels of a region. *Binding* mean_intensity, roi_pixel_values, roi_max_counts, extract_label_indices, circular_average, kymograph with non-contiguous labels, any index
order, Fortran layout. *Cost* 5 s.
"""
PLANS["M01"] = """
*Spec* `Mask.tla` (history of images: mask shrinks, never grows), `Outlier.tla` (members of a bin, mean and standard deviation as rationals; squared comparison, no roots).
*Binding* threshold, bad_to_nan_gen, margin, binned_outlier. *Cost* 7 s.
"""
PLANS["U01"] = """
*Spec* `Tree.tla`: map from paths to leaves; operations Set, Get, Del, Iter; invariant: no leaf lies below another, a refused operation changes nothing. *Bounds* all histories of short length over a
small alphabet of paths, random longer ones. *Binding* MD_dict, RCParamDict and verbosedict; the whole container is compared after every step. *Cost* 18 s.
"""
PLANS["U02"] = """
*Spec* `RefSub.tla` (stream machine: the current reference), `Helpers.tla` (exact definitions over integers and rationals). *Bounds* all patterns of references of short streams; random geometry.
*Binding* outputs compared element by element. One known finding (see below). *Cost* 6 s.
"""
PLANS["I01"] = """
*Spec* `Polar.tla`: doubled coordinates, interpolation as rationals, angles as 24ths of a turn; `Bounded`: interpolation stays within its corners; mirror of a line by exact correlation. *Bounds* random geometry
up to 8x8; pixels at whole distances (on the axes for polar images). *Cost* 5 s.
"""
PLANS["F01"] = """
*Spec* `Peaks.tla`: pipeline machine (height filter, number filter, one refinement step per candidate) with invariants `Subset`, `Bound`, `InOrder`, `Inside`; least-squares parabola decided exactly by adding noise patterns
orthogonal to quadratics; integrals as sixths of integers. *Binding* a recording refine function sees exactly the windows of the model. *Cost* 8 s.
"""
PLANS["F02"] = """
*Spec* `Calib.tla`: which rings are found and how they are paired; centre machine: any estimate, one refinement, truth; `RingPick.tla`: every set of circles, the one with the most points taken each round (`Once`). *Binding* powder patterns with the modelled heights drawn as Gaussians; images with rings and every
offset of the model, unequal pixels. *Cost* 6 s.
"""
PLANS["K01"] = """
*Spec* `Elements.tla`: search as a set comprehension over the table of all lines of 100 elements (integers), reflections sorted, histories of energies (`ReadsLast`). *Binding* emission_line_search, XrfElement, XrayLibWrap(_Energy),
PowderStandard; tables of all elements against xraylib and the data file. *Cost* 7 s.
"""
PLANS["S01"] = """
*Spec* `Smooth.tla`: continuation over the borders, window means and slopes as rationals, polynomials and their derivatives, bins, truth tables (invariants `Apart`, `Once`). *Binding* sgolay2d for six number types, logical functions with
separate and aliased outputs, statistics_1D with named and user statistics. *Cost* 7 s.
"""
PLANS["P01"] = """
*Spec* `Cdi.tla`: schedule machine (iterate with the support in force, refine, call back, average) with invariants `Support`, `Calls`, `LastOnes`, `Frozen`; `CdiSupport.tla`: boxes and disks, exact. The model holds no
complex numbers: the harness carries out the steps it prescribes with its own projections. *Binding* iterates through the callback, errors, result, arguments. *Cost* 5 s.
"""
PLANS["P02"] = """
*Spec* `Dpc.tla`: Start, Feed, Stop (keeping the state), Peek; invariant `Raster`; `DpcReduce.tla`: exact sums, `Conserved`. *Bounds* every history of small scans with up to 2 interruptions and a look. *Binding* lazy_dpc,
dpc_runner, reconstruction; shifted and attenuated beams, so that each position has its own known answer. *Cost* 13 s.
"""
PLANS["W01"] = """
*Spec* `Gsas.tla`: writer fills records, reader empties them (`Full`, `RoundTrip`, `Fits`), exponent of the common scale, nearest whole numbers; `Files.tla`: directory machine (`LastWins`, action properties `Refused`,
`OnlyOne`). *Binding* the bytes of each file cell by cell, what the reader returns, the directory after every request, in a scratch directory. Volumes are written by the harness in the documented layouts. One known finding. *Cost* 6 s.
"""
PLANS["X01"] = """
*Spec* `XrfModel.tla`: all sets of excited lines, user parameters and bounds; where each parameter of each peak comes from (`OneArea`, `Acts`, `Only`). *Binding* every state is built with a random element and energy for which these
lines are excited, its lmfit parameters and its spectrum compared; whole spectra, fits, calibration moves. Cross sections and energies from xraylib directly. *Cost* 18 s.
"""
PLANS["X02"] = """
*Spec* `XrfFit.tla`: non-negative least squares exactly, by support sets and Cramer's rule, with optimality as invariants (`Exists`, `Least`, `Exact`). *Binding* nnls_fit, rows and maps over 1 to 3 processes in scratch; element
spectra by an own linear model. *Cost* 14 s.
"""
PLANS["X03"] = """
*Spec* `XrfParams.tla`: machine over peaks, strategies and parameters, driven by plans drawn by the harness. *Binding* the whole parameter dictionary after every history. *Cost* 38 s.
"""
PLANS["L01"] = """
*Spec* `Lines.tla`: rational parts of the profiles (`Symmetric`, `Half`, `Centre`), photon counting one photon at a time against the closed form (`Closed`, `Falls`, `Rise`). *Binding* transcendental factors are put on by the harness;
integrals on a mapped axis. Two known findings. *Cost* 13 s.
"""
PLANS["B01"] = """
*Spec* `Snip.tla`: clipping passes on values times 2^p, windows as exact square roots; invariants `Under`, `Floor`, `Bad`, `Ends`, action property `Falls`. *Binding* spectra are the double exponentials of the model's integers, the pair
energy is chosen so that windows are exact. *Cost* 17 s.
"""
