"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": ["source/" + f if not f.startswith(("include", "doc")) else f
                                    for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})


prop("C01", "Every slice is reconstructed as if it were alone",
     """For every built-in algorithm and its options, the image reconstructed for a slice is the same
     whatever the number of cores, the chunk size, the number and content of the other slices of the
     stack and their rotation axes, and whether the stack is given as projections or as sinograms.
     Repeating a reconstruction gives the same result.""",
     ["inputs", "configurations", "schedules"],
     """all stacks, algorithms, options, per-slice rotation axes, core counts and chunk sizes
     (including single-slice chunks)""",
     """The tests reconstruct one fixed phantom with the default division and compare with stored
     arrays; no test varies cores, chunks, axes per slice or neighbours.""",
     ["tomopy/recon/algorithm.py", "tomopy/util/mproc.py", "tomopy/util/extern/recon.py",
      "libtomo/recon/art.c", "libtomo/gridrec/gridrec.c"],
     [("slices handed to threads", "algorithm.py:_dist_recon"),
      ("division of an axis", "mproc.py:get_ncore_slices"),
      ("loop over slices in C", "source/libtomo/recon/*.c, source/libtomo/gridrec/gridrec.c")],
     ["tomopy.recon"])

prop("C02", "Simulated projections are the exact ray sums of the object",
     """A simulated emission projection is, for every slice, angle and detector bin, the sum of the
     pixel values weighted by the length of the bin's ray inside each pixel, with bins one pixel apart
     around the given (or central) rotation axis; transmission data is the exponential of minus that
     sum. The result is linear in the object, has the documented (padded) size and order, and does not
     depend on cores, chunks or other slices.""",
     ["inputs", "configurations"],
     "all objects (square or not), angles, axes, padding, order and division choices",
     """The tests compare one phantom with a stored array; geometry at other shapes, angles, axes or
     divisions is never evaluated.""",
     ["tomopy/sim/project.py", "tomopy/util/extern/recon.py", "libtomo/recon/project.c",
      "libtomo/recon/utils.c"],
     [("ray tracing", "utils.c: preprocessing, calc_coords, trim_coords, sort_intersections, calc_dist"),
      ("size of the detector", "project.py:get_pad, project")],
     ["tomopy.project"])

prop("C03", "Iterative solvers perform exactly their documented update",
     """After any number of iterations each iterative algorithm returns what its defining update
     formula gives for the exact ray geometry, starting from the given (or default) initial guess and
     using the given blocks, block order, regularisation parameters and reference data. Running k
     iterations and continuing from the result for m more equals k+m iterations for the methods without
     hidden state.""",
     ["inputs", "configurations", "histories"],
     """all algorithms (algebraic, expectation maximisation, penalised likelihood, gradient,
     Tikhonov, total variation, back projection), grids, angles, axes, block counts and orders,
     parameters, initial guesses and iteration counts""",
     """Stored results fix one phantom with default options and one iteration count; block orders,
     parameters, non-square grids, off-centre axes and initial guesses are never checked.""",
     ["libtomo/recon/art.c", "libtomo/recon/bart.c", "libtomo/recon/sirt.c",
      "libtomo/recon/mlem.c", "libtomo/recon/osem.c", "libtomo/recon/pml_hybrid.c",
      "libtomo/recon/pml_quad.c", "libtomo/recon/ospml_hybrid.c",
      "libtomo/recon/ospml_quad.c", "libtomo/recon/grad.c", "libtomo/recon/tikh.c",
      "libtomo/recon/tv.c", "libtomo/recon/fbp.c", "tomopy/util/extern/recon.py"],
     [("update loops", "source/libtomo/recon/*.c"),
      ("ray tracing", "source/libtomo/recon/utils.c"),
      ("marshalling of options", "source/tomopy/util/extern/recon.py")],
     ["tomopy.recon"])

prop("C04", "Fourier reconstruction is linear filtered backprojection on the grid",
     """The Fourier gridding reconstruction is linear in the data, equals the given filter applied to
     every projection followed by back projection about the given axis up to its interpolation error,
     and a named filter equals the same response passed as a custom filter. Moving the rotation axis by
     whole detector bins together with the data moves nothing, a smaller output grid is the centre of
     the larger one, and weighting angles or filtering per projection acts on that projection only.""",
     ["inputs", "configurations"],
     "all sinograms, angle sets, axes, filters with parameters, custom filters and grid sizes",
     """Tests compare one phantom for named filters with stored arrays; no test states what a filter
     is or how axis and grid act.""",
     ["libtomo/gridrec/gridrec.c", "include/libtomo/filters.h",
      "tomopy/util/extern/gridrec.py", "tomopy/recon/algorithm.py"],
     [("gridding and correction", "gridrec.c:gridrec"), ("filters", "filters.h, gridrec.c:set_filter_tables")],
     ["tomopy.recon(algorithm='gridrec')"])

prop("C05", "Results depend on array values, not on element type or memory layout",
     """Every public processing function gives for an array the same result as for its contiguous
     single-precision copy, whatever its memory order, strides, byte offset, read-only flag, backing by
     shared memory, byte order or floating type (or integer type, where it converts to single
     precision), and leaves the caller's array as it was unless the function works in place, the array
     was passed as its output, or it is a shared-memory array handed to worker processes. An output array given by the
     caller holds the returned result.""",
     ["inputs", "configurations"],
     "all public functions that take arrays, element types and memory layouts",
     "Tests pass freshly made contiguous float arrays.",
     ["tomopy/util/dtype.py", "tomopy/util/mproc.py", "tomopy/recon/algorithm.py",
      "tomopy/misc/corr.py", "tomopy/misc/morph.py", "tomopy/prep/stripe.py",
      "tomopy/prep/normalize.py", "tomopy/prep/phase.py"],
     [("conversion", "dtype.py:as_float32, as_sharedmem, is_contiguous"),
      ("init_tomo", "algorithm.py")], [])

prop("C06", "Invalid requests are rejected and leave nothing behind",
     """A request that cannot be served (unknown algorithm or option, wrong number of angles, axes,
     block indices or initial values, impossible sizes, modes or regions) raises an error instead of
     returning data, and the caller's arrays keep their values. A call that fails, including failures
     inside a worker or in a user-supplied algorithm, leaves the process able to do every later call
     with unchanged results and an unchanged environment.""",
     ["inputs", "histories", "fault_sequences"],
     "all invalid requests, and all interleavings of failing and valid calls",
     "A few single rejections are tested; never the state afterwards.",
     ["tomopy/recon/algorithm.py", "tomopy/util/extern/recon.py", "tomopy/util/mproc.py",
      "tomopy/misc/morph.py", "tomopy/misc/corr.py", "tomopy/recon/vector.py"],
     [("argument checks", "algorithm.py:recon"), ("restoring of thread settings", "algorithm.py:_dist_recon")],
     [])

prop("C07", "Distributing work over processes equals one serial call per chunk",
     """Distributing a function over an axis gives exactly the result of applying it serially to the
     consecutive chunks, for any number of arrays, their types and layouts, any axis, core count and
     chunk size (zero hands over single slices without that dimension), output array, in-place or
     returning function. Ordinary input arrays are not modified; an exception in a worker reaches the
     caller, a worker that dies (with whatever exit status) raises an error instead of hanging, and
     both leave no state that affects the next call.""",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all arrays, functions, divisions, and failures of any chunk in any position",
     "The tests distribute one function over one array.",
     ["tomopy/util/mproc.py", "tomopy/util/dtype.py"],
     [("distribution", "mproc.py:distribute_jobs, _arg_parser, init_shared"),
      ("shared memory", "dtype.py:as_sharedmem, get_shared_mem")],
     ["tomopy.util.mproc.distribute_jobs"])

prop("C08", "Normalisation divides by the right flat field, background or region",
     """Flat- and dark-field normalisation returns (data - dark)/(flat - dark) with averaged dark and
     flat fields, bounded by the cutoff if one is given and protected against empty flat fields; with
     several flat-field sets each projection uses the set nearest to it. Background and region
     normalisation divide each projection by the interpolated air level of each row or the mean of the
     region, and taking the logarithm gives -ln of the data.""",
     ["inputs", "configurations"],
     "all projections, flats, darks, cutoffs, set positions, air widths, regions and divisions",
     "Tests compare fixed small arrays with stored output; positions of flat sets are not varied.",
     ["tomopy/prep/normalize.py", "libtomo/prep/prep.c"],
     [("normalize, normalize_nf, normalize_bg, normalize_roi, minus_log", "normalize.py"),
      ("background in C", "prep.c:normalize_bg")], [])

prop("C09", "Smoothing and point-wise filters act on each slice as documented",
     """Gaussian, median, Sobel and non-finite filters give on every slice along the chosen axis the
     documented neighbourhood operation of this slice alone; replacing NaN and negative values, range
     adjustment, intensity transforms and circular masks change exactly the values they name. The
     choice of cores and axis never changes the result.""",
     ["inputs", "configurations"],
     "all arrays (including NaN and infinity), axes, sizes, orders and core counts",
     "Tests use one array with default arguments.",
     ["tomopy/misc/corr.py", "tomopy/misc/morph.py"],
     [("gaussian_filter, median_filter, median_filter_nonfinite, sobel_filter, remove_nan, remove_neg, adjust_range, circ_mask, enhance_projs_aps_1id", "corr.py")], [])

prop("C10", "Outlier removal replaces exactly the outliers by the local median",
     """Outlier removal (2D, 1D and 3D) returns the input with exactly those values replaced by their
     neighbourhood median that deviate from it by at least the threshold, and every other value
     bit-identical; the 3D median filter returns the median of the cubic neighbourhood everywhere.
     Results do not depend on cores, axis bookkeeping, element type or the output array.""",
     ["inputs", "configurations"],
     "all arrays, thresholds, sizes, axes, element types and core counts",
     "Tests cover one array per function.",
     ["tomopy/misc/corr.py", "libtomo/misc/median_filt3d_float32.c",
      "libtomo/misc/median_filt3d_uint16.c"],
     [("remove_outlier, remove_outlier1d, remove_outlier3d, median_filter3d", "corr.py"),
      ("3D median", "median_filt3d_*.c")], [])

prop("C11", "Ring removal subtracts only bounded, concentric artifacts",
     """Ring removal in reconstructed slices changes every pixel by a bounded ring-shaped correction:
     the correction of a pixel is the angular mean, around the given centre, of its radial median
     filter's residual; residuals above the threshold are features and not corrected, so no correction
     exceeds the threshold; constant slices are unchanged, a ring added around the centre is reduced, and the work is done slice by slice
     for any core count, centre, and output array, with finite results.""",
     ["inputs", "configurations"],
     "all slices, centres inside the image, ring widths, thresholds, angular windows and modes",
     "One phantom with default arguments is compared with stored data.",
     ["tomopy/misc/corr.py", "libtomo/misc/remove_ring.c"],
     [("remove_ring", "remove_ring.c")], [])

prop("C12", "Inpainting fills exactly the masked pixels from their surroundings",
     """Inpainting returns every unmasked pixel bit-identical and fills masked pixels with values
     inside the range of the known data; a constant image is restored exactly and no zero or random
     value leaks in, for 2D slices along every axis and for volumes. Filling 2D slices of a stack
     equals filling each slice alone.""",
     ["inputs", "configurations"],
     "all images and volumes, masks, window sizes, iterations, axes, methods and core counts",
     "The tests compare a few sums for one phantom and one mask.",
     ["tomopy/misc/corr.py", "libtomo/misc/inpainter.c"],
     [("inpainter_morph", "corr.py"), ("Inpainter_morph_main", "inpainter.c")], [])

prop("C13", "Resampling, padding, trimming and stitching keep every sample in place",
     """Downsampling averages consecutive bins, upsampling repeats samples and inverts downsampling
     of binned-constant data, padding adds constant or edge borders of the requested or default width
     and trimming keeps the selected columns. Stitching a full-turn scan puts each half's columns at
     the position given by the overlap and blends them so that consistent halves are reproduced
     exactly.""",
     ["inputs", "configurations"],
     "all arrays, levels, axes, pad widths, modes, centres, overlaps and sides",
     "Tests use single shapes and default axes.",
     ["tomopy/misc/morph.py", "libtomo/misc/morph.c"],
     [("downsample, upsample, pad, trim_sinogram, sino_pad, sino_360_to_180", "morph.py"), ("sampling", "morph.c")], [])

prop("C14", "Stripe removal corrects angle-independent column errors only",
     """Every stripe filter works on each slice alone, returns finite data of the input's shape, leaves
     a sinogram without column deviations unchanged up to its smoothing, and reduces an added constant
     column offset. Where the filter is a closed formula (smoothing, Titarenko's, sorting, fitting,
     interpolation of detected columns) the result equals this formula, whatever the cores, chunks or
     blocks.""",
     ["inputs", "configurations"],
     "all sinogram stacks, filters, their parameters and divisions",
     "One stored sinogram per filter with default parameters.",
     ["tomopy/prep/stripe.py", "libtomo/prep/stripe.c"],
     [("remove_stripe_fw, _ti, _sf, _based_*, remove_all_stripe, remove_dead_stripe", "stripe.py"),
      ("smoothing filter", "stripe.c")], [])

prop("C15", "Stripe detection yields sound weights and masks",
     """Stripe detection in volumes returns, for each value, the documented ratio of local gradients in
     [0, 1], small only along vertical discontinuities, and the mask it is turned into contains only
     voxels below the threshold (plus closed gaps), keeps no stripe shorter than the limit and, without a limit on the depth, grows
     monotonically with the threshold. Both are independent of the core count.""",
     ["inputs", "configurations"],
     "all volumes, sizes, radii, thresholds, lengths, depths and widths",
     "Tests compare sums for one phantom.",
     ["tomopy/prep/stripe.py", "libtomo/prep/stripes_detect3d.c"],
     [("stripes_detect3d, stripes_mask3d", "stripe.py, stripes_detect3d.c")], [])

prop("C16", "Phase retrieval and propagation apply their linear optics exactly",
     """Phase retrieval applies the same normalised low-pass filter to each projection alone: it keeps
     constants, is linear, commutes with circular shifts if there is no padding, and equals the
     formula for its pixel size, distance, energy and regularisation. Simulated propagation (Gaussian
     probes, far and near field) follows the discrete Fourier transform, conserving energy where the
     physics does.""",
     ["inputs", "configurations"],
     "all projection stacks (odd and even sizes), physical parameters, padding and divisions",
     "One stored projection set with default parameters.",
     ["tomopy/prep/phase.py", "tomopy/sim/propagate.py"],
     [("retrieve_phase", "phase.py"), ("propagation", "propagate.py")], [])

prop("C17", "Rotation axis finders return the axis of consistent data",
     """Given projections of an object turning about a known axis, each axis finder returns this axis
     within its stated tolerance, and shifting the detector columns shifts its answer alike. The
     sequence of trial reconstructions written for visual inspection holds, for every trial axis, the
     reconstruction about that axis of the chosen slice under the axis' name.""",
     ["inputs", "configurations"],
     "all objects with contrast, angle counts, axes, slices, search ranges, tolerances and algorithms",
     "One phantom and one axis per finder.",
     ["tomopy/recon/rotation.py"],
     [("find_center, find_center_vo, find_center_pc, write_center, mask_empty_slice", "rotation.py")], [])

prop("C18", "Alignment moves images by exactly the stated amounts",
     """Shifting, scaling, blurring and distortion correction of projections apply the stated shift,
     scale and lens polynomial to each image: zero shift and the identity polynomial change nothing,
     whole-pixel shifts move pixels, one-row corrections equal the same row of whole-image
     corrections. Joint and sequential reprojection alignment recover known shifts of consistent
     data and report the shifts they applied, and slit detection returns the true corners.""",
     ["inputs", "configurations"],
     "all image stacks, shifts, polynomials, centres, image shapes and slit positions",
     "Tests only run the functions on one input or compare one stored array.",
     ["tomopy/prep/alignment.py", "tomopy/misc/npmath.py"],
     [("align_seq, align_joint, scale, shift_images, add_jitter, add_noise, blur_edges, distortion_correction_*, find_slits_corners_aps_1id", "alignment.py")], [])

prop("C19", "Vector tomography projects and reconstructs each component in its axes",
     """Projecting a vector field sums its components along the rays in the plane of each rotation axis
     with the signs given by the angle, and vector reconstruction performs its documented update for
     each of the two components in the plane of the data set's rotation axis, using for each data set its
     own angles and its own slices' axes. Pixels that
     no ray crosses keep their initial value, and results do not depend on cores or chunks.""",
     ["inputs", "configurations"],
     "all fields, angle sets per data set, rotation axes, grids and iteration counts",
     "One fixed vector phantom with stored output.",
     ["tomopy/recon/vector.py", "tomopy/sim/project.py", "libtomo/recon/vector.c",
      "libtomo/recon/project.c"],
     [("vector, vector2, vector3", "vector.c"), ("project2, project3", "project.c")], [])

prop("C20", "Phantoms and simulated degradations have the stated content and statistics",
     """Built-in phantoms show the same content, within its range of values, at any size and in the
     requested shape and type; ellipsoid phantoms are the sum of their ellipsoids; angle generators
     return the stated equally spaced angles, and simulated detector defects change data as
     stated: per-pixel sensitivities constant over all angles, one gain per projection for drift, the
     given fraction of zingers and impulse noise, Poisson counts with the data as mean. A given random
     state reproduces the same output.""",
     ["inputs", "configurations"],
     "all sizes, angle counts, ranges, strengths, fractions and random states",
     "Tests look at one size or at the output shape only.",
     ["tomopy/misc/phantom.py", "tomopy/sim/project.py"],
     [("phantoms", "phantom.py"), ("angles, fan_to_para, add_*", "project.py")], [])

prop("C21", "The compiled code never touches memory outside its arrays",
     """For every valid argument of the public functions the compiled routines read and write only
     inside the arrays and work buffers they own and never use uninitialised values as results.
     Rejected arguments do not reach them.""",
     ["inputs", "configurations"],
     "all shapes down to single pixels, slices and angles, axes, grids, windows and block lists",
     "Tests run one comfortable shape without memory checking.",
     ["libtomo/recon", "libtomo/gridrec", "libtomo/misc", "libtomo/prep",
      "tomopy/util/extern"],
     [("work buffers", "source/libtomo/**.c"), ("arguments", "source/tomopy/util/extern/*.py")], [])

prop("C22", "Iterative reconstructions improve their objective and keep its constraints",
     """On consistent data the exact solution is a fixed point of every unregularised iterative method;
     expectation maximisation keeps images non-negative, preserves total counts and never lowers the
     likelihood, Kaczmarz's method (art) never moves away from a solution, and gradient and Tikhonov descent
     with a small step never raise their objective. Penalised and total-variation methods keep a
     constant image that explains the data. Reconstructions scale with the data where the method is
     homogeneous, and the order in which projections are listed does not matter to simultaneous
     methods.""",
     ["inputs", "histories"],
     "all non-negative objects, geometries, iteration counts and block choices",
     "No test looks at the objective or at intermediate iterates.",
     ["libtomo/recon/mlem.c", "libtomo/recon/osem.c", "libtomo/recon/sirt.c",
      "libtomo/recon/art.c", "libtomo/recon/bart.c", "libtomo/recon/grad.c",
      "libtomo/recon/tikh.c", "libtomo/recon/tv.c"],
     [("update loops", "source/libtomo/recon/*.c")], [])

prop("C23", "External toolboxes are handed every slice once, with its own axis and options",
     """The algorithms that wrap external toolboxes (astra, lprec, ufo, and mlem and sirt of the accelerated library) give for every slice what the toolbox
     computes from that slice's sinogram, the given angles, iterations, method, extra options and initial
     image, with the slice's own rotation axis (astra, exact on GPUs and by whole columns on the CPU) or the
     common axis (lprec, ufo), whatever the division over cores, chunks, batches and the GPUs of the list. An
     error of the toolbox on any GPU reaches the caller, no GPU is used by two batches at a time, every object
     created in the toolbox is deleted, and the caller's options and arrays stay as they are.""",
     ["inputs", "configurations", "fault_sequences"],
     "all stacks, axes, GPU lists, divisions and options",
     "The toolboxes are not installed where the tests run, so none of this code is tested.",
     ["tomopy/recon/wrappers.py"],
     [("astra, astra_rec, lprec, lpmultigpu, ufo_fbp, ufo_dfi", "source/tomopy/recon/wrappers.py")], [])

prop("C24", "What is saved, converted, shared or transformed keeps every value",
     """write_tiff saves exactly the given values, shape and element type at exactly the stated place (folders made,
     number and extension added, existing files replaced, nothing else touched), and alignments asked to save leave the
     files of every iteration without changing their results. Element type conversions, pointers to C, copies into and
     views of shared memory keep all values, are seen by other processes and never share memory with ordinary inputs,
     and the Fourier transforms equal their definition along the axes and lengths asked for.""",
     ["inputs", "histories", "configurations"],
     "all names, sequences of writes, shapes, element types, memory layouts, axes and lengths",
     "No test writes a file, and the conversions are only run with float arrays in C order.",
     ["tomopy/util/misc.py", "tomopy/util/dtype.py", "tomopy/prep/alignment.py"],
     [("write_tiff, fft*", "source/tomopy/util/misc.py"), ("as_*, *shared*", "source/tomopy/util/dtype.py"),
      ("save=True", "source/tomopy/prep/alignment.py")], [])

prop("C25", "The standard workflow returns the object its data were simulated from",
     """Simulating a scan of an object, measuring it with dark and bright fields, normalising (flat fields, nearest flat
     fields, air, region), removing zingers, taking the logarithm, binning, joining a full turn, padding and
     reconstructing returns the object, at its place and orientation and with its contrast, with every iterative method
     and, up to their known blur, with gridrec and fbp, in all orders of angles, positions of the axis, sinogram or
     projection order, and divisions over cores and chunks.""",
     ["inputs", "configurations", "histories"],
     "all objects, scans, fields, steps of the workflow, methods, orders and divisions",
     "Tests look at single functions with stored results, never at whether they fit together.",
     ["tomopy/sim/project.py", "tomopy/prep/normalize.py", "tomopy/misc/corr.py", "tomopy/misc/morph.py",
      "tomopy/recon/algorithm.py"],
     [("project", "project.py"), ("normalize*", "normalize.py"), ("sino_360_to_180, pad, downsample", "morph.py"),
      ("recon", "algorithm.py")], [])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()
