"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json
P = []


def add(id, title, statement, over, qtext, why, files, mech, observe_at=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe_at:
        a["observe_at"] = [observe_at]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


W = ["pmesh/window.py", "pmesh/_window.pyx", "pmesh/_window_imp.c", "pmesh/_window_generics.h",
     "pmesh/_window_tuned_nnb.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h",
     "pmesh/_window_tuned_pcs.h"]
WT = W + ["pmesh/_window_lanczos.h", "pmesh/_window_acg.h", "pmesh/_window_wavelets.h"]
D = ["pmesh/domain.py", "pmesh/_domain.pyx"]
N = ["pmesh/_whitenoise_generics.h", "pmesh/_whitenoise_imp.c", "pmesh/_whitenoise.pyx", "pmesh/whitenoise.py"]
PM = ["pmesh/pm.py"]

add("W01", "Painting and reading out are adjoint linear operations",
    "For every resampling window, mesh, set of particle positions and smoothing scales, painting masses and reading a field out are transposes of each other: the mesh sum of field times painted mass equals the particle sum of mass times read-out value. "
    "Painting adds linearly to what the mesh already holds, and reading out is linear in the field and depends, particle by particle, on that particle alone. "
    "Neither changes its inputs, whatever their memory layout or floating-point type. A mesh whose type of numbers is not supported, or that is read-only, is refused, never misread.",
    ["inputs"], "all windows (plain and differentiated), 1 to 4 dimensions, single and double precision meshes of any strides, any positions, masses and per-particle smoothing",
    "Tests compare a few hand-written positions in one window; adjointness must hold for every window, dimension, precision, stride order and position, and each combination runs different specialised code.",
    W, [("paint/readout", "pmesh/window.py ResampleWindow.paint, readout"), ("generic loop", "pmesh/_window_generics.h _generic_paint, _generic_readout"), ("tuned kernels", "pmesh/_window_tuned_*.h")],
    "values returned by paint and readout")

add("W02", "Each window weighs mesh points by its documented kernel",
    "A particle contributes to a mesh point the product over dimensions of the window's documented one-dimensional kernel at their separation: nearest, linear, quadratic and cubic B-splines, Lanczos, approximate confined Gaussian, and Daubechies or symlet scaling functions. "
    "The optimised variants of the B-spline windows agree with the plain ones at every dimension and precision. "
    "A smoothing scale or a resized support stretches the kernel by that factor and divides it by the same factor per dimension.",
    ["inputs"], "all 24 windows, every sub-cell offset, 1 to 4 dimensions, both precisions, any smoothing scale, support and periodic wrap",
    "Tests check a handful of offsets for a few windows; the kernel is a function of a real offset with many branches and table entries, and the optimised code for each window, dimension and precision is written out by hand.",
    WT, [("kernels", "pmesh/_window_imp.c _*_kernel"), ("tables", "pmesh/_window_lanczos.h, _window_acg.h, _window_wavelets.h"), ("stretching", "pmesh/_window_imp.c pmesh_window_info_init, _fill_k"), ("tuned kernels", "pmesh/_window_tuned_*.h")],
    "mesh after painting one particle; read-out of a delta mesh")

add("W03", "B-spline windows conserve mass and reproduce constants",
    "On a periodic mesh, painting with any B-spline window (nearest, linear, quadratic, cubic and their optimised forms) puts exactly the total particle mass on the mesh, and reading out a constant field gives that constant everywhere. "
    "Differentiated windows put zero total mass and read zero from a constant field, and the linear and higher windows read a linear ramp back exactly. "
    "Other normalised windows do the same to within the accuracy of their truncated kernel.",
    ["inputs"], "all positions including outside the box, masses, mesh shapes down to one cell per side, dimensions and precisions",
    "Conservation must hold at every position and mesh size, including meshes smaller than the window where one particle wraps around several times; tests use a few positions on a mesh of a few cells.",
    W, [("weights", "pmesh/_window_tuned_*.h SETUP_KERNEL_*; pmesh/_window_imp.c _fill_k"), ("wrap", "pmesh/_window_generics.h periodic wrap")],
    "sum of the painted mesh; read-out values")

add("W04", "Painting respects periodicity, affine maps and mesh edges",
    "Shifting a particle by whole periods changes nothing, shifting all by one cell rolls the mesh, and scale and translation of the affine map act as if applied to the positions beforehand. "
    "Painting or reading a rectangular tile of a larger periodic mesh, with the tile's offset as translation, gives exactly the tile of the global result, so tiles add up to the whole. "
    "Mesh points outside the tile are dropped, and no memory outside the mesh is read into the result or written.",
    ["inputs"], "all windows, tiles, offsets, periods, positions far outside the box, strided meshes embedded in guarded memory",
    "Every rank of a parallel run works on such a tile; the errors appear only for particular combinations of offset, support and wrap, and stray writes are invisible to tests that look at the mesh alone.",
    W, [("transform", "pmesh/window.py Affine, rescale, shift"), ("wrap and clip", "pmesh/_window_generics.h; _WRtPlus*, _REd*")],
    "mesh and the guard cells around it")

add("W05", "Differentiated windows are the derivative with respect to position",
    "Reading out or painting with a differentiation direction gives the derivative, with respect to the particle's position in that direction and in the caller's units, of the plain read-out or painted mesh. "
    "The scale of the affine map and any smoothing or resized support enter by the chain rule, and the other directions keep their plain weights. "
    "This holds identically for plain and optimised forms of a window.",
    ["inputs"], "all differentiable windows, directions, dimensions, precisions, scales, smoothing and positions away from the kernel's kinks",
    "Gradient weights are separate hand-written branches per window and dimension; a missing factor shows only for a non-unit scale or a stretched window, which tests do not combine.",
    W, [("derivatives", "pmesh/_window_imp.c _*_diff, _fill_k"), ("tuned", "pmesh/_window_tuned_*.h order branch")],
    "difference quotients of read-out values and painted meshes")

add("W06", "The Fourier window is the transform of the real-space kernel",
    "For the nearest, linear, quadratic and cubic windows the reported Fourier-space window equals the Fourier transform of the kernel that is painted, at every frequency, for the native and for resized supports; it is 1 at zero frequency, even, and 1 everywhere for windows without an analytic form. "
    "The compensation function divides a Fourier-space value by the product of the windows of all directions. "
    "The result keeps the shape of its argument.",
    ["inputs"], "all frequencies, windows, supports, argument shapes and dimensions",
    "It relates two independently coded functions over a continuum of frequencies and supports; tests compare only a few tabulated values.",
    W[:3], [("fwindow", "pmesh/_window_imp.c _*_fwindow, pmesh_painter_get_fwindow"), ("compensation", "pmesh/window.py get_compensation, get_fwindow")],
    "get_fwindow, get_compensation")

add("D01", "Exchange delivers every requested copy, in a stable order",
    "Exchanging particle data along a layout gives each rank exactly the items that were addressed to it, each as often as it was addressed, ordered by source rank and within a source by original position. "
    "Any number of arrays exchanged together or separately stay aligned row by row, for every data type and trailing shape, including empty ranks and structured records. "
    "The input arrays are left as they were.",
    ["inputs", "schedules"], "number of ranks, particle distributions including empty ones, data types, item shapes, packed or separate exchange",
    "It must hold for every distribution of particles over any number of ranks; tests use a couple of layouts of plain numbers.",
    D, [("Layout", "pmesh/domain.py Layout.__init__, exchange"), ("packing", "pmesh/domain.py pack_arrays, promote")],
    "arrays returned by exchange on every rank")

add("D02", "Gather reduces the copies of each particle at its origin",
    "Gathering data back along a layout returns, at each particle's original place, the requested reduction over exactly its copies: the sum, the mean, any one of them, a general reduction, all of them, or only those kept on the local rank. "
    "Gathering what was exchanged returns the original for every particle that has a copy, and the copies are neither lost nor mixed between particles. "
    "A result buffer supplied by the caller receives the same values.",
    ["inputs", "schedules"], "number of ranks, layouts with 0 to many copies per particle, reduction, data type including complex and integer, item shape, output buffer",
    "The reductions use counting and offsets over the whole communication history; errors show only for uneven multiplicities, particles with no copy, vector items or particular types.",
    D, [("gather", "pmesh/domain.py Layout.gather"), ("segments", "pmesh/domain.py bincountv")],
    "arrays returned by gather on every rank")

add("D03", "Decomposition sends each particle to exactly the domains in reach",
    "Decomposing positions sends each particle to the rank of every domain that its position, extended by the smoothing length in each direction, touches, with periodic wrapping when the grid is periodic, and to no rank twice. "
    "The particle always reaches the rank that owns its own position, however far outside the box it was given. "
    "The outcome does not depend on how many particles are decomposed at once, on their order or type, or on which rank each domain is assigned to.",
    ["inputs", "schedules"], "1 to 3 dimensions, grids with uneven and empty domains, any assignment of domains to ranks, smoothing from zero to several boxes, positions on edges and outside",
    "A missing copy loses mass silently only when a particle sits within the smoothing length of a particular boundary; tests use uniform grids with small smoothing and the natural assignment.",
    D, [("decompose", "pmesh/domain.py GridND.decompose"), ("fill", "pmesh/_domain.pyx gridnd_fill")],
    "items received by exchange on every rank")

add("D04", "Every point of space has exactly one primary domain",
    "For every decomposition, each position has exactly one rank on which it counts as primary, also on domain edges and at periodic images. "
    "Among the copies of a particle made with any smoothing length exactly one is primary, so that counting primaries counts particles. "
    "The primary regions together cover the box without overlap, also after load balancing.",
    ["inputs", "schedules"], "grids with uneven, empty and many-per-rank domains, positions on edges, smoothing lengths, assignments",
    "Double counting appears only for positions on an edge or for degenerate domains and particular assignments, which sampled tests miss.",
    D, [("primary", "pmesh/domain.py GridND.isprimary, _update_primary_regions")],
    "isprimary over the copies received")

add("D05", "Load accounting is exact and load balancing keeps every domain owned",
    "The load reported for a set of positions counts every particle once in the domain that contains it, over all ranks, so the loads add up to the number of particles inside the grid. "
    "Load balancing assigns every domain to exactly one rank, agrees on all ranks, gives no rank more than the heaviest domain above an even share, and changes neither which positions are covered nor what decomposition and exchange deliver. "
    "Uniform grids have one domain per rank or per requested cell, with edges spanning the box.",
    ["inputs", "schedules"], "positions, grid shapes, periodicity, number of ranks and of domains, load distributions including ties and zeros",
    "Balance and ownership are statements over all load vectors; tests balance one random sample and look only at the time it takes.",
    D, [("load", "pmesh/domain.py GridND.load"), ("loadbalance", "pmesh/domain.py GridND.loadbalance"), ("uniform", "pmesh/domain.py GridND.uniform")],
    "load, DomainAssign, exchange after balancing")

add("D06", "Data that do not fit a layout are refused by every rank",
    "When the data given to exchange or gather do not fit on some ranks (a wrong length, columns of unequal lengths, items of another shape or another number of columns than on the first rank, a reduction that does not exist), every rank gets an exception: none waits for ever, and none gets truncated or repeated data. "
    "The layout remains usable afterwards: following exchanges and gathers deliver what they would have without the refused calls.",
    ["inputs", "histories"], "layouts, which ranks have data that do not fit and in which way, packed or separate exchange, reductions, sequences of refused and valid calls",
    "A refusal on one rank alone hangs the others; it depends on which ranks are affected, and tests only refuse on all ranks at once.",
    D, [("exchange", "pmesh/domain.py Layout.exchange, _exchange, promote, pack_arrays"), ("gather", "pmesh/domain.py Layout.gather")],
    "exceptions and results on every rank")

add("N01", "White noise does not depend on how the mesh is divided",
    "The value generated for a Fourier mode depends only on the seed, the global mesh and the mode: filling any rectangular part of the mesh gives exactly the same numbers as the corresponding part of the whole. "
    "This holds for every offset and size of the part, in compressed and full storage, for any strides. "
    "Filling a part again, or filling several in any order, changes nothing, and nothing outside it is written.",
    ["inputs", "histories"], "seeds, mesh sizes per side, parts including single rows and the negative-frequency half, precisions, strides, orders of calls",
    "Initial conditions must be identical on every number of ranks; the generator walks seed tables and skips random numbers differently for each offset, so every sub-volume is a different path.",
    N, [("generation", "pmesh/_whitenoise_generics.h"), ("slicing", "pmesh/whitenoise.py generate")],
    "generate on sub-volumes")

add("N02", "White noise is the transform of a real field",
    "Over the full mesh, generated modes are Hermitian: the mode at minus k is the complex conjugate of the mode at k, and self-conjugate modes are real, so the field's transform to configuration space is real. "
    "The compressed half agrees with the full storage. "
    "In three dimensions the zero mode is zero.",
    ["inputs"], "seeds, mesh sizes per side in 1 to 3 dimensions, unitary or not, full or compressed storage",
    "Hermitian symmetry binds pairs of modes generated in different quadrants from different seeds; tests check one mesh and seed.",
    N, [("conjugation", "pmesh/_whitenoise_generics.h")], "generate with full storage")

add("N03", "White noise keeps its large scales when the mesh is refined",
    "With one seed, three-dimensional meshes of different resolution carry identical values in every mode that both represent, strictly below both Nyquist frequencies of each axis. "
    "Refining a mesh therefore only adds small-scale modes. "
    "Different seeds give different fields and the same seed always the same field.",
    ["inputs", "histories"], "seeds, pairs of mesh sizes per side, precisions, storage",
    "It is a relation between runs at two sizes, over all pairs of sizes and all common modes.",
    N, [("seed table", "pmesh/_whitenoise_generics.h seed table"), ("skip", "pmesh/_whitenoise_imp.c")], "generate at two resolutions")

add("N04", "Unitary and Gaussian white noise have the promised statistics",
    "Unitary white noise has amplitude exactly one in every mode except the zero mode, and the same phases as the Gaussian field of the same seed in every mode that is not its own conjugate. "
    "In these modes Gaussian noise has zero mean and unit mean power, with exponentially distributed power, uniform phases and no correlation between independent modes. "
    "Single precision agrees with double precision up to rounding.",
    ["inputs"], "seeds, mesh sizes, precisions",
    "Amplitude and phase relations hold per mode for every seed; the distribution is a statement over seeds.",
    N, [("sampling", "pmesh/_whitenoise_generics.h SAMPLE")], "generate with unitary on and off")

add("N05", "Three-dimensional white noise follows the Gadget recipe",
    "On three-dimensional meshes of even sides, white noise of a seed is the realisation that Gadget's initial conditions (N-GenIC) define for it: the sequence of RANLUX numbers of the seed gives one seed per pair of transverse frequencies in rings of growing frequency, "
    "each of these gives phase and amplitude of its modes in order of frequency, and the lower half-plane rules where a plane is its own mirror. "
    "Realisations are therefore comparable between codes and between versions, for every seed, mesh and part of it.",
    ["inputs"], "seeds, mesh sizes, parts, storage, precision",
    "A test compares four modes of one seed to two digits; a change of sequence that keeps the statistics and these digits, or shows on larger meshes only, goes unseen.",
    N, [("rings", "pmesh/_whitenoise_generics.h _generic_fill"), ("ranlxd1", "pmesh/gsl/ranlxd.c")], "generate on even meshes")

add("I01", "The invariant index numbers mesh points once, independent of mesh size",
    "The invariant index gives every point of a mesh of any side lengths an index of its own, growing outwards shell by shell from the zero point; on a cubic mesh these are exactly the integers from zero to the number of points minus one, also for the compressed half mesh. "
    "A smaller mesh's points carry the first indices of a larger cubic one's, so that the index of a point or mode does not change with the resolution. "
    "Any sub-volume gets the same numbers as in the whole, and points beyond a requested maximum are marked as outside.",
    ["inputs"], "mesh sizes per side, dimensions, sub-volumes, full or compressed last axis, maximum length",
    "A bijection and its nesting are statements over all mesh points and all pairs of sizes.",
    ["pmesh/invariant.py", "pmesh/_invariant.pyx", "pmesh/_invariant_imp.c"],
    [("index", "pmesh/_invariant_imp.c"), ("ranges", "pmesh/invariant.py get_index")], "get_index")

add("P01", "Mesh coordinates and the uniform particle grid tile the box",
    "Over all ranks, the local parts of a real or complex mesh tile the whole mesh without gap or overlap, and coordinates attached to each local point are the global ones: integer index, position in the half-open centred box, or wavenumber, with the Nyquist frequency negative. "
    "The uniform particle grid has exactly one particle per mesh point at the shifted point in box units, with a unique identity below the number of points that depends only on the point, in the type asked for (by default the precision of the mesh). "
    "Coordinate arrays handed out are private copies.",
    ["inputs", "schedules"], "mesh sizes per side, box sizes, ranks and process meshes, precisions, real and both complex layouts, shifts",
    "Offsets and wrap-arounds depend on the rank's place in the process mesh and on odd or even sizes; tests use cubic or square even meshes.",
    PM, [("coords", "pmesh/pm.py _init_i_coords, _init_o_coords, create_coords"), ("grid", "pmesh/pm.py generate_uniform_particle_grid, mesh_coordinates")],
    "create_coords, field slices, grid positions and ids")

add("P02", "Painting and reading on a divided mesh equal the undivided result",
    "Painting particles through a decomposition of sufficient smoothing gives, on any number of ranks and process mesh, the mesh that one process would paint, and reading out gives each particle the value one process would read. "
    "The total mass is conserved however particles are distributed over ranks, also with per-particle mass and smoothing, with gradients, and when accumulating onto existing contents. "
    "The default smoothing suffices for the default window.",
    ["inputs", "schedules"], "ranks, process meshes, mesh and box sizes, windows, positions including outside the box, masses, smoothing scales, gradient directions, hold or overwrite",
    "Agreement must hold for every placement of particles relative to rank boundaries and periodic edges; tests use one grid of particles on four ranks.",
    PM + D + W[:1], [("decompose", "pmesh/pm.py ParticleMesh.decompose"), ("paint", "pmesh/pm.py ParticleMesh.paint"), ("readout", "pmesh/pm.py RealField.readout")],
    "global mesh and read-out values")

add("P03", "Fourier transforms are normalised, invertible and layout-independent",
    "The forward transform of a real field equals the discrete Fourier transform divided by the number of mesh points, and the backward transform is its exact inverse, on any number of ranks and mesh shape, for both precisions and complex input types. "
    "In-place and out-of-place execution and the transposed and untransposed complex layouts hold the same modes. "
    "Out-of-place transforms leave the source unchanged, and conversions between field types preserve the field.",
    ["inputs", "schedules"], "mesh sizes, ranks, process meshes, precisions, in or out of place, layouts, sequences of conversions",
    "Every pair of layout and buffer reuse selects another plan, and a wrong normalisation or a destroyed input shows only for particular sequences.",
    PM, [("r2c", "pmesh/pm.py RealField.r2c"), ("c2r", "pmesh/pm.py BaseComplexField.c2r"), ("cast", "pmesh/pm.py Field.cast"), ("plans", "pmesh/pm.py ParticleMesh.__init__ make_duo")],
    "field values against a reference transform")

add("P04", "Setting one mode keeps the field Hermitian and is visible everywhere",
    "Setting a mode of a complex field by its global index stores the value, or its real or imaginary part, and the complex conjugate at the mirrored index, on whichever ranks hold them, and changes no other mode; self-conjugate modes keep a zero imaginary part. "
    "Reading a mode or a mesh point by global index returns the same value on every rank, also with negative indices. "
    "Setting returns the value the mode has afterwards, also in the half that the compressed layout does not store.",
    ["inputs", "schedules", "histories"], "mesh sizes, ranks, layouts, indices including negative and self-conjugate ones, sequences of sets and gets",
    "The mirrored mode may live on another rank or not be stored, and self-conjugate planes differ with odd or even sizes; tests cover a few indices of one mesh.",
    PM, [("access", "pmesh/pm.py Field._ctol, cgetitem, csetitem")], "values of all modes after a sequence of sets")

add("P05", "Ravelling gives the global C order and unravelling inverts it",
    "Ravelling a field concatenates, over ranks, to the field's values in global C order regardless of ranks, process mesh or memory layout, and unravelling such a sequence restores the field. "
    "This holds for real and both complex layouts, in place or into a given buffer, and the source is unchanged unless the operation is in place.",
    ["inputs", "schedules"], "mesh sizes, ranks, process meshes, field types, precisions, output buffers",
    "The order is a global permutation depending on every rank's place; a single mesh in a test cannot settle it.",
    PM, [("ravel", "pmesh/pm.py Field.ravel, unravel; ParticleMesh.unravel")], "flattened values over ranks")

add("P06", "Collective sums, norms and inner products count every mode once",
    "Sums, means, norms and inner products of fields equal those of the whole mesh on any number of ranks, and every rank receives the same result. "
    "For compressed complex fields they count each stored mode together with its conjugate exactly once, so that the inner product equals that of the real fields divided by the number of mesh points. "
    "A metric weighs each mode by the function of its wavenumber.",
    ["inputs", "schedules"], "mesh sizes odd and even, ranks, precisions, layouts, field values, metrics",
    "Weights of the self-conjugate planes differ between odd and even meshes and between ranks; tests use one even mesh.",
    PM, [("reductions", "pmesh/pm.py csum, cmean, RealField.cdot, BaseComplexField.cdot, cnorm, _expand_hermitian")], "results on every rank")

add("P07", "Applying a function visits every local point once with its coordinates",
    "Applying a function to a field calls it slab by slab so that each point is transformed exactly once with its own coordinates of the requested kind (position, index, wavenumber or circular frequency), on any rank and layout, and writes the result to the requested output only. "
    "The norm offered with the coordinates is the sum of the p-th powers of their components (the square of the length by default), with the zero mode replaced on request. "
    "Arithmetic on fields acts point by point, returns fields of the same kind, and leaves operands unchanged; in-place operators change the field itself, for all its names.",
    ["inputs", "schedules"], "mesh shapes, ranks, layouts, kinds, functions, output targets, arithmetic operations",
    "Slabs are cut along the slowest axis of an arbitrary memory layout; a coordinate mismatch shows only for non-cubic shapes and particular layouts.",
    PM, [("slabs", "pmesh/pm.py slabiter, xslabiter, xslab.normp"), ("apply", "pmesh/pm.py Field.apply"), ("ufunc", "pmesh/pm.py Field.__array_ufunc__")], "values after apply")

add("P08", "Fourier resampling keeps exactly the modes both meshes represent",
    "Resampling a field to another resolution of the same dimension copies every mode that both meshes represent below both Nyquist frequencies and sets the modes beyond either to zero, from and to real or complex fields. "
    "Hence upsampling followed by downsampling restores the field up to its Nyquist modes, and band-limited fields are interpolated exactly. "
    "The result is independent of ranks and always transforms to a real field; the source is unchanged.",
    ["inputs", "schedules"], "pairs of mesh sizes per side, ranks, field types, layouts, precisions",
    "The mode map is a per-axis index arithmetic over all pairs of sizes combined with a global exchange; tests use 8 and 4.",
    PM, [("resample", "pmesh/pm.py Field.resample"), ("indices", "pmesh/pm.py reindex, build_index")], "modes before and after")

add("P09", "Configuration-space resampling, preview and transposition are faithful",
    "Upsampling by reading out and downsampling by painting within the same box equal the same operations done on one process, conserve the mean or the total of constant fields as requested, and keep points that coincide. "
    "A preview returns on every rank the whole field, its projection onto the requested axes in the requested order, or a resampled version. "
    "Transposing a field permutes its axes, box and values accordingly.",
    ["inputs", "schedules"], "mesh sizes and ratios per axis, boxes, ranks, axes orders, windows, keep-mean flag",
    "Results must not depend on the rank layout for any ratio of sizes or permutation of axes; tests use one ratio of square meshes.",
    PM, [("upsample", "pmesh/pm.py ParticleMesh.upsample, downsample"), ("preview", "pmesh/pm.py Field.preview"), ("transpose", "pmesh/pm.py RealField.ctranspose")], "global values")

add("P10", "Forward and backward derivatives are transposes of each other",
    "For painting, reading out, the transforms and inner products, the Jacobian-vector product equals the derivative of the operation along the given direction, and the vector-Jacobian product is its transpose. "
    "Both hold with respect to positions, masses and fields, on any number of ranks, with layouts, and when writing into caller-supplied or in-place outputs.",
    ["inputs", "schedules"], "windows, positions, masses, fields, directions, mesh sizes, ranks, output modes",
    "Duality binds two separately coded functions over all inputs; tests check one configuration by finite difference.",
    PM, [("derivatives", "pmesh/pm.py readout_vjp, readout_jvp, paint_vjp, paint_jvp, c2r_vjp, r2c_vjp, cdot_vjp, decompress_vjp")], "inner products of both sides")

add("P11", "A mesh's white noise is the same on any number of ranks",
    "White noise generated through a particle mesh depends on seed, mesh and options only: every number of ranks, process mesh, storage layout and field type holds the same field, up to the transform for real fields. "
    "The requested mean is the field's mean, the real field is real, and a unitary field has unit amplitudes.",
    ["inputs", "schedules"], "seeds, mesh sizes, ranks, process meshes, layouts, precisions, means",
    "It is a relation between runs on different numbers of ranks and layouts; tests compare two.",
    PM + N, [("generate", "pmesh/pm.py ParticleMesh.generate_whitenoise")], "global modes")

add("P12", "Derived meshes and fields keep the geometry and share no state",
    "Reshaping or respawning a particle mesh gives one with exactly the requested resolution, box, dimension and communicator and otherwise the same settings, and it behaves as one made directly. "
    "Meshes that share cached plans, and fields created from or copied between them, stay independent: using or discarding one never changes another's values. "
    "A field created from values or cast to its own type holds an equal, separate copy unless memory reuse is requested.",
    ["histories", "schedules"], "sequences of creating, reshaping, copying, transforming and discarding meshes and fields, sub-communicators",
    "Aliasing and cache errors need particular sequences of creation and destruction of equal and different meshes.",
    PM, [("cache", "pmesh/pm.py _pm_cache, ParticleMesh.__init__"), ("derive", "pmesh/pm.py reshape, respawn, create, Field.copy, cast")], "values and attributes along a history")

add("P13", "Meshes come and go on each rank without using up communicators",
    "Particle meshes of equal shape, precision, process mesh and communicator that are alive together use the communicators of one, and meshes that are gone leave none behind, so any number can be made one after the other. "
    "Ranks may let go of meshes and their fields at different times and in any order, also by garbage collection: making and using meshes afterwards neither hangs nor fails, transforms are right, and a field keeps its mesh.",
    ["histories", "schedules"], "sequences of making, using, letting go of and collecting equal and different meshes, with ranks that let go before or after others",
    "The cache of plans is weak and each rank's collector runs at its own time; agreement on what can be shared matters only after particular histories.",
    PM, [("cache", "pmesh/pm.py _pm_cache, _pmtemplate, ParticleMesh.__init__"), ("field", "pmesh/pm.py Field.__init__")], "transforms and communicator handles along a history")

add("S01", "A simulation ends with the same particles on any number of ranks",
    "A particle-mesh simulation (white noise shaped in Fourier space; a uniform grid of particles displaced by it; steps that decompose the particles, paint them on the same or a finer mesh, interlaced or not, transform, deconvolve the window, take the force in Fourier space or from the gradient of the window, read it out, kick and drift) has, after every step, the density, positions and velocities that the same steps give in NumPy on one undivided mesh with the documented kernels, to rounding. "
    "This holds on any number of ranks and any process mesh, whichever rank holds which particle, whether particles leave the box or are wrapped back, stay on their rank or move; no particle and no mass is lost or doubled.",
    ["inputs", "schedules", "histories"], "meshes, ranks, process meshes, windows, noise, choices at every step, distribution of particles over the ranks",
    "The parts can each be right and still disagree on signs, units, offsets, normalisation, order of particles or the part of the mesh a rank holds; only the composition shows it, and tests compose few parts with one setting.",
    ["pmesh/pm.py", "pmesh/domain.py", "pmesh/window.py", "pmesh/whitenoise.py"],
    [("steps", "pmesh/pm.py ParticleMesh.decompose, paint, Field.apply, r2c, c2r, readout, resample, ravel"), ("particles", "pmesh/domain.py Layout.exchange, gather")], "density, positions and velocities after each step")

add("L01", "The legacy particle mesh pipeline is independent of ranks",
    "The legacy particle mesh paints, transforms, applies transfer functions, transforms back and reads out with the same result on any number of ranks as on one, conserving painted mass. "
    "Its forward and backward transforms invert each other, and saved states are restored exactly in last-in first-out order. "
    "Its coordinates are the global ones of each rank's part.",
    ["inputs", "schedules", "histories"], "mesh and box sizes, ranks, process meshes, positions, masses, sequences of push, pop, paint and transforms",
    "Rank independence and state restoration must hold over all particle placements and call sequences; the two existing tests sample one.",
    ["pmesh/particlemesh.py", "pmesh/cic.py", "pmesh/_cic.py", "pmesh/domain.py"],
    [("pipeline", "pmesh/particlemesh.py ParticleMesh.paint, r2c, transfer, c2r, readout"), ("state", "pmesh/particlemesh.py push, pop")], "global mesh, read-out values")

add("L02", "The standalone particle-mesh kernels weigh every mesh point right",
    "The standalone cloud-in-cell and triangular-shaped-cloud functions, and the painter for any kernel, give each mesh point the kernel-weighted sum of the particles' weights, in any dimension, for scalar and individual weights, any memory layout they accept and any number of particles; a fully periodic mesh receives exactly the total weight. "
    "Reading out is the transpose of painting. The compiled and the plain cloud-in-cell agree with each other and with the linear window of the main implementation. "
    "With a period, positions wrap; contributions beyond the mesh are dropped or refused as requested. The painter for any kernel divides by the kernel's integral in every dimension.",
    ["inputs"], "positions, weights scalar or per particle, mesh shapes, layouts and dimensions, periods, boundary modes, outputs, kernels",
    "Conservation and duality must hold at every position, including at and beyond the edges.",
    ["pmesh/cic.py", "pmesh/_cic.py", "pmesh/tsc.py", "pmesh/lanczos.py"],
    [("cic", "pmesh/cic.py paint, readout; pmesh/_cic.py"), ("tsc", "pmesh/tsc.py"), ("lanczos", "pmesh/lanczos.py")], "mesh and interpolated values")

add("L03", "Transfer functions, line integrals and rank helpers act as documented",
    "Each built-in transfer function multiplies every stored mode on every rank by its documented function of circular frequency and nothing else: normalising and removing the mean, dividing by the cloud-in-cell window, the Lanczos and the plain derivative, a Gaussian, a constant, the Laplacian and its inverse (zero for the mean). "
    "Line integral convolution adds to the texture at each mesh point its kernel-weighted integral along the line through the point, followed in steps of the vector field, all in pixels whatever the box; it changes no input and gives the same on any number of ranks. "
    "The rank-ordering helper runs its body one rank after the other, and the broadcasting helper calls the function on the root only and gives each rank its result.",
    ["inputs", "schedules"], "mesh sizes, ranks, modes, chains of transfer functions, vector fields, textures, kernels, windows, steps",
    "Each transfer is a function over all modes and slab shapes, and lines cross ranks anywhere; the only test of line integrals checks that the code runs.",
    ["pmesh/transfer.py", "pmesh/lic.py", "pmesh/tools.py"],
    [("transfer", "pmesh/transfer.py TransferFunction"), ("lic", "pmesh/lic.py lic"), ("tools", "pmesh/tools.py Rotator, FromRoot")], "modes before and after, image, order of calls")

add("A01", "Differentiable programmes carry exact forward and backward derivatives",
    "A programme of the differentiable engine, any chain of transforms, transfer functions, low-pass filters, painting, reading out, arithmetic, assignment of components, residuals and reduction to a scalar, yields the values of its statements, the same on any number of ranks. "
    "Its forward derivative is the directional derivative of those values, and its backward derivative is the transpose of the forward one with respect to every input; computing with a tape leaves the inputs as they were. "
    "The engine's vector space adds, multiplies and takes inner products of fields, modes (as pairs of real numbers), positions and values.",
    ["inputs", "schedules", "histories"], "programmes, meshes, ranks, number of particles, windows, transfer functions, directions",
    "Statements compose, share operands and work in place: an error in one derivative shows in particular sequences only, and the engine's own tests compare single chains in which it cancels.",
    ["pmesh/abopt.py"], [("engine", "pmesh/abopt.py ParticleMeshEngine"), ("vectors", "pmesh/abopt.py ParticleMeshVectorSpace")], "values, derivatives along random directions")

add("C01", "Co-arrays transfer what their images hold when they synchronise",
    "Assigning from another image of a co-array (a pull) or to one (a push) moves nothing until the co-array is synchronised. "
    "Synchronising with some or all images carries out exactly the pending transfers that involve them: each target gets the values its source holds at that moment, converted to the type of the co-array, whatever the shape, stride, size and number of transfers between any two images or within one. "
    "Other transfers stay pending for a later synchronisation, and nothing else is written.",
    ["histories", "schedules"], "co-arrays of several dimensions and types, sequences of pulls, pushes, local changes and synchronisations with subsets of images",
    "Messages of several transfers between the same images can be confused, and buffers overwritten while they are sent; this depends on the combination and the size.",
    ["pmesh/coarray.py"], [("sync", "pmesh/coarray.py coarray.sync, coameta"), ("ops", "pmesh/coarray.py Pull, Push")], "images before and after synchronisation")

import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
