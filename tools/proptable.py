# Executed by gen.py.  One prop(...) call per property.

prop("P01", "Rendered scene equals the analytic Gaussian-mixture image",
     "For any set of sources, exposures, bands, PSF mixtures and image geometries accepted by the "
     "fast (compiled) evaluator, the residual it returns for every real pixel is the data minus the sum over sources of "
     "the pixel-integrated, PSF-convolved, WCS-mapped Sersic-mixture image, as computed independently in double "
     "precision. Each exposure uses its own astrometry, flux calibration and its band's PSF mixture, each source its "
     "own flux in that band, and the result does not depend on how sources or exposures are ordered or on which other "
     "bands are present.",
     [I, C], "all scenes within the documented parameter ranges and kernel limits; all image sizes, WCS, PSF mixtures, numbers of bands/exposures/sources",
     "The demo scripts only render a handful of single-source stamps and assert nothing about pixel values.",
     ["forcepho/src/common_kernel.cc", "forcepho/src/compute_gaussians_kernel.cc", "forcepho/proposal.py",
      "forcepho/patches/patch.py", "forcepho/patches/pixel_patch.py", "forcepho/sources.py"],
     [("image gaussian creation and pixel evaluation", "forcepho/src/compute_gaussians_kernel.cc"),
      ("metadata packing of PSFs, astrometry, exposure offsets", "forcepho/patches/patch.py"),
      ("proposal packing", "forcepho/sources.py")],
     "Hypothesis-generated scenes; differential oracle against an independent double-precision mixture renderer, plus metamorphic permutation/subset relations",
     "Search over generated scenes, not a proof. Trusts astropy for the WCS and scipy for nothing else; float32 kernel compared with a stated relative tolerance.",
     ["residuals returned by the model for each exposure"])

prop("P02", "Likelihood value equals the pixel-wise chi-square of the model",
     "For any scene and data, the log-likelihood reported by the fast evaluator equals minus one half of the "
     "inverse-variance weighted sum over usable pixels of squared residual minus squared data, summed over bands and "
     "exposures. Masked and padding pixels contribute nothing to the value or to its derivatives, whatever numbers they hold.",
     [I, C], "all scenes, data arrays, uncertainty arrays, masks, pads, bands and exposures",
     "Existing tests never check a likelihood number; a wrong reduction only biases a fit.",
     ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/proposal.py", "forcepho/model.py", "forcepho/patches/pixel_patch.py"],
     [("per-band chi2 accumulation", "forcepho/src/compute_gaussians_kernel.cc"), ("log-likelihood assembly", "forcepho/model.py")],
     "Hypothesis-generated scenes and masks; oracle recomputes chi-square in double precision from the generated images",
     "Search; float32 accumulation tolerance stated in DESIGN.md.")

prop("P03", "Likelihood gradient is the derivative of the likelihood",
     "At any point in parameter space, the gradient returned with the log-likelihood equals the derivative of the "
     "analytic log-likelihood with respect to every source parameter: the flux in each band, right ascension, "
     "declination, axis ratio, position angle, Sersic index and half-light radius. This holds for multiple blended "
     "sources, several bands and exposures, and any PSF mixture.",
     [I, C], "all scenes and all parameters of all sources",
     "No test compares gradients with anything; HMC with a slightly wrong gradient still runs.",
     ["forcepho/src/common_kernel.cc", "forcepho/src/compute_gaussians_kernel.cc", "forcepho/sources.py", "forcepho/model.py"],
     [("image-gaussian to source-parameter Jacobian", "forcepho/src/compute_gaussians_kernel.cc"),
      ("amplitude derivatives", "forcepho/sources.py"), ("gradient stacking", "forcepho/model.py")],
     "Hypothesis-generated scenes; oracle differentiates the independent double-precision model with central differences",
     "Search; tolerance scaled by the sum of absolute pixel contributions to each derivative.")

prop("P04", "Posterior values and gradients are consistent for any call history",
     "Whatever sequence of value, gradient, value-and-gradient, negative-log-likelihood or residual calls is made, each "
     "call returns what a fresh model would return for the point it was given: prior plus likelihood, plus the "
     "log-volume factor of the transform exactly when sampling is enabled and never otherwise. The returned gradient is "
     "the derivative, with respect to the unconstrained coordinates, of the returned value.",
     [H, I], "all call sequences with repeated, revisited and perturbed points; with and without bounds, priors and sampling mode",
     "Caching bugs need particular interleavings of calls at equal and different points; the demos never compare values.",
     ["forcepho/model.py"],
     [("evaluation cache keyed on the parameter vector", "forcepho/model.py"), ("transform and volume correction", "forcepho/model.py")],
     "model-based stateful generation of call sequences against a cache-free reference posterior",
     "Search over generated call histories with synthetic likelihoods and the real kernel.")

prop("P05", "Bounded transform is a smooth bijection onto the open parameter box",
     "For any finite bounds, the map from unconstrained to bounded parameters is increasing, never leaves the bounds, and is undone by its inverse wherever the value is distinguishable from a bound; its reported Jacobian, log-determinant and log-determinant gradient are the true derivatives of that map, finite even for coordinates of magnitude 150, for any number of dimensions.",
     [I], "all bounds, dimensions and points, including points far in the tails",
     "Never tested; wrong volume factors silently bias posteriors.",
     ["forcepho/model.py"], [("sigmoid transform", "forcepho/model.py")],
     "Hypothesis-generated bounds and points; algebraic and numerical-derivative oracles",
     "Search; float64 tolerances.")

prop("P06", "Parameters never get mixed up between catalog, scene and vector",
     "Loading a catalog into a scene, reading or setting the scene's parameter vector, producing per-evaluation proposals and "
     "writing the scene back to a catalog preserve every source's fluxes in every band and every shape parameter, under any "
     "band subset or ordering, any source subset, any set of free shape parameters and any reference position. Catalog rows, vector slots, bounds and transforms refer "
     "to the same parameter throughout.",
     [I, C, H], "all catalogs, band lists, source types and sequences of set and get operations",
     "The tests use one or two sources in one band, where most permutations are invisible.",
     ["forcepho/sources.py", "forcepho/patches/patch.py", "forcepho/superscene.py", "forcepho/patches/device_patch.py"],
     [("scene and source parameter vectors", "forcepho/sources.py"), ("bounds vectors", "forcepho/superscene.py")],
     "Hypothesis-generated catalogs and set/get histories; round-trip and reference-model oracles",
     "Search.")

prop("P07", "Fixed-source subtraction is exact and independent of batching",
     "After fixed or extended sources have been removed from a patch, later likelihoods, gradients and residuals "
     "for the active sources equal those of the original data minus the fixed sources' images, no matter how many fixed sources there "
     "are, how they are split into batches, or in which order they come. The caller's catalogs and original images are unchanged, and rendering "
     "a scene returns that scene's model image for every exposure.",
     [I, H, C], "all fixed/active/big splits, batch limits and orders",
     "No test has fixed sources; batch boundaries need more sources than any demo uses.",
     ["forcepho/patches/device_patch.py", "forcepho/proposal.py", "forcepho/patches/patch.py"],
     [("scene blocks and device data swap", "forcepho/patches/device_patch.py")],
     "Hypothesis-generated splits; differential oracle against the independent renderer and metamorphic batch/order invariance",
     "Search; float32 tolerance.")

prop("P08", "Linear flux optimisation solves the weighted least-squares problem",
     "For fixed shapes, the flux optimiser returns for every band the fluxes that minimise the chi-square of the "
     "usable pixels, with a precision matrix equal to the design matrix's normal matrix, and the design "
     "matrix column of each source is that source's unit-flux image in that band. Sources are reported in catalog order, and fixed sources are "
     "accounted for before solving.",
     [I, C], "all scenes, bands, exposures, masks and fixed sources",
     "The optimise demo only plots; no value is asserted.",
     ["forcepho/fitting.py", "forcepho/patches/device_patch.py"],
     [("design matrix", "forcepho/patches/device_patch.py"), ("linear solve", "forcepho/fitting.py")],
     "Hypothesis-generated scenes; oracle solves the same weighted least squares in double precision on independently rendered images",
     "Search; tolerance from the conditioning of the generated problem.")

prop("P09", "A patch built from images holds exactly the usable pixels of its region",
     "A patch built from image files contains, for every requested band and every exposure into which a corner of the region's bounding box falls (or which the box surrounds), exactly the pixels that touch the region, each with its original coordinates, background-subtracted data value and inverse uncertainty (after any signal-to-noise override or cap). Pixels with invalid data or uncertainty, and padding, get zero weight and finite values. Exposures come in the requested band order; exposure and band bookkeeping describe the pixels exactly, and splitting a flat pixel array by exposure or band gives back each one's pixels. The same holds for patches given arrays directly.",
     [I, C], "all images, masks, invalid values, regions, exposure sets, band orders and limits",
     "The demos use one full image with no invalid pixels and a region covering everything.",
     ["forcepho/patches/patch.py", "forcepho/patches/pixel_patch.py"],
     [("pixel selection, masking and padding", "forcepho/patches/pixel_patch.py"), ("exposure bookkeeping", "forcepho/patches/patch.py")],
     "Hypothesis-generated FITS images and regions; oracle selects pixels by brute force with astropy WCS",
     "Search; pixels whose corner is within rounding of the region edge are excluded from the comparison.")

prop("P10", "The pixel store gives back every stored pixel unchanged",
     "Images ingested into the pixel store and read back, directly or through a store-backed patch, keep every pixel's value (after the requested background subtraction and flux calibration), inverse uncertainty and coordinates over any history of additions, replacements and reopenings: no pixel is lost, duplicated, moved to another block or mixed between bands or exposures; bad or masked pixels have zero weight and good ones keep theirs; wrongly sized images are refused; the caller's arrays are left alone. A store-backed patch holds exactly the blocks with a corner pixel inside the region.",
     [I, H, C], "all image shapes, block sizes, values, masks and sequences of additions and reopenings",
     "The pixel store has no tests at all.",
     ["forcepho/patches/storage.py", "forcepho/patches/pixel_patch.py", "forcepho/patches/patch.py"],
     [("super-pixel reshaping", "forcepho/patches/storage.py"), ("store-backed patch", "forcepho/patches/pixel_patch.py")],
     "Hypothesis-generated ingest histories; round-trip oracle per pixel and brute-force patch reference",
     "Search; image sides are multiples of the block size, as ingestion requires.")

prop("P11", "Metadata survives storage and finds every exposure covering a position",
     "Exposure headers written to and reloaded from the metadata store describe the same world coordinates for the same band and exposure, over any history of additions, replacements and reloads. Looking up a sky position returns, in the requested band order, exactly the exposures whose image covers it. Band and exposure identifiers derived from headers and file names are distinct for distinct files, and a PSF lookup returns the mixture tabulated nearest to the requested detector position in that band.",
     [I, H, C], "all exposure footprints, rotations, image shapes, bands, regions and write/reload histories",
     "No test exercises the metadata store.",
     ["forcepho/patches/storage.py", "forcepho/patches/pixel_patch.py"],
     [("header store and bounding-box lookup", "forcepho/patches/storage.py")],
     "Hypothesis-generated footprints and histories; oracle uses astropy WCS corners",
     "Search; lookups closer than rounding to an edge are skipped.")

prop("P12", "Scene check-out/check-in bookkeeping holds over any history",
     "Over any interleaving of patch check-outs, check-ins (including out of order) and failed check-outs, no source is ever active in two "
     "outstanding patches, active and fixed sets of a patch are disjoint, the set of outstanding sources is exactly the union of "
     "outstanding patches, and each source's iteration and patch counts equal what its completed patches contributed. "
     "Check-in changes exactly the checked-in sources' parameters, bounds and covariances and nothing else, and failed check-outs change nothing.",
     [H, I, S], "all histories of check-out and check-in over all catalogs and limits",
     "The demos check out at most one patch and never return patches out of order.",
     ["forcepho/superscene.py"],
     [("active/valid flags and counters", "forcepho/superscene.py"), ("patch selection", "forcepho/superscene.py")],
     "stateful model-based generation of check-out/check-in histories against a reference ledger",
     "Search over histories of bounded length on small catalogs.",
     ["source catalog columns", "returned active and fixed catalogs"])

prop("P13", "Grouped patches are friends-of-friends groups within the limits",
     "Friends-of-friends patches grow from the seed by linking sources whose influence radii overlap, contain the seed, never exceed "
     "the active-source limit, and (when not truncated by that limit) contain every source linked to an active member; "
     "fixed sources are exactly the other sources that overlap the patch. Group catalogs partition the sources into connected components. Fields on either side of RA=0 are no exception.",
     [I, C], "all source configurations, radii, buffers and limits",
     "Only meaningful for crowded configurations that no test builds.",
     ["forcepho/superscene.py"], [("linking and growth", "forcepho/superscene.py")],
     "Hypothesis-generated source fields; oracle computes overlaps and connected components by brute force",
     "Search, with fields of up to 300 sources and fields across RA=0; pairs whose separation is within rounding of the linking length are avoided.")

prop("P14", "Patch seeds are drawn from sources that still need work",
     "A patch seed chosen by the scene is never a source that is active in another outstanding patch while an idle one exists, under every weighting scheme and history. Seed weights are a normalised probability over the sources that follows the scheme's formula (fewer iterations so far means at least as likely), patch regions centre on the seed and respect the radius and count limits.",
     [H, I, C], "all catalogs, weighting schemes and outstanding sets",
     "Seed choice is random and only matters with outstanding patches; the demos have none.",
     ["forcepho/superscene.py"], [("seed weights", "forcepho/superscene.py"), ("circular scene growth", "forcepho/superscene.py")],
     "Hypothesis-generated histories; validity predicate on seeds, weights and regions",
     "Search.")

prop("P15", "Parameter bounds bracket the catalog values and apply to the right source",
     "Bounds derived from a catalog contain each source's position and fluxes, with positive width and the requested half-widths in position (per source if so given) and flux; shape bounds are the configured ranges. Converting bounds to vectors keeps parameter order and expresses positions relative to the reference, and adjusting bounds or clipping values after a fit leaves values inside their own source's bounds while changing none that already were.",
     [I, C], "all catalogs, band lists and bound settings",
     "The demos use default bounds on one or two sources.",
     ["forcepho/superscene.py"], [("bounds creation, checking and adjustment", "forcepho/superscene.py")],
     "Hypothesis-generated catalogs and settings; validity predicates and a reference computation",
     "Search.")

prop("P16", "Catalog ingestion keeps sources and makes them valid",
     "Reading a user catalog, from a FITS file or an array, keeps every source, in order, with its fluxes, positions and extra columns, fills missing bookkeeping columns with their defaults, clips out-of-range shape values (including position angles) to the supported ranges while leaving in-range ones alone; the position-angle converter gives an equivalent orientation within plus or minus pi/2.",
     [I, C], "all catalogs in file or array form, with any column order, extra columns, angles and out-of-range values",
     "The tests read one prepared catalog.",
     ["forcepho/superscene.py", "forcepho/utils/catalog.py"], [("catalog rectification", "forcepho/superscene.py")],
     "Hypothesis-generated catalogs written to FITS; oracle is a row-by-row reference conversion",
     "Search.")

prop("P17", "Saved fit results read back identically and map to the right source",
     "A fit result written to disk and read back gives the same chain, bounds, starting and fixed catalogs, statistics and metadata, and every per-source, "
     "per-band parameter extracted from it (samples, final or best-fit state) equals the corresponding slot of the sampled vector.",
     [I, C], "all chain shapes, numbers of sources and bands, shape-parameter lists, covariances, optional fields",
     "Tests write results but never read them back.",
     ["forcepho/fitting.py", "forcepho/utils/io.py", "forcepho/utils/chain.py"], [("result container and HDF5 mapping", "forcepho/fitting.py")],
     "Hypothesis-generated chains and catalogs; round-trip oracle through HDF5 plus index-arithmetic reference",
     "Search.")

prop("P18", "Residual files reconstruct the data, model and residual images",
     "The residual file written for a patch reproduces, for every exposure, the data and residual at each pixel's original coordinates and nothing elsewhere, "
     "and images assembled from one or several patches place every pixel where it came from without disturbing any other pixel.",
     [I, C], "all patches, exposures, image shapes and pixel subsets",
     "Tests write residual files but never verify them.",
     ["forcepho/utils/io.py", "forcepho/postprocess.py", "forcepho/patches/patch.py"], [("residual output", "forcepho/utils/io.py"), ("image assembly", "forcepho/postprocess.py")],
     "Hypothesis-generated patches; round-trip oracle through the residual file, plus FITS-header reference",
     "Search; float32 tolerance.")

prop("P19", "Run-level catalogs collect every patch result without loss or mix-up",
     "Catalogs assembled from many patch outputs contain each source's optimised values, uncertainties, posterior samples or summary exactly once, taken from that source's own patch, with rows matched "
     "to the input catalog and summary statistics computed from that source's own chain.",
     [I, H, C], "all partitions of sources into patches, orders, missing patches, chain lengths and bands",
     "There is no test of post-processing.",
     ["forcepho/postprocess.py", "forcepho/utils/catalog.py", "forcepho/utils/chain.py"], [("catalog assembly", "forcepho/postprocess.py")],
     "Hypothesis-generated runs on disk; oracle recomputes each row from the generating chains",
     "Search.")

prop("P20", "Command-line options override configuration files, which override defaults",
     "For any configuration file and any set of command-line options, every option given on the command line takes effect, every other option keeps its file value, "
     "and only remaining ones take their default; types, lists, paths and derived settings survive unchanged.",
     [I, C], "all config files, option subsets and spellings of options",
     "Precedence bugs appear only for specific combinations; no test parses options.",
     ["forcepho/config.py"], [("argument merging", "forcepho/config.py")],
     "Hypothesis-generated YAML files and argument lists; reference-model oracle",
     "Search.")

prop("P21", "Regions contain exactly the points of their shape",
     "A circular or rectangular region reports a pixel cell as inside exactly when one of its corners is geometrically inside the shape on the sky, for any image orientation; its bounding box is the tight box around the shape, in polygon order; and polygon overlap and polygon containment agree with exact geometry, independently of vertex order and direction.",
     [I], "all region shapes, positions, sizes, vertex orders and query points",
     "One doctest covers one pair of polygons.",
     ["forcepho/region.py"], [("region containment and overlap", "forcepho/region.py")],
     "Hypothesis-generated shapes and points; oracle is exact or high-margin geometry",
     "Search; points within rounding of an edge are excluded.")

prop("P22", "Local astrometry used for modelling matches the image WCS",
     "For any supported image WCS (tangent-plane, rotated, flipped, with SIP distortion; any declination up to 65 degrees; right ascension next to 0/360 included) and any source position near the image, the pixel position, scale matrices and sky-to-pixel derivatives packed for modelling equal those of the full WCS to first order around that source's position, for every exposure of every band and in each source's own slot, so that a source is drawn where the WCS puts it; pixel scales, sky/pixel conversions and their inverses agree with the WCS.",
     [I, C], "all WCS (projection, rotation, parity, distortion, declination), reference positions and source offsets",
     "Tests use one axis-aligned WCS at one declination.",
     ["forcepho/utils/wcs.py", "forcepho/patches/patch.py", "forcepho/patches/pixel_patch.py"], [("local linearisation", "forcepho/utils/wcs.py"), ("packed astrometry", "forcepho/patches/patch.py")],
     "Hypothesis-generated WCS; oracle differentiates astropy's full WCS numerically",
     "Search; tolerance from the second-order term.")

prop("P23", "Sersic profile amplitudes and their derivatives are exact",
     "For every Sersic index and half-light radius inside the tabulated range, a galaxy's mixture amplitudes interpolate the table (exactly at its nodes), its amplitude derivatives are the derivatives of those amplitudes, for any table and independently of other tables in use; with the shipped table half of the light falls within the half-light radius (to 0.2 percent), and the profile helper functions (enclosed fraction, Kron, isophotal radius, effective brightness) satisfy their defining integrals.",
     [I], "all Sersic indices, radii, fluxes and splines",
     "Nothing tests source objects directly.",
     ["forcepho/sources.py", "forcepho/utils/profile.py"], [("spline amplitudes", "forcepho/sources.py"), ("profile integrals", "forcepho/utils/profile.py")],
     "Hypothesis-generated shapes; oracles are numerical derivatives, quadrature and an independently fitted spline",
     "Search.")

prop("P24", "The slow reference implementation agrees with analytic mixtures",
     "The pure-Python image gaussians, rendered scenes, likelihood and parameter gradients agree with an independent double-precision evaluation of the same mixture model for every stamp, source type (star, simple, Sersic, conformal-shear) and PSF mixture, and with the compiled evaluator; PSF mixtures read from files describe the stored gaussians, and stamps map sky to pixels as their WCS does.",
     [I, C], "all stamps, WCS, sources and PSFs",
     "Only two-by-two helper doctests and one demo run exist.",
     ["forcepho/slow/gaussmodel.py", "forcepho/slow/likelihood.py", "forcepho/slow/psf.py", "forcepho/slow/stamp.py"],
     [("gaussian image gradients", "forcepho/slow/gaussmodel.py"), ("likelihood loops", "forcepho/slow/likelihood.py")],
     "Hypothesis-generated scenes; differential oracle against numpy and numerical derivatives",
     "Search.")

prop("P25", "Optimisers and samplers stay in bounds and report what they evaluated",
     "Optimisation and sampling results always lie inside the bounds; an optimum is at least as good as its start and its reported log-probability is the model's at that point; every chain row's log-probability equals the model's at that row, step and call counts match the request, runs repeat exactly for the same random seed, and results filled from a chain hold each source's own values in sky coordinates.",
     [I, C, H], "all scenes, bounds, starting points, seeds and chain lengths",
     "The demos run single fits without checking the chains.",
     ["forcepho/fitting.py", "forcepho/tasks.py", "forcepho/model.py"], [("sampling driver", "forcepho/fitting.py"), ("optimisation driver", "forcepho/fitting.py")],
     "Hypothesis-generated small posteriors; validity predicates and re-evaluation oracle",
     "Search with short chains.")

prop("P26", "The parallel work queue neither loses nor duplicates patches",
     "For any number of workers and any completion order, every submitted task goes to exactly one idle worker, every result is collected exactly once and paired with the task and worker that produced it, the numbers of busy and idle workers always add up, and shutdown reaches every worker once. The parent loop checks every completed result, including stragglers, back into the scene exactly once, hands out tasks with the scene's latest parameters and covariances, and logs each under its own task.",
     [S, H], "all interleavings of submissions and completions over any number of workers",
     "Needs schedules; no test touches the dispatcher.",
     ["forcepho/dispatcher.py"], [("MPI queue", "forcepho/dispatcher.py")],
     "stateful generation with a simulated communicator that owns the completion schedule, against a reference ledger",
     "Search over simulated schedules.")

prop("P27", "The compiled evaluator is memory safe, deterministic and side-effect free",
     "For every patch and proposal within the declared limits, the compiled evaluator reads and writes only memory it owns (also after other arrays have been released), gives bit-identical results for identical inputs whatever was evaluated before and whatever memory initially contained, does not modify its inputs, and does not accumulate memory over repeated evaluations. Patches beyond the declared limits are refused with an error instead of being evaluated.",
     [I, H, C], "all patch shapes, source/PSF/band/exposure counts up to the limits, and evaluation histories",
     "Out-of-bounds reads pass silently in an ordinary build.",
     ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/patch.cc", "forcepho/proposal.py"],
     [("buffer indexing", "forcepho/src/compute_gaussians_kernel.cc")],
     "sanitizer-instrumented kernel driven by generated patches and histories, with determinism and input-hash oracles",
     "Search with AddressSanitizer/UBSan builds of the working tree's kernel.")

prop("P28", "Scene checkpoints preserve the full state",
     "Writing the scene to disk and rebuilding it from the written files gives the same sources in order with the same parameters, iteration and patch counts, and the same log of patches and their sources, after any history of check-ins, failed check-ins and resets; a restarted scene has no outstanding patches and bounds that contain the restored values.",
     [H, K, C], "all histories and write points",
     "Nothing reads checkpoints back.",
     ["forcepho/superscene.py"], [("state write-out", "forcepho/superscene.py")],
     "stateful histories with write/reload at generated points; round-trip oracle",
     "Search.")

prop("P29", "Prior functions and their gradients agree",
     "Every prior on bounded parameters returns its log-density, summed over parameters and with a gradient equal to the derivative of that log-density everywhere strictly inside the bounds, "
     "symmetrically about the centre of the range, and truncated random draws stay within their limits.",
     [I], "all bounds, exponents and points",
     "No asserting test exists.",
     ["forcepho/priors.py"], [("prior evaluation", "forcepho/priors.py")],
     "Hypothesis-generated bounds and points; numerical-derivative and symmetry oracles",
     "Search.")

prop("P30", "Catalog and chain utilities preserve and align their data",
     "Combining, converting and summarising catalogs and chains keeps every row and value: percentiles equal those of each source's own draws, matched and appended catalogs keep row identity, "
     "and covariance blocks belong to the right source.",
     [I], "all catalogs, chains and block sizes",
     "No tests.",
     ["forcepho/utils/chain.py", "forcepho/utils/catalog.py", "forcepho/utils/__init__.py"], [("chain and catalog helpers", "forcepho/utils/chain.py")],
     "Hypothesis-generated tables; reference computations",
     "Search.")

prop("P31", "Mixture fits to images conserve flux and moments and match their parameters",
     "An EM Gaussian-mixture fit of a positive image returns, for every requested repeat, non-negative amplitudes that sum to one, a mixture whose centroid and second moments equal the image's, a likelihood that is the mixture's own and that further updates do not lower, and a reconstructed image and residual equal to those of its reported parameters; the best answer is the one with the smallest residual; written PSF tables describe the same mixture relative to the image centre in detector pixels; Sersic mixture tables hold unit-flux rows for each index and radius.",
     [I, C], "all images, component counts and random starts",
     "No tests.",
     ["forcepho/mixtures/psf_mix_em.py", "forcepho/slow/psf.py"], [("EM updates", "forcepho/mixtures/psf_mix_em.py")],
     "Hypothesis-generated images and starts; exact EM moment-conservation oracle",
     "Search; images large enough that component truncation is not an issue for the identities used.")

prop("P32", "Region files show sources and patches where and as the model has them",
     "Region lists and ds9 files made from a catalog, a run or its patches contain one shape per source or patch, in order, at its own position: an ellipse whose axes are the requested "
     "radius scaled by the axis ratio and whose major axis points along the source's position angle on any image of the sky, labelled with the source's own identifier, or a circle with "
     "the patch's own centre and radius. Isophotal radii are those of the source's Sersic profile, with the half-light radius where the isophote is never reached.",
     [I, C], "all catalogs, positions on the sky, shapes, isophotes, identifiers and numbers of patches",
     "Nothing reads a region file back.",
     ["forcepho/utils/ds9.py", "forcepho/postprocess.py", "forcepho/utils/profile.py"], [("catalog to ellipses", "forcepho/utils/ds9.py"), ("region files of a run", "forcepho/postprocess.py")],
     "Hypothesis-generated catalogs; files read back with the regions package and drawn on generated images; directions from numerically differentiated world coordinates",
     "Search. Trusts the regions package for the meaning of a region file.")

prop("P33", "The GPU backend gives the CPU backend's results under any thread schedule",
     "With patches on the GPU, the per-band chi-square, its derivatives, the residual images, the subtraction of fixed sources and the solved fluxes equal those of the CPU backend and of "
     "the model to rounding, for any order in which the threads of a block run between barriers, any block size that is a multiple of the warp size and any band and exposure layout; "
     "the arrays on the device and the struct that points at them are those of the patch after every upload, metadata replacement and swap; kernels write nowhere else, "
     "every thread reaches every barrier, and freeing a patch releases its device memory.",
     [I, S], "all scenes, block sizes, thread schedules and sequences of uploads, swaps and evaluations",
     "No GPU is needed by any test, so none of this code runs in them.",
     ["forcepho/src/compute_gaussians_kernel.cu", "forcepho/src/proposal.cu", "forcepho/proposal.py", "forcepho/patches/device_patch.py", "forcepho/patches/patch.py"],
     [("kernel", "forcepho/src/compute_gaussians_kernel.cu"), ("device memory", "forcepho/patches/device_patch.py"), ("launch", "forcepho/proposal.py")],
     "the .cu kernel compiled for the host and run as fibers under generated thread schedules with guarded device and shared memory; differential against the CPU kernel and the reference model",
     "Search over schedules at barrier and warp-operation granularity. Emulated device: no claims about real hardware precision, compilation by nvcc, or races inside code without barriers "
     "beyond what running the threads in different orders shows.")
