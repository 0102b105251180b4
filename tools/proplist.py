prop(
    "C01", "Public operations leave the objects given to them unchanged",
    "No public function or method writes into an array, list, dictionary or other "
    "mutable object that the caller passed as an argument, whether directly, through a "
    "view of it, or through another function it calls; the only exceptions are the "
    "in-place updates that the documentation announces. An object that keeps a "
    "caller's array (for example a raster built from an array, or cameras given to an "
    "optimizer as matches) never writes into that array later: it replaces its own "
    "reference instead.",
    ["inputs", "configurations"],
    "every public function and method, every argument of a mutable type (array of any "
    "shape, list, dictionary, object), every combination of options",
    "A test sees only whether one array was modified for one combination of options; "
    "aliasing depends on option values, array layout (view or copy) and call order.",
    ["helpers.py", "camera.py", "raster.py", "image.py", "optimize.py", "exif.py",
     "svg.py", "track/motion.py", "track/observer.py", "track/tracker.py",
     "track/tracks.py", "convert/converter.py"],
    [("defensive copies before in-place arithmetic", "src/glimpse/camera.py, "
      "src/glimpse/helpers.py, src/glimpse/raster.py, src/glimpse/track/observer.py"),
     ("documented in-place update of particles", "Motion.evolve_particles"),
     ("documented in-place update of an array", "helpers.rasterize_points")],
    technique="interprocedural alias and effect analysis of the syntax tree "
    "(flow-sensitive, with views, closures and virtual calls resolved)",
    note="Decides the property for every public function on every path of the analysed "
    "source, up to the tabulated behaviour of numpy/scipy/cv2 functions; user callbacks "
    "are not analysed; lazily filled caches are exempt.")

prop(
    "C02", "Reading from an object does not change it",
    "A public query (projecting points, sampling a raster, predicting or measuring "
    "image points, rendering, exporting, comparing, copying...) leaves the observable "
    "state of the object it is called on, and of module-level state, as it was; only "
    "internal caches may be filled. An operation that is meant to change its object "
    "(resize, shift, crop, reset, fit...) changes the state it is documented to change "
    "and nothing else.",
    ["inputs", "histories", "configurations"],
    "every public method of every class, every argument value, every sequence of calls",
    "Tests compare a result once after one call; that a query leaves the state alone in "
    "every option combination and call history is a statement about all paths.",
    ["camera.py", "raster.py", "image.py", "optimize.py", "svg.py", "exif.py",
     "track/observer.py", "track/tracker.py", "track/tracks.py", "track/motion.py",
     "convert/converter.py"],
    [("in-place operations are confined to the mutating methods", "src/glimpse/*.py"),
     ("temporary camera changes are made on copies", "src/glimpse/optimize.py")],
    technique="interprocedural effect analysis: write sets of every public method "
    "against a table of documented mutators",
    note="Decides for every path of every public method which state it may write. "
    "Restored temporary changes are the subject of C03.")

prop(
    "C04", "Copies and saved states are independent of the object they came from",
    "A copy, an exported vector or dictionary, and a derived raster (sample, gradient, "
    "rasterization) share no mutable array with the object they were made from, so "
    "changing one never changes the other. States saved for later (the original camera "
    "parameters that a reset restores, the image size and position a set of control "
    "points was measured at, the initial camera parameters of an optimization) do not "
    "follow later changes of the live camera.",
    ["inputs", "histories"],
    "every copy or saved state and every later in-place or attribute change of either "
    "side",
    "Whether two arrays share memory shows only when a later in-place change happens to "
    "touch the shared one; tests compare values right after copying.",
    ["camera.py", "raster.py", "optimize.py"],
    [("Camera.copy / reset", "src/glimpse/camera.py"),
     ("Grid.copy, Raster.copy", "src/glimpse/raster.py"),
     ("saved camera state of Points, Lines, Matches, Cameras",
      "src/glimpse/optimize.py")],
    technique="interprocedural points-to analysis: intersection of the locations "
    "reachable from the copy and from the live object",
    note="Decides may-alias between the copy (or saved state) and the live object on "
    "all paths, with numpy's view/copy rules tabulated.")

VG = ("gated value graph of the syntax tree (gated single assignment, interprocedural, "
      "arrays of symbolic length) and global value numbering, with value numbers "
      "compared by random interpretation")
VGN = ("Decides equality of the function computed by the source with the documented "
       "function, over the reals, for all inputs of the stated domain up to the error "
       "probability of random interpretation; numpy functions are tabulated. ")
VGW = ("A test compares a few numbers for a few option values; agreement for every "
       "input and every combination of options is a statement about the function.")

prop(
    "C06", "World points project to image points by the documented camera model",
    "For every camera and every world point or ray direction, Camera.xyz_to_uv returns "
    "the point given by the documented model: subtract the camera position and apply the "
    "earth-curvature and refraction correction (both for absolute coordinates only, and "
    "the correction only if the camera has one, with the given or default radius and "
    "refraction), rotate, divide by the depth along the optical axis, apply radial (k1 to "
    "k6) and tangential (p1, p2) distortion, scale by the focal length and add the image "
    "center and principal point offset. Points with a depth that is not positive are "
    "NaN; the optional depth is the distance along the optical axis; Camera.infront is "
    "true exactly where that depth (without correction) is positive; Camera.inframe is "
    "true exactly where both coordinates lie within zero and the image size, bounds "
    "included. The matrix backend (config.matmul) does not change any result.",
    ["inputs", "configurations"],
    "every camera (position, view direction, size, focal length, principal point, every "
    "pattern of zero and nonzero distortion coefficients, correction off, default or "
    "custom), every number of points, every option",
    VGW, ["camera.py", "helpers.py", "config.py"],
    [("projection", "Camera.xyz_to_uv, Camera.infront, Camera.inframe"),
     ("elevation correction", "helpers.elevation_corrections")],
    technique=VG, note=VGN + "Floating-point rounding is not considered.")

prop(
    "C07", "Image points project back to the world points they came from",
    "Camera.uv_to_xyz is the inverse of the camera model: for a distortion-free camera it "
    "returns, for every image point, the ray (or, with directions=False, the absolute "
    "point) at the given depth along the optical axis, whether the depth is one number or "
    "one per point. Projecting the result with Camera.xyz_to_uv returns the image point, "
    "and unprojecting a projected point in front of the camera returns its ray: exactly "
    "for first-order radial distortion (only k1, of either sign, anywhere in the image "
    "including the image axes and center), and for small general distortion. "
    "Camera.xyz_to_spherical and Camera.spherical_to_xyz follow the documented angles "
    "(azimuth clockwise from north in [0, 360), altitude above the horizon, distance from "
    "the camera) and invert each other. Camera.reversible tells whether image coordinates "
    "increase along the central row and column.",
    ["inputs", "configurations"],
    "every distortion-free camera and image point; every k1 in the range where the model "
    "is reversible; every combination of small distortion coefficients; relative and "
    "absolute coordinates",
    VGW, ["camera.py"],
    [("inverse projection", "Camera.uv_to_xyz"),
     ("spherical coordinates", "Camera.xyz_to_spherical, Camera.spherical_to_xyz")],
    technique=VG, note=VGN + "Convergence of the iterative undistortion for large "
    "coefficients is a numerical question and not claimed.")

prop(
    "C08", "Camera rotation and its derivative follow the view direction",
    "Camera.R is the rotation matrix of the current view direction for every yaw, pitch "
    "and roll: its rows are the camera's right, down and optical axis in world axes "
    "(yaw clockwise from north, pitch up from the horizon, roll about the optical axis, "
    "positive down on the right as seen from behind), it is orthonormal with determinant "
    "one, and it follows later changes of the view direction. Camera.Rprime[j, k, i] is "
    "the derivative of Camera.R[i, j] with respect to view angle k in degrees.",
    ["inputs", "histories"],
    "every view direction, and every change of it",
    VGW, ["camera.py"], [("rotation", "Camera.R, Camera.Rprime")],
    technique=VG + "; the derivative is computed by differentiating the value graph",
    note=VGN)

prop(
    "C09", "Camera parameters, units, resizing and resetting are consistent",
    "A camera stores every parameter as given (a single number applies to both axes, "
    "missing trailing coefficients are zero, position, view direction, principal point "
    "and distortion default to zero); assigning one parameter changes no other; "
    "Camera.to_array and Camera.to_dict list xyz, viewdir, imgsz, f, c, k, p in this "
    "order. Focal length and principal point in millimetres equal those in pixels times "
    "sensor size over image size, in the constructor, the properties and the setters. "
    "Camera.resize scales image size, focal length and principal point by the same "
    "factor, always relative to the original image size however often it is called, and "
    "changes nothing else; with a target size it keeps the aspect ratio unless forced. "
    "Camera.reset restores all parameters to those at construction, or at copying for a "
    "copy; Camera.idealize zeroes k, p and c only. Missing focal length, millimetres "
    "without sensor size, both units at once and fractional image sizes are rejected.",
    ["inputs", "configurations", "histories"],
    "every parameter value, every combination of constructor arguments, sequences of "
    "assignments, resizes, copies and resets",
    VGW, ["camera.py", "helpers.py"],
    [("parameters", "Camera.__init__, properties and setters"),
     ("resizing", "Camera.resize, helpers.get_scale_from_size"),
     ("reset", "Camera.reset, Camera.copy, Camera.idealize")],
    technique=VG, note=VGN)

prop(
    "C10", "Image frames, boxes, grids, lines and bins are computed exactly",
    "Camera.edges lists the image border clockwise from the origin at the given step, "
    "without repeating corners; Camera.grid and helpers.box_to_grid list exactly the "
    "points snap + i * step inside the box, x varying fastest, in the requested format; "
    "Camera.viewbox is the bounding box of the camera position and the border projected "
    "to the given depth; Camera.viewpoly is the camera position, the two ends of the row "
    "through the principal point at that depth, and the camera position again. Box "
    "helpers agree on (minima, maxima): membership includes the bounds, intersection is "
    "the largest minimum and smallest maximum and is rejected if empty. Points along a "
    "line are interpolated at the requested distances, whichever way the distances run, "
    "and distances outside the line are rejected or filled as requested. Gridding points "
    "(helpers.rasterize_points, Camera.rasterize) gives each cell the mean of the values "
    "that fall in it and leaves the other cells as they were; points outside the image "
    "are ignored.",
    ["inputs", "configurations"],
    "every camera, depth, box, value and option; frame and grid sizes are enumerated",
    VGW, ["camera.py", "helpers.py"],
    [("frame", "Camera.edges, grid, viewbox, viewpoly, rasterize"),
     ("boxes and grids", "helpers.in_box, intersect_boxes, bounding_box, box_to_polygon, "
      "box_to_grid, grid_to_points"),
     ("lines and bins", "helpers.interpolate_line, rasterize_points, "
      "pairwise_distance, sorted_nearest")],
    technique=VG, note=VGN + "Sizes of grids and frames are enumerated, not quantified.")

prop(
    "C11", "Grid and raster coordinates, indices and subsets agree",
    "For every grid or raster, whichever way its axes run: cell size, extent and "
    "cell-center coordinates follow from limits and size; map coordinates, image "
    "coordinates, (row, column) indices and flat indices convert into each other exactly "
    "and in the documented axis order, with integer indices at cell centers; bounds "
    "tests include the bounds; snapping returns the nearest cell center or edge, with "
    "points on the far bounds in the last cell when requested. Limits, center vectors "
    "and coordinate matrices given to the constructor describe the same grid, and "
    "malformed ones are rejected. Cropping and indexing return exactly the cells that "
    "the limits or slices touch, with matching limits, and tiles cover the grid with "
    "exactly the requested overlap. What is derived from a grid or raster (copies, grids "
    "and subsets of it, resampled and resized versions) keeps its coordinate system and "
    "time.",
    ["inputs", "configurations"],
    "every limits, size, axis direction, point and index; subset and tile layouts are "
    "enumerated",
    VGW, ["raster.py"],
    [("coordinates", "Grid attributes"),
     ("conversions", "Grid.xyz_to_uv, uv_to_xyz, rowcol_to_xy, xy_to_rowcol, "
      "rowcol_to_idx, idx_to_rowcol, inbounds, inbounds_xy"),
     ("snapping", "Grid.snap_xy"),
     ("subsets", "Grid.crop_extent, tile_indices, Raster.__getitem__, crop")],
    technique=VG, note=VGN + "Sizes of subsets and tiles are enumerated.")

prop(
    "C05", "Grids and rasters have no memory of what was asked of them before",
    "After any change of a grid or raster (setting its limits, size or values, shift, "
    "resize, crop, crop_to_data, resample, fill operations), every attribute and query "
    "answers as a freshly built object with the same limits and values would, whatever "
    "was asked of it before the change; nothing computed earlier (coordinates, "
    "coordinate matrices, interpolators) survives a change that makes it stale. Copies "
    "and subsets follow neither later changes of their source nor the reverse.",
    ["histories", "inputs"],
    "every change after every set of earlier queries, for every limits, values and "
    "arguments",
    "A stale cache shows only for the right order of query, change and query; tests "
    "build a new object for each assertion.",
    ["raster.py"],
    [("lazy coordinates", "Grid.x, y, X, Y"), ("lazy interpolators", "Raster.Zf"),
     ("changes", "Grid setters, Grid.shift, resize, set_projected..., Raster.crop, "
      "crop_to_data, resample, shift, resize, fill_crevasses, fill_circle")],
    technique="value graphs of call histories compared with those of fresh objects "
    "(translation-validation style equivalence by global value numbering)",
    note=VGN + "Histories are: one set of queries, one change, every query.")

prop(
    "C12", "Raster samples, gradients and illumination follow the cell values",
    "A sample of a raster is the bilinear (order 1, default) or nearest (order 0) "
    "interpolation of the values at the cell centers, extrapolated in the outer half "
    "cells, for either direction of each axis and for single rows, columns and cells. "
    "Samples on a grid equal the samples at its points, with rows following y and "
    "columns following x in the order given. Points outside the bounds are rejected by "
    "default and otherwise filled (NaN by default) or, point by point, extrapolated; "
    "points on the bounds are inside. Resampling takes the samples at the other grid's "
    "cell centers together with its limits. Samples to which missing cells contribute are "
    "missing, and no others. Gradients are along +x and +y and hillshade "
    "azimuths are map directions whichever way the axes run. Value limits, data extent, "
    "cropping to data and the 3D box describe the non-missing values.",
    ["inputs", "configurations"],
    "every cell value, limits, axis direction, point and option; raster sizes are "
    "enumerated up to 4 x 3 cells",
    VGW, ["raster.py"],
    [("samples", "Raster.sample"), ("resampling", "Raster.resample"),
     ("surface", "Raster.gradient, Raster.hillshade"),
     ("values", "Raster.zlim, box3d, grid, data_extent, crop_to_data")],
    technique=VG, note=VGN + "Interpolators of order above 1 are computed for known "
    "cell values and uninterpreted functions of unknown ones.")

prop(
    "C15", "Particle motion follows the documented models in the documented units",
    "For every motion model: initial particles are the given mean plus the given "
    "standard deviation times independent standard normal draws, in position and "
    "velocity (radial speed and heading converted to components for the cylindrical "
    "models), at the height of the surface there plus its uncertainty times a draw. A "
    "time step, forward or backward and measured in time units of the model, moves "
    "particles by v t + a t^2 / 2 and changes their velocity by a t, with a the mean plus "
    "standard deviation times a draw (radial and angular acceleration converted at the "
    "current heading; a particle at rest stays finite); tangent models instead keep the "
    "relative height above the surface, adjusted by the slope deviation times a draw "
    "times the horizontal distance moved. Particles are evolved in place. The log "
    "likelihood of the Cartesian and cylindrical models is the squared height above the "
    "surface over twice its variance, zero where the variance is zero, and absent "
    "without uncertainty. Surfaces and uncertainties may be rasters or constants, which "
    "apply everywhere.",
    ["inputs", "configurations"],
    "every number of particles, mean, deviation, time unit, time step of either sign, "
    "surface (raster values and constants) and draw",
    "No test runs a motion model; results are random, so only a statement about the "
    "formula as a function of the draws can be exact.",
    ["track/motion.py"],
    [("initial particles", "initialize_particles of each model"),
     ("evolution", "evolve_particles of each model"),
     ("surface likelihood", "CartesianMotion.compute_log_likelihoods")],
    technique=VG, note=VGN + "Normal draws are free inputs, matched by shape.")

prop(
    "C13", "The particle filter weighs, resamples and reports particles as documented",
    "Tracker: the particle mean, covariance and standard deviation are weighted by the "
    "particle weights. Weights become exp(-sum of log likelihoods) over the observers "
    "that see the particles and the motion model, and stay as they are when nothing is "
    "informative. An observer's log likelihood is the mean squared difference between "
    "its template and its search tile (gray, normalized, histogram-matched to the "
    "template, high-passed) sampled at the projected particle, over 2 sigma^2; None "
    "without an image or when the search tile leaves the image. Templates are centered "
    "on the particle mean of the first image of each observer, with the subpixel offset "
    "kept. Systematic, stratified, residual and choice resampling select particles and "
    "weights together, in proportion to the weights, given their draws. Tracking runs "
    "from the first to the last observed time, evolving by the time between them "
    "(forward or backward), records statistics (and particles, if asked for) at each "
    "time and NaN elsewhere, honors observer masks, matches images to times within "
    "maxdt, drops duplicate and unmatched times, and rejects times that are not "
    "monotonic, motion models of unequal time units, and missing or non-visible "
    "particles (recorded as errors when tracking several).",
    ["inputs", "configurations", "histories"],
    "every particle, weight, draw, likelihood, pixel value and time difference; up to 3 "
    "particles and 4 times, 3 observers and 3 motion models",
    "No test tracks anything; results are random, so only statements about the value as "
    "a function of the draws can be exact.",
    ["track/tracker.py", "track/observer.py"],
    [("moments and weights", "Tracker.particle_mean, update_weights"),
     ("resampling", "Tracker.resample_particles"),
     ("times", "Tracker.datetimes, parse_datetimes, match_datetimes"),
     ("likelihood", "Tracker.compute_observer_log_likelihoods"),
     ("tracking", "Tracker.track")],
    technique=VG, note=VGN + "Random draws are free inputs. Images and motion models are "
    "replaced by symbolic stand-ins.")

prop(
    "C14", "Observers, their subsets and tiles, datetime selection, and track results",
    "An observer has two or more images, all dated, in strictly increasing time. An image "
    "is found by identity and a datetime by the nearest image, if within the tolerance "
    "(otherwise a ValueError). Tile boxes are whole pixels of the requested size nearest "
    "to the point, inside the image; tiles are read with the caching of the observer; "
    "shifted and sampled tiles are the interpolation of the tile at the shifted or "
    "sampled image coordinates (cell centers, any cell size), and sampling or shifting "
    "too far is rejected. Caching and clearing affect exactly the images asked for. "
    "Subsets hold the images of the closed interval, and splits hold consecutive "
    "intervals that together hold every image, with the requested overlap, each with the "
    "uncertainty and caching of the observer. Selecting datetimes keeps those in the "
    "interval nearest to the multiples of the step (since 1970, by default), within the tolerance; distances "
    "between datetimes do not depend on the local time zone. Tracks report positions, "
    "velocities, their standard deviations (from sigmas or covariances), success and the "
    "first and last observed times of each selected track.",
    ["inputs", "configurations"],
    "every datetime spacing, tolerance, pixel value, shift, tile position and cell size "
    "for up to 8 images; tracks of every start and end over 4 times, with gaps",
    "Only a doctest of Observer.tile_box exists; tests in one time zone with regular "
    "times cannot see rounding of intervals, daylight saving or off-by-one splits.",
    ["track/observer.py", "track/tracks.py", "helpers.py"],
    [("images and times", "Observer.index, subset, split"),
     ("tiles", "Observer.tile_box, extract_tile, shift_tile, sample_tile"),
     ("datetimes", "helpers.select_datetimes, pairwise_distance_datetimes"),
     ("tracks", "Tracks.xyz, endpoints")],
    technique=VG, note=VGN + "Local clocks are modelled as an offset that changes in "
    "time. Interpolators of order above 1 are computed for known pixels and uninterpreted "
    "functions of unknown ones.")

prop(
    "C16", "Control points and matches are observed, predicted, filtered and resized right",
    "Points observe their image coordinates and predict the projection of their world "
    "coordinates by the current camera, for any selection, and Lines observe theirs; "
    "ray directions require the camera to stay where it was. Matches (and their forms "
    "with pre-computed camera coordinates: RotationMatches, RotationMatchesXY, "
    "RotationMatchesXYZ) predict in either camera, given by index or object, the "
    "projection of the ray through the other camera's point (as image coordinates, "
    "camera coordinates or unit rays), whether built from image or camera coordinates. "
    "Unequal or mismatched numbers of points, cameras at different positions, or two "
    "equal cameras are rejected, as are changes of position, or of internal parameters "
    "for the pre-computed forms. Image coordinates follow the image size of their "
    "cameras exactly once, however often resize is called. A filter keeps exactly the "
    "matches that meet every criterion (n best, minimum weight, maximum error or "
    "distance, in pixels or relative to image size), in all coordinates and weights "
    "alike, also when applied in turn. Converting between types keeps cameras, "
    "coordinates and weights.",
    ["inputs", "configurations"],
    "every image point, world point, weight and camera of each form; 4 or 5 matches",
    "Tests run none of these classes on more than a fixed example; whether the arrays of "
    "a match stay aligned depends on the history of filters.",
    ["optimize.py"],
    [("points", "Points.predicted, Lines.observed"),
     ("matches", "Matches.predicted, RotationMatches.predicted, RotationMatchesXYZ"),
     ("filter", "Matches.filter"), ("resize", "Points.resize, Matches.resize"),
     ("types", "Matches.to_type, RotationMatches.to_type")],
    technique=VG, note=VGN + "Filters are decided for distances of known order.")

prop(
    "C17", "Camera optimization reads, writes and weighs camera parameters consistently",
    "Cameras.parse_params selects parameters by name and index, with bounds expanded, "
    "replaced by defaults where missing, or open. The parameters of a Cameras model are "
    "those of the groups, then those of each camera, in the order of the camera vector; "
    "they start at the camera values (their mean in a group), within the given or "
    "default bounds. set_cameras writes a value into exactly the element of each camera "
    "it belongs to (of every camera of a group), and reset_cameras restores the saved "
    "state. Observed and predicted points follow the controls in order, for any "
    "selection; residuals are weighted by weights of mean one; predicting for given "
    "parameters leaves the cameras as they were. Scale factors are the changes of each "
    "parameter per pixel (of positions, at the mean distance of world features), and the sparsity structure marks exactly the observations that depend "
    "on each. A fit gives the optimizer the residuals, starting values, scales and "
    "structure of the selected observations, works through sequences of parameters each "
    "starting where the last ended, returns values in parameter order (nothing if it "
    "failed), and leaves the cameras as they were, also when it fails. Overlapping "
    "groups, groups of unequal image sizes with f or c, and cameras without control are "
    "rejected. ObserverCameras.fit minimizes the distances between matched rays and of "
    "anchors from their orientation, with the exact gradient.",
    ["inputs", "configurations"],
    "every camera, parameter value, bound, weight and point, for several layouts of up "
    "to three cameras, two groups and four controls",
    "Tests fit single cameras; wrong columns, bounds or a stale camera change results "
    "only slightly, for particular layouts of groups and controls.",
    ["optimize.py"],
    [("selection and bounds", "Cameras.parse_params, Cameras.camera_bounds"),
     ("layout", "Cameras.update_params, Cameras.set_cameras, Cameras.reset_cameras"),
     ("model", "Cameras.predicted, Cameras.residuals, Cameras.errors"),
     ("fit", "Cameras.fit, ObserverCameras.fit")],
    technique=VG, note=VGN + "The optimizer itself (lmfit, scipy) is a stand-in: what it "
    "is given is decided, not whether it converges.")

prop(
    "C18", "Keypoints and matches are built, kept, written and counted as requested",
    "Keypoints are detected in the 8-bit image (averaged over bands, equalized if "
    "requested) and mask, with square-root normalized descriptors if requested. "
    "match_keypoints returns the image coordinates of each keypoint of the first image "
    "and its best match in the second which are allowed by the mask and meet every "
    "criterion (cross check, maximum ratio of best to second best distance, maximum "
    "distance between image coordinates), with ratios in the same order, and empty "
    "arrays of two columns if there are none. KeypointMatcher.build_keypoints and "
    "build_matches read, compute, overwrite, write, keep and clear the results of each "
    "image and pair as their options say, with the same results in parallel; exactly "
    "the pairs of images (i, j), i < j, that are near enough in time, or in the "
    "requested sequence, or all, and include a requested image, are matched, and "
    "matches form a matrix with a row and column for each image. Files hold unfiltered "
    "matches of the keypoints, with weights if requested. Converting, filtering, "
    "dropping images and counting concern each match and image, and breaks are images "
    "with fewer matches to later images than required. Images out of order or of the "
    "same basename, and missing keypoints or paths, are rejected.",
    ["inputs", "configurations", "histories"],
    "every image, keypoint, descriptor, distance and weight; every combination of "
    "options; up to five images, four keypoints each",
    "Tests run none of this code: it needs images, files and workers in many "
    "combinations, of which a test samples a few.",
    ["optimize.py", "config.py", "helpers.py"],
    [("detection", "detect_keypoints, KeypointMatcher.build_keypoints"),
     ("matching", "match_keypoints, KeypointMatcher.build_matches"),
     ("changes", "KeypointMatcher.convert_matches, filter_matches, drop_images"),
     ("counts", "matches_per_image, images_per_image, match_breaks")],
    technique=VG, note=VGN + "Detector, matcher, file system and worker processes are "
    "models: what they are given and what is done with their results is decided, not "
    "the quality of keypoints.")

prop(
    "C19", "RANSAC returns the best refitted sample and all of its inliers",
    "ransac fits the model to distinct random samples of the requested size, as many as "
    "requested or as there are combinations, and ends. A sample counts if more than the "
    "minimum number of other observations lie within the maximum error; the parameters "
    "returned are those refitted to such a sample and its inliers that have the least "
    "mean error, and the inliers returned are the observations within the maximum error "
    "of these. Samples whose fit fails are skipped. Without a valid sample, or for a "
    "sample that is not smaller than the observations, it raises an error. Options for "
    "the fit reach each fit. A Polynomial model predicts and measures errors by its "
    "coefficients, for any selection of observations.",
    ["inputs", "schedules", "configurations"],
    "sequences of random draws of 5 or 6 observations, sample sizes, limits, numbers of "
    "iterations and failing fits; every polynomial coefficient and observation",
    "The result depends on random draws; tests use an example in which every draw gives "
    "the same result.",
    ["optimize.py"],
    [("samples", "ransac (its generator of samples)"), ("selection", "ransac"),
     ("polynomial", "Polynomial.predict, Polynomial.errors, Polynomial.fit")],
    technique=VG, note=VGN + "Draws are an input sequence that the check provides in "
    "several orders; the fit is a stand-in (the mean).")

prop(
    "C20", "Rasters are interpolated between the nearest two, with their uncertainty",
    "A RasterInterpolant uses the rasters nearest on either side of the requested number "
    "or datetime (the same raster twice if it coincides with one), or the two nearest "
    "if extrapolating, and rejects times out of range otherwise. The result varies "
    "linearly between them, its standard deviation is the documented combination of "
    "their uncertainties and of the change between them, and it covers the "
    "intersection of the rasters and of the requested bounds, for rasters, numbers and "
    "mixtures of them, whichever grids they and their uncertainties are on, in cells of "
    "the requested or the largest size. The function and value limits given are applied to each mean "
    "before interpolation. The rasters given are left as they were.",
    ["inputs", "configurations"],
    "every cell value and uncertainty, requested time, and pair of overlapping grids, "
    "rising or falling, of up to 4 x 3 cells (of equal size, and of multiples of it)",
    "Tests run no interpolant at all; errors in weights or alignment change results "
    "only slightly, and depend on how grids overlap.",
    ["raster.py"],
    [("neighbours", "RasterInterpolant.nearest"), ("interpolation",
     "RasterInterpolant.__call__")],
    technique=VG, note=VGN + "Resizing to other cell sizes is a stand-in (averages).")

prop(
    "C21", "External cameras are read and converted as their models define",
    "The Agisoft, Matlab, OpenCV and PhotoModeler camera models project points as "
    "documented by their software. Converting to and from a Camera keeps the image size, "
    "and where the conversion is exact (as documented for each model), every point is "
    "projected to the same image coordinates and nothing is optimized; otherwise "
    "exactly the documented or chosen parameters (by name and index) are optimized, "
    "starting from the exact conversion without the unsupported parameters, and the "
    "others are kept, as is the camera converted from. Converter residuals are those of "
    "the cameras with the parameters tried, at the given points or an even grid of about "
    "the given number. Calibration arrays, XML files and reports are read to the "
    "parameters of the same name, with their standard deviations if asked. Cameras of "
    "different image sizes, a PhotoModeler conversion without sensor size, and "
    "calibrations of another kind or without camera matrix are rejected.",
    ["inputs", "configurations"],
    "every camera parameter and point, each set of zero and nonzero coefficients and "
    "optimized parameters, every value in a calibration file of the supported layouts",
    "Tests convert one camera per model and compare within a pixel after optimization, "
    "which compensates wrong coefficients.",
    ["convert/converter.py", "convert/cameras/agisoft.py", "convert/cameras/matlab.py",
     "convert/cameras/opencv.py", "convert/cameras/photomodeler.py"],
    [("projection", "the camera models' projections"), ("conversion",
     "to_camera, from_camera and Converter"), ("reading",
     "from_xml, from_report, from_arrays")],
    technique=VG, note=VGN + "The optimizer is replaced by a stand-in; numerals of "
    "files stand for unknown numbers.")

prop(
    "C22", "Images simulated from elevation models show the cells that project there",
    "Camera.project_dem returns an image of the camera's size: the value of a pixel is "
    "the mean of the values of the included cells of the elevation model that project "
    "into the pixel (cells and points on the far edges of the frame belong to the last "
    "row or column), one layer per layer of the values, with the depth along the optical "
    "axis as an additional last layer if asked for; pixels into which no included cell "
    "with an elevation projects are NaN. A mask selects the included cells. Where no "
    "pixel gathers cells of several tiles, tile size, tile overlap and number of "
    "processes do not change the image. Tiles are rescaled, with their mask and layers, "
    "to the given number of cells per pixel at their mean elevation, within the given "
    "limits (none by default). Values and masks of another shape than the elevation "
    "model, and neither values nor depth, are rejected. Camera.rasterize likewise "
    "returns the mean of the values of the points in each pixel, with one layer per "
    "column of the values if there are several, and ignores points out of frame.",
    ["inputs", "configurations", "schedules"],
    "every layer value and image, cameras and elevation models of each orientation, "
    "every combination of mask, layers, depth, tiling, scaling and processes",
    "The one example has one cell per pixel, one tile, no mask and no scaling, and its "
    "cells never touch the edges of the frame.",
    ["camera.py", "raster.py", "helpers.py"],
    [("projection", "Camera.project_dem"), ("binning",
     "Camera.rasterize, helpers.rasterize_points")],
    technique=VG, note=VGN + "Geometry is listed, values are unknowns; scipy.ndimage.zoom "
    "is modelled for orders 0 and 1.")

prop(
    "C90", "Undistortion and inverse projection converge for strong distortion",
    "Inverting lens distortion converges to the point that distorts to the given one, "
    "for distortion of any strength for which there is one.",
    ["inputs"], "every set of distortion coefficients and image point",
    "Whether the iteration converges depends on the coefficients and the point.",
    ["camera.py"], [("iterative undistortion", "Camera.uv_to_xyz")],
    na="Convergence of a numerical iteration for unbounded real coefficients: no static "
    "argument in reach bounds it. C07 decides the iteration as it is unrolled.")

prop(
    "C91", "Camera optimization and particle filters converge to the truth",
    "A camera fitted to enough accurate control reaches the true parameters, and tracked "
    "particles converge to the true motion of the surface.",
    ["inputs"], "every scene, control, motion and sequence of images",
    "Convergence is a statistical statement about all scenes.",
    ["optimize.py", "track/tracker.py"],
    [("fit", "Cameras.fit"), ("filter", "Tracker.track")],
    na="Statistical convergence of numerical optimizers and random processes, which "
    "static analysis cannot bound. C13 and C17 decide what these are given and what is "
    "done with their results.")

prop(
    "C93", "Keypoints and matches are of good quality",
    "Detected keypoints are found again in other images of the same scene.",
    ["inputs"], "every image", "Quality depends on the images.",
    ["optimize.py"], [("detection", "detect_keypoints")],
    na="A property of OpenCV's detector on real images, not of this source. C18 decides "
    "what the detector is given and what is done with its results.")

prop(
    "C23", "SVG annotations are read in image coordinates, and read back as written",
    "svg.read and svg.Points.from_element return, for each element, the vertices that "
    "the SVG recommendation defines for its attributes: all absolute and relative path "
    "commands (without curvature), closed subpaths, polylines, polygons (closed), lines, "
    "rectangles, images and circle centers, however numbers and commands are separated. "
    "Transform functions (translate, scale, matrix) apply in the order written, those of "
    "a parent before those of its children; others are rejected. svg.read returns "
    "vertices relative to the upper-left corner of the last image as transformed, scaled "
    "such that the image has its own size or the size asked for; names are those of the "
    "given attribute or the tag, repeated names give lists, groups nest. Vertices "
    "written with Points.to_element, and documents written with svg.write in any "
    "indentation, are read back unchanged; writing does not change the element.",
    ["inputs", "configurations"],
    "all commands, shapes, transforms and nestings, any coordinates, any notation of "
    "numbers and separators",
    "Examples use a handful of small integers in one notation, one closed subpath and "
    "images at the origin in their own size.",
    ["svg.py"],
    [("vertices", "svg.Points.from_element"), ("transforms", "svg.Points.transform"),
     ("documents", "svg.read"), ("writing", "svg.Points.to_element, svg.write, svg.svg")],
    technique=VG, note=VGN + "Documents are listed, coordinates are unknowns that stand "
    "in the text as numerals.")

prop(
    "C24", "What is written to JSON and pickle files is read back unchanged",
    "helpers.write_json writes text that means the object it was given, for texts with "
    "any content, every nesting, and every layout (indent, separators, flat_arrays), and "
    "with flat_arrays each innermost array of an indented text is on one line. It "
    "returns the text if no path is given, and otherwise writes exactly the given file, "
    "replacing what was there, creates missing parent folders, and leaves everything "
    "else. helpers.read_json returns the object written. helpers.read_pickle returns an "
    "object equal to the one helpers.write_pickle was given, for binary and text, "
    "compressed and plain pickles, read with the options they were written with; the "
    "object written does not change. Camera.from_json(Camera.to_json(attributes)) has "
    "the given attributes (focal length and principal point also if in millimetres), "
    "elevation correction included; values given by the caller take precedence, other "
    "attributes have their default.",
    ["inputs", "configurations"],
    "texts with brackets, quotes, separators and spaces, all layouts, all numbers, all "
    "kinds of pickle, all choices of camera attributes",
    "Examples use one flat list of numbers; flattening arrays is a textual rewrite that "
    "depends on what texts and nested values contain, and files and folders that exist.",
    ["helpers.py", "camera.py"],
    [("rewriting", "helpers.write_json"), ("files", "helpers.write_pickle, "
     "helpers.read_pickle, helpers.read_json"),
     ("camera", "Camera.to_json, Camera.from_json, Camera.to_dict")],
    technique=VG, note=VGN + "Objects and layouts are listed, numbers are unknowns; a "
    "file system of whole files and the json and pickle modules stand in.")

prop(
    "C25", "Windows of raster and image files are the cells that the file has there",
    "Raster.open(path, band, d, xlim, ylim, nan) has the cells of the file that overlap "
    "the limits, in whichever order the limits are given and whichever way the file's "
    "axes run, the outer bounds of those cells, the number of cells that the cell size "
    "asked for gives, the file's reference system, and NaN where the file has its "
    "missing value (floats) or the value given. Grid.read has the same limits, size and "
    "reference system. Raster.read(box, cache) returns the region of the full array, "
    "cached or not, resampled or not, whatever was read before, and leaves the full array "
    "as if the box had not been read; boxes that are not whole or leave the raster are "
    "rejected. Image.read returns the image at the size of its camera, and for a box "
    "exactly that region of it, cached or not, whatever was read before and however the "
    "camera was resized in between. helpers.write_raster, Raster.write and Image.write "
    "write every layer, the affine transform, the reference system (EPSG, Proj4 or "
    "WKT), and the missing value, also in place of NaN; what they wrote is opened as "
    "the same raster. Unknown drivers, extensions, data types and reference systems, "
    "and drivers that cannot write, are rejected.",
    ["inputs", "histories", "configurations"],
    "all cell values; axes running either way, limits inside, across and beyond the "
    "file; cell sizes finer and coarser; histories of reading and resizing",
    "Tests read one small file with the box that covers its first cell; which cells a "
    "window has depends on limits, cell size, cache and what was read before.",
    ["raster.py", "image.py", "helpers.py"],
    [("raster windows", "Raster.open, Raster.read, Grid.read, Grid.crop_extent"),
     ("image windows", "Image.read"),
     ("writing", "helpers.write_raster, helpers.gdal_driver_from_path, "
      "helpers.crs_to_wkt, Raster.write, Image.write")],
    technique=VG, note=VGN + "Files, limits and histories are listed, cell values are "
    "unknowns; a stand-in for GDAL that reads nearest cells.")

prop(
    "C26", "Image metadata are those of the Exif tags, unless given",
    "Exif reads from the tags of an image its size, capture time to the fraction of a "
    "second, exposure, f-number, ISO speed, focal length, make, model, and the sensor "
    "size of the cameras it knows (however make and model are padded); what has no tag, "
    "or a tag of unknown value (zero denominator), is None. The thumbnail is kept only if "
    "asked for. Exif.dump and insert write every tag under its code, in its group, with "
    "its value, including edits; unknown groups and tags are rejected with ValueError; "
    "the tags of the object are kept. Image has the camera given, or a camera of the "
    "parameters given, supplemented by the image size, focal length and sensor size of "
    "the metadata where they are missing (no focal length if one in pixels is given); "
    "and the time given, or else that of the metadata. The metadata are those given, or "
    "else read from the image file, once, and only if they are needed.",
    ["inputs", "configurations"],
    "all values of numeric tags; presence and absence of each tag; combinations of given "
    "camera parameters, time and metadata",
    "Tests read the tags of one image; a swapped tag, an absent one, or a combination of "
    "arguments that reads or overrides the wrong value is not among them.",
    ["exif.py", "image.py"],
    [("tags", "Exif.parse_tag and the properties of Exif"),
     ("writing", "Exif.dump, Exif.insert"), ("precedence", "Image.__init__")],
    technique=VG, note=VGN + "Texts, tags and combinations of arguments are listed, "
    "numbers are unknowns; a stand-in for the reader and writer of tags (piexif).")

prop(
    "C27", "Images are projected into other cameras along the same lines of sight",
    "Image.project(cam) returns an image of the size of the target camera and with the "
    "bands of the source, in which each pixel is the source image interpolated (linear, "
    "or the nearest pixel, as asked) at the point that sees the direction of the center "
    "of the pixel, through the lens distortion, principal point, focal length, size and "
    "orientation of both cameras; and missing where that point is behind the source "
    "camera or beyond its outermost pixel centers. An image projected into its own camera "
    "is unchanged, up to its outermost pixels. The image and both cameras are kept. "
    "Cameras at other positions are rejected.",
    ["inputs", "configurations"],
    "all pixel values; listed pairs of cameras",
    "The test projects one image into its own camera; other sizes, orientations and "
    "distortions are not compared.",
    ["image.py", "camera.py"],
    [("projection", "Image.project, Camera.uv_to_xyz, Camera.xyz_to_uv")],
    technique=VG, note=VGN + "Cameras are listed, pixel values are unknowns.")

prop(
    "C28", "Lines split, clipped to boxes, rasterized, and matched",
    "Arrays are split where a mask changes (joined at the ends if circular). Rays and edges "
    "meet boxes in the points where they enter and leave all of its extents, ahead of the "
    "origin, also along faces and parallel to axes, in two and three dimensions. Lines "
    "clipped to a box are its parts in the box: they end on its boundary, keep the "
    "vertices (and distances) in it, and nothing else. The cells of a line between two "
    "cells are those nearest to it, one for each step, from start to end, in any "
    "direction; those of a circle are within half a cell of it, each once, in order, and "
    "closed. Image points are matched to the nearest point of the world lines that are "
    "in view, or none if none is.",
    ["inputs"], "positions and directions in each of the listed arrangements",
    "Tests clip one line; lines along faces, through corners, parallel to axes, and the "
    "arrangement of points before and after the box are not among them.",
    ["helpers.py", "optimize.py"],
    [("splits", "helpers.boolean_split"),
     ("boxes", "helpers.intersect_rays_box, intersect_edge_box, clip_polyline_box"),
     ("cells", "helpers.bresenham_line, bresenham_circle"), ("matched", "Lines.predicted")],
    technique=VG, note=VGN + "Arrangements (which sides are crossed) are listed, "
    "coordinates in them are unknowns where listed so.")

prop(
    "C29", "Filters, masks and rasterized points honour excluded cells",
    "With a mask, smoothed cells are the weighted means of the included cells about them "
    "and cells of a maximum filter their greatest; excluded and missing cells add nothing, "
    "and are kept or filled as asked, for real and integer arrays. Crevasses are filled "
    "with the smoothed greatest cells. Cells within a radius of a cell are filled (up to "
    "half a cell) and no others. Normalized values have a mean of 0 and deviation of 1. "
    "Cells with centers in any of the polygons and in "
    "none of the holes are in their mask, in array or world coordinates, with axes in "
    "either direction. Cells of a raster are the means of the points in them, or missing. "
    "Matched values are those with the same cumulative probability.",
    ["inputs"], "all cell values; listed masks, sizes, spacings and polygons",
    "Tests filter one array without a mask; masked, missing and integer cells, holes and "
    "world coordinates are not among them.",
    ["helpers.py", "raster.py"],
    [("filters", "helpers.gaussian_filter, helpers.maximum_filter, Raster.fill_crevasses"),
     ("masks", "helpers.polygons_to_mask, Raster.rasterize_polygons"),
     ("points", "Raster.rasterize"), ("circles", "Raster.fill_circle"), ("probabilities", "helpers.compute_cdf, match_cdf")],
    technique=VG, note=VGN + "Masks and polygons are listed; a stand-in for the "
    "rasterization of polygons (GDAL).")

prop(
    "C30", "Viewsheds and horizons hide what is behind higher cells",
    "Along the axes of a raster, cells are visible if they are higher (in angle) than all "
    "nearer cells. Elsewhere, they are visible if higher than all nearer cells in their "
    "direction, and hidden if lower than the two adjacent nearer cells on either side, and "
    "where missing. The horizon has, for each heading, the highest cell along it, unless "
    "it is the last one, in segments that are broken where there is none, from any "
    "position inside or outside the raster, over missing cells. Heights are lowered by "
    "earth curvature and raised by refraction as the squared distance, if asked.",
    ["inputs"], "all heights (viewshed), or heights in a given order (horizon); listed "
    "sizes, axes, positions and headings",
    "There are no tests of either; whether a cell is hidden depends on all nearer ones, on "
    "the direction of axes and on the side of the raster the position is at.",
    ["raster.py"],
    [("viewshed", "Raster.viewshed"), ("horizon", "Raster.horizon")],
    technique=VG, note=VGN + "Grids, positions and headings are listed. Cells about the "
    "position itself, and between the two bounds off the axes, are not decided.")

prop(
    "C31", "Plots and animations draw the data at their coordinates",
    "Images, rasters, tiles and boxes are drawn over their extents, with their first row "
    "and column first, and axes limits are those of the image or grid with rows "
    "downwards. Error plots (of points, matches, lines, polynomials, camera fits and "
    "conversions) have arrows in image units from observed to predicted coordinates, for "
    "the points selected and for those that are not, in the styles asked for, or none if "
    "hidden; cameras are unchanged by plotting. Tracks are drawn at their means, "
    "velocities and uncertainties, for the tracks selected. Each frame of an animation "
    "has the image tile, point and history of its own time, and velocities scaled by the "
    "interval to the next frame.",
    ["inputs"], "all values; listed numbers of points, selections and styles",
    "Tests at most run the plot functions, without looking at what is drawn; a wrong "
    "index or sign gives a plot that looks fine.",
    ["camera.py", "image.py", "raster.py", "optimize.py", "convert/converter.py",
     "track/observer.py", "track/tracks.py"],
    [("errors", "Points.plot"), ("fit", "Cameras.plot"), ("tracks", "Tracks.plot_xy"),
     ("animation", "Tracks.animate"), ("frames", "Observer.animate")],
    technique=VG, note=VGN + "Drawing is recorded by a stand-in for the parts of "
    "matplotlib in use; what matplotlib itself does with it is not modelled.")
