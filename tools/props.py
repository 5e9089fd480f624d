# -*- coding: utf-8 -*-
SRC = "src/py_eddy_tracker/"
OBS, TRK, NET, GRP = (SRC + f"observations/{n}.py" for n in ("observation", "tracking", "network", "groups"))
GRID, POLY, GEN, FEAT, CORR = SRC + "dataset/grid.py", SRC + "poly.py", SRC + "generic.py", SRC + "eddy_feature.py", SRC + "tracking.py"
AREA = SRC + "featured_tracking/area_tracker.py"
P = []


def p(id, title, statement, over, space, why, files, mech, technique, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, space=space, why=why, files=files, mech=mech,
                  technique=technique, note=note, **kw))


REAL = "Exhaustive within the stated bounds on the real code; nothing is claimed outside the enumerated alphabet."

p("C01", "Tracking neither loses, duplicates nor alters a detected eddy",
  "For every chronological sequence of detection files and every association outcome, each detected eddy is found exactly once in the union of the long trajectories, the too short trajectories and the untracked eddies, with its stored fields unchanged. Apart from observations flagged virtual nothing else is present in these outputs. Two eddies are in a same trajectory only if a chain of associations links them.",
  ["histories", "inputs"], "every history of up to 4 detection files holding 0-2 eddies (more in thorough) at a small set of positions, every virtual length 0-2, every minimal duration",
  "the tests track one real file with a shifted copy of itself; births, deaths, gaps, swaps and empty files never meet",
  [CORR, OBS, TRK], [("correspondence table, state across files", CORR + ":Correspondances.track"), ("output tables", CORR + ":Correspondances.merge, get_unused_data")],
  "explicit-state exploration of detection histories on the real tracker against a reference tracker",
  "All detection histories within the bounds are tracked by the real code and compared observation by observation with a reference model. " + REAL)

p("C02", "Trajectories are gap free series with bounded and flagged virtual gaps",
  "In every tracking output each trajectory has one identifier and its own contiguous block of rows, starts and ends with a real eddy, holds one observation per time step with observation numbers counting time steps from its start, and every missing step is filled by one observation flagged virtual. A trajectory survives missing detections if and only if their number does not exceed the allowed virtual length. Trajectories are distributed to long and short outputs by their number of observations.",
  ["histories", "inputs", "configurations"], "same histories as C01, every virtual length 0-3 and every minimal duration; every gap pattern of an isolated eddy over 6-8 steps",
  "no test runs a tracking with missing detections, nor the split in long/short tracks",
  [CORR, TRK], [("virtual observations", CORR + ":Correspondances.recense_dead_id_to_extend"), ("lengths", CORR + ":longer_than, shorter_than, prepare_merging")],
  "explicit-state exploration of presence/absence histories on the real tracker against a reference automaton", REAL)

p("C03", "A tracking stopped after any file and resumed equals the uninterrupted one",
  "Saving the correspondences after any number of files and resuming later with the complete list of files gives the same trajectories, identifiers, virtual observations and untracked eddies as an uninterrupted tracking. A correspondence file which is saved then loaded builds the same outputs as the object in memory.",
  ["crash_points", "histories"], "every stop point (including chains of stops) of every history of up to 4-5 files with 0-2 eddies and virtual length 0-2",
  "one test reloads a correspondence but never resumes nor merges it",
  [CORR], [("save/load of the correspondences", CORR + ":Correspondances.to_netcdf, from_netcdf, load_state")],
  "enumeration of every stop/resume point of every bounded tracking history", REAL)

p("C04", "Association between two time steps is one-to-one and made of allowed pairs",
  "Between two consecutive steps, an eddy is associated with at most one eddy on each side, only pairs proposed by the candidate filter are associated, and no proposed pair is left with both members unassociated unless a conflict excluded it. A pair which has no competitor is always associated, a pair which is the cheapest for both members is preferred, and results do not depend on the order of the eddies in the files when costs are distinct.",
  ["inputs"], "every cost matrix of size up to 3x3 over a small alphabet of costs plus 'not allowed', and every larger sparse pattern up to 4x4 (thorough)",
  "tests have a single association where everything is diagonal",
  [OBS, SRC + "featured_tracking/old_tracker_reference.py"], [("conflict solver", OBS + ":EddiesObservations.solve_function, solve_simultaneous, solve_conflict")],
  "exhaustive enumeration of cost matrices through the real association step against an independent solver", REAL)

p("C05", "Similarity of eddies is a symmetric ratio of overlapped areas",
  "The similarity of two contours is intersection area over union area (or over the smaller polygon if asked), is within [0, 1], is 1 for identical contours, is unchanged if either contour is shifted by 360 degrees or contours are swapped or vertices are rotated/reversed, and is 0 without overlap. Matching two sets of eddies reports every pair with a similarity above the threshold exactly once, and only these, independently of storage order.",
  ["inputs"], "every pair of lattice polygons of a small family at every offset of a small lattice, at every shift of k*360 degrees, sets up to 2x2",
  "tests only match a file with itself",
  [POLY, OBS, GEN], [("overlap", POLY + ":vertice_overlap"), ("bounding box candidates", POLY + ":bbox_intersection"), ("match", OBS + ":EddiesObservations.match")],
  "exhaustive enumeration of lattice polygon pairs against exact rational clipping", REAL)

p("C06", "Every detected eddy satisfies the detection criteria",
  "On any height field every reported eddy has a closed effective contour whose shape error is under the limit, which encloses a number of grid pixels within the pixel limits, all of them strictly on the eddy's side of the contour level and none of them masked; its amplitude is the height between its extremum and this contour, not under the minimum, and it holds no more well marked extrema than allowed. Its speed contour is inside its effective contour, on a level between those of the effective and inner contours. No pixel is inside two eddies of the same sign. Conversely the outermost area which satisfies these criteria around an extremum is reported.",
  ["inputs", "configurations"], "every height field of a small family of lattices of bumps (height x position x sign x mask), every pixel limit/step/shape error of a small set",
  "tests count eddies in one Mediterranean field",
  [GRID, FEAT, POLY], [("contour selection", GRID + ":RegularGridDataset.eddy_identification"), ("amplitude criteria", FEAT + ":Amplitude")],
  "exhaustive exploration of small height fields on the real detection with an independent checker of the criteria", REAL)

p("C07", "Detection commutes with sign change, rotation of the globe and masked values",
  "Reversing the sign of the height field (and of the currents) exchanges cyclonic and anticyclonic eddies and nothing else (fields where no eddy lies in an eddy of opposite sense); rolling a global grid by any number of columns moves the eddies by the same longitude and nothing else; values stored under the mask have no effect.",
  ["inputs"], "every field of a small family, every roll of columns of a small global grid, every value under mask of a small alphabet",
  "tests use one regional field; no test compares two related runs",
  [GRID, FEAT], [("contours", FEAT + ":Contours"), ("wrap", GRID + ":is_circular")],
  "metamorphic exhaustive exploration (every roll, sign and masked value) of small fields on the real detection", REAL)

p("C08", "Interpolation on a grid is local, exact and circular",
  "Bilinear interpolation at any position returns the weighted mean of the four surrounding grid values and nearest interpolation the closest one; undefined surrounding values give an undefined result, positions outside a regional grid are undefined, and on a global grid positions equal modulo 360 degrees give the same result. Regridding and interpolation at eddy positions use the same rule.",
  ["inputs"], "every mask pattern of a small grid, every position of a sub-lattice around and outside of the grid, shifts of k*360, regional and global grids, ascending axes",
  "one test interpolates five points in a regional grid without mask at borders",
  [GEN, GRID, OBS], [("interpolation kernels", GEN + ":interp2d_geo, interp2d_bilinear, interp2d_nearest"), ("entry points", GRID + ":interp, regrid")],
  "exhaustive enumeration of masks and lattice positions against a reference interpolator", REAL)

p("C09", "Currents deduced from height use only defined heights",
  "Eastward and northward currents computed from a height grid are the geostrophic ones: at each defined point they only depend on defined heights around it, are exact for heights linear along each axis, use one-sided differences next to undefined heights or to the border of a regional grid, and wrap on global grids. Where height is undefined, or no neighbour is defined, currents are undefined.",
  ["inputs", "configurations"], "every mask pattern along a line of up to 7-9 points, every stencil width 1-4, both axes, regional and global grids, several values under mask",
  "no test computes currents",
  [GRID], [("stencil", GRID + ":compute_stencil"), ("currents", GRID + ":RegularGridDataset.add_uv")],
  "exhaustive enumeration of line masks and stencil widths against a reference stencil", REAL)

p("C10", "High and low pass filters share the signal and ignore undefined values",
  "Filtering is linear, keeps constants, never lets values stored under the mask influence defined pixels, keeps the mask unless extension is requested, and gives low pass plus high pass equal to the original field. On a global grid filtering commutes with any roll in longitude.",
  ["inputs"], "every single-pixel and two-pixel impulse, every mask with up to 2 masked pixels and a set of patterns, every roll of a small global grid",
  "tests filter one field with three kernels and check two values",
  [GRID], [("convolution with latitude dependent kernel", GRID + ":convolve_filter_with_dynamic_kernel")],
  "exhaustive enumeration of impulses, masks and rolls (a basis of the linear space) against a direct summation", REAL)

p("C11", "Particles are advected independently, exactly and stop out of the domain",
  "Each particle moves as if it were alone, in a uniform current by exactly the displacement of speed times duration (also through the edge of a global grid), and a field which varies in time is linearly interpolated between the two surrounding dates. A particle which reaches undefined current or leaves a regional grid by any side becomes undefined and remains so. Splitting a run in several calls does not change positions.",
  ["inputs", "histories"], "every start position of a sub-lattice around and outside the grid, every uniform current of a small set, every order of a batch, every splitting of the steps, every mask of one cell",
  "no test advects particles",
  [GRID], [("integration", GRID + ":advect, advect_rk4, advect_t, advect_t_rk4"), ("time stepping", GRID + ":GridCollection.advect")],
  "exhaustive enumeration of start lattices, currents, masks and call splittings against a reference integrator", REAL)

p("C12", "Grid files are read and written without moving or altering values",
  "Whatever the order of the dimensions in the file, the index chosen along extra dimensions, or lazy or immediate load, the value read at a given longitude and latitude is the one stored for them, undefined values stay undefined and bounds surround centres. Writing a grid and reading it back preserves coordinates, values and mask.",
  ["configurations", "inputs"], "every permutation of up to 4 dimensions, every index, every mask of a small grid, both access modes",
  "tests load files of a single layout",
  [GRID], [("load", GRID + ":GridDataset.load, populate, grid"), ("write", GRID + ":GridDataset.write")],
  "exhaustive enumeration of file layouts and masks, read back through the real code", REAL)

p("C13", "Pixels inside contours and pixels along paths are the geometric ones",
  "The pixels of a regular grid reported inside a contour are exactly the grid points inside the polygon, also across the edge of a global grid and whatever multiple of 360 degrees is added to the contour. The pixels reported along a path form a connected chain from the start pixel to the end pixel following the shortest way in longitude.",
  ["inputs"], "every lattice quadrilateral/triangle of a small family at every position over a small global or regional grid; every pair of pixels of a small global grid",
  "one test asks pixels of one contour",
  [GRID, POLY, GEN], [("pixels in contour", POLY + ":winding_number_grid_in_poly, " + GRID + ":BasePath pixels_in"), ("bounding box", GRID + ":bbox_indice")],
  "exhaustive enumeration of lattice contours and pixel pairs against exact geometry", REAL)

p("C14", "Observations survive storage in netCDF and zarr",
  "Writing observations then loading them gives the same observations in the same order: every stored field within half of its declared storage resolution, exactly for fields stored unscaled, with the same rotation sense, contours and extra fields; loading then writing a file again without change gives the same file content. Raw load and write preserves packed values exactly, and gives the right values for a file which is packed otherwise.",
  ["inputs", "configurations"], "every combination of format x raw x track kind x fields x number of observations around chunk/buffer sizes, values on and between resolution steps",
  "one test round trips a zarr file in raw mode",
  [OBS], [("write", OBS + ":EddiesObservations.write_file, to_netcdf, to_zarr"), ("load", OBS + ":load_file, load_from_netcdf, load_from_zarr")],
  "exhaustive enumeration of storage configurations and value alphabets with a round trip oracle", REAL)

p("C15", "Partial loading equals full loading followed by selection",
  "Loading a slice of observations, a subset of fields, or without contours, from netCDF or zarr, from path, open handle or memory, gives exactly what a complete load followed by the same selection gives, whatever the read buffer size.",
  ["configurations", "inputs"], "every start/stop/step of slices over small files, every subset of a few fields, every buffer size around number of observations, every access mode",
  "one test loads one slice",
  [OBS], [("load", OBS + ":load_from_netcdf, load_from_zarr, copy_data_to_zarr, zarr buffered copy")],
  "exhaustive enumeration of slices, field subsets and buffer sizes on the real loaders", REAL)

p("C16", "Selections keep exactly the requested observations, in order and complete",
  "Selecting by index, slice, mask, function, combination of filters, area or period returns exactly the observations which satisfy the request, in storage order, with every field kept and the source left unchanged. Filters combine as logical and, and area selection is insensitive to the longitude convention.",
  ["inputs", "programs"], "every mask/index/slice over small observation sets, every combination of two filters kinds, every area of a lattice of boxes with positions at k*360",
  "tests select one index list",
  [OBS, TRK], [("selection", OBS + ":index, extract_with_mask, merge_filters, extract_with_area, remove_fields")],
  "exhaustive enumeration of selections over small sets against list semantics", REAL)

p("C17", "Merging, inserting, copying and changing fields preserve observations",
  "Merging or concatenating sets of observations yields all their rows in order with all common fields; inserting rows shifts but never alters existing rows; copies share nothing with their source; adding or removing fields only touches the named fields; the period and the counts by track follow the observations.",
  ["programs", "inputs"], "every program of up to 3 (4 in thorough) such operations over small sets with different field lists",
  "tests check the length of one merge",
  [OBS, TRK], [("structure", OBS + ":merge, concatenate, insert_observations, copy, add_fields, remove_fields")],
  "breadth-first exploration of operation sequences on the real containers in lock step with a list-of-dict model", REAL)

p("C18", "Iterating or aligning by bins puts each observation in its own bin",
  "Iterating observations by values of a field or by bins yields each observation of the range exactly once, in the group of its bin, whether the field is sorted or not and whatever its type; aligning two sets yields for each bin the observations of both sets which belong to it.",
  ["inputs"], "every sequence of up to 5 values over a small alphabet (sorted or not), types signed/unsigned/float, every bin set of a small family; every pair of short sequences for alignment",
  "tests never call it with several values",
  [OBS], [("iterate", OBS + ":iter_on, iter_mode, window"), ("align", OBS + ":align_on")],
  "exhaustive enumeration of value sequences and bins against a filter-by-bin reference", REAL)

p("C19", "Gridded and binned statistics count each observation where it is",
  "Counts per box, mean and other statistics per box, coverage counts of contours, histograms and binned means equal those obtained by visiting observations one by one: each observation contributes exactly once to the box (or pixels) that contains it and never elsewhere, independently of storage order and of the longitude convention on global grids.",
  ["inputs"], "every multiset of up to 4 observations over a lattice of positions crossing box and longitude edges, every order, values over a small alphabet with ties",
  "no test computes gridded statistics",
  [OBS, TRK], [("grids", OBS + ":grid_count, grid_stat, grid_box_stat, hist, bins_stat")],
  "exhaustive enumeration of placements and orders against a visit-one-by-one reference", REAL)

p("C20", "Points are attributed to the eddy whose contour contains them",
  "Telling whether a position is inside an eddy, and which one, gives the eddy whose contour contains the position (none if no contour does), whatever multiple of 360 degrees separates them, for outer or inner contours, undefined positions belonging to none. The answer does not depend on the order of the positions.",
  ["inputs"], "every position of a lattice over every placement of 1-2 lattice contours, shifts of k*360, all orders",
  "no test asks positions in eddies",
  [OBS, POLY], [("point in polygon", POLY + ":poly_indexs, is_left, winding_number_poly"), ("entry points", OBS + ":contains, inside, is_convex")],
  "exhaustive enumeration of lattice positions and contours against exact geometry", REAL)

p("C21", "Trajectory selections keep whole, correctly identified trajectories",
  "Selecting trajectories by identifier, length, period, first/last observation, position or mask returns exactly the observations asked for: complete trajectories when completeness is requested, none partially kept when incomplete ones must be removed, virtual ones handled as requested. The rows of a trajectory stay contiguous and in time order and compressed identifiers are consistent in every field and output.",
  ["inputs", "programs"], "every layout of up to 3 trajectories with 1-3 observations, arbitrary identifiers with holes, every mask and option",
  "no test selects trajectories",
  [TRK], [("selection", TRK + ":extract_with_mask, extract_ids, extract_with_length, extract_with_period, extract_longer_eddies, get_mask_from_id")],
  "exhaustive enumeration of trajectory layouts, masks and options against a dictionary-of-tracks model", REAL)

p("C22", "Quantities along a trajectory depend on this trajectory only",
  "Age, lifetime, distances between successive observations, smoothed series, interpolated virtual observations and counts per trajectory are those of each trajectory taken alone: appending, removing or renumbering other trajectories never changes them. Missing steps are inserted exactly where time jumps and interpolated between the two real neighbours.",
  ["inputs"], "every layout of up to 3 trajectories with 1-3(4) observations, identifiers with holes, every gap pattern, every virtual flag pattern",
  "one test checks a cumulative sum by track",
  [TRK, GRP, GEN], [("per track index", TRK + ":index_from_track"), ("kernels", TRK + ":track_loess_filter, track_median_filter, compute_index, " + GRP + ":get_missing_indices, filled_by_interpolation")],
  "exhaustive enumeration of trajectory layouts: result on the set equals results of trajectories alone", REAL)

p("C23", "Longitude handling never tears a trajectory, a contour or a line",
  "After longitude normalisation, wrapping or line splitting every longitude is congruent to its original modulo 360 degrees, contours stay within 180 degrees of their eddy centre, positions of a trajectory (or network) are within 180 degrees of its first one, requested ranges are respected, and lines, also those drawn by plot methods, are only cut where they cross the cut longitude.",
  ["inputs"], "every longitude of a lattice over [-360, 720] for up to 3 successive positions and contour points, every western bound of a set",
  "one test wraps two lines",
  [TRK, GEN, OBS], [("normalise", TRK + ":normalize_longitude"), ("wrap", GEN + ":wrap_longitude, split_line, flatten_line_matrix")],
  "exhaustive enumeration of longitude sequences against congruence and continuity oracles", REAL)

p("C24", "Network groups are the connected components of the similarity graph",
  "Two eddies get the same non-zero group if and only if a chain of pairs, each within the time window and with a sufficient overlap, joins them; eddies with no similar eddy get group zero; groups do not depend on names of pairs order, and the built dataset holds each detected eddy exactly once with its group, ordered by group then time.",
  ["inputs", "histories"], "every graph of links between up to 6 eddies over 3-4 files; every placement of 1-2 eddies per file over a lattice with window 1-2",
  "one test translates two groups",
  [NET], [("group", NET + ":Network.group_observations, get_group_array, group_translator, build_dataset")],
  "exhaustive enumeration of similarity graphs and detection histories against union-find", REAL)

p("C25", "Splitting a network gives disjoint time-ordered segments and mutual links",
  "When a group is split, each observation belongs to exactly one segment, each segment is a chain of observations with increasing times whose consecutive members point at each other, each observation has at most one next and one previous observation, within the time window, in the same network, linked only if contours overlap sufficiently, and the declared cost of a link is the similarity of its ends.",
  ["inputs"], "every placement of 1-2(3) eddies per date over 3-4 dates on a lattice with several degrees of overlap, windows 1-3",
  "one test splits nothing",
  [TRK, NET], [("split", TRK + ":split_network, follow_obs, set_tracks"), ("build", NET + ":from_split_network")],
  "exhaustive enumeration of placements on the real splitting against link invariants", REAL)

p("C26", "Network links stay valid through every operation",
  "After any sequence of sorting, selecting, removing, dissociating, renumbering, correcting, or removing dead ends, every link designates an observation of the result which is in the same network with a time strictly in the right direction, an observation kept with its linked neighbour keeps that link, no link to a removed observation remains, and rows of a segment are contiguous and in time order.",
  ["programs", "inputs"], "every sequence of up to 3 operations from every small network of a family (chains, splits, merges, loops, several networks, trash)",
  "tests never chain operations on a network",
  [NET, GRP], [("renumber links", NET + ":extract_with_mask, sort, remove_dead_end, correct_close_events, dissociate_network")],
  "breadth-first exploration of operation sequences on the real networks with an invariant on every state", REAL)

p("C27", "Relatives of a network are the reachable observations and segments",
  "Asking the descendants, ancestors or relatives of an observation or an event returns exactly the observations reachable through links and segments in the requested directions and order, forward never going to the past nor backward to the future, whatever the length of the network.",
  ["inputs"], "every network of up to 4 segments within a small family of links, every observation, every direction and order",
  "no test asks relatives",
  [NET], [("graph walk", NET + ":find_link, relatives, relative, connexions, find_segments_relative, path")],
  "exhaustive enumeration of small networks and queries against graph reachability", REAL)

p("C28", "Births, deaths, mergings and splittings are those implied by the links",
  "Merging, splitting, birth, death, generation and dissipation events listed for a network are exactly those implied by links of segments' ends: a merging for each segment end whose link points into another segment, a splitting for each segment start likewise, a birth or death otherwise, each listed once with right observations; close events and statistics around events are those of these events.",
  ["inputs"], "same family of networks as C27",
  "no test lists events",
  [NET], [("events", NET + ":merging_event, splitting_event, birth_event, death_event, generation_event, dissipation_event")],
  "exhaustive enumeration of small networks against a definition-level enumeration of events", REAL)

p("C29", "Identifying eddies of one dataset in another finds identical ones only",
  "Finding trajectories, networks or segments of a dataset in another one associates identifiers only if they have the same observations, reports minus one otherwise, finds every identical one, and index conversions between the two datasets designate the same observations.",
  ["inputs"], "every pair of datasets obtained by removing/moving observations of up to 3 small networks",
  "no test compares datasets",
  [NET, OBS], [("identify", NET + ":identify_in, network_segment, " + OBS + ":align_on")],
  "exhaustive enumeration of pairs of small datasets against set comparison", REAL)

p("C30", "Polygon predicates and measures agree with exact geometry",
  "Area, containment of a point which is not on the border, convexity, containment of a polygon (of all its vertices, modulo 360 degrees), overlap and union agree with exact geometry for every simple polygon whatever its first vertex and its direction, and by translation; the convex hull of a counter-clockwise polygon is its smallest convex enclosing polygon.",
  ["inputs"], "every simple lattice polygon with up to 5 vertices on a 3x3/4x4 lattice; every point of the half lattice",
  "tests check three shapes",
  [POLY], [("predicates", POLY + ":winding_number_poly, is_left, convex, get_convex_hull, poly_area, poly_contain_poly")],
  "exhaustive enumeration of lattice polygons against rational arithmetic", REAL)

p("C31", "Resampled and simplified contours keep their ends and their points",
  "Simplifying a contour returns the requested number of points, closed, all taken from the original contour in order, removing at each step a vertex of least effective area; uniform resampling returns points on the original line, equally spaced, with ends preserved; distance-based simplification keeps the first point, keeps undefined separators (a run of undefined points is one separator) and never keeps two consecutive points closer than the limit.",
  ["inputs"], "every closed lattice polyline with up to 6 vertices, every target size; every sequence of up to 5 points over a small alphabet with undefined values for simplification",
  "tests check one polygon",
  [POLY, GEN], [("visvalingam", POLY + ":visvalingam"), ("resample", GEN + ":uniform_resample, simplify")],
  "exhaustive enumeration of lattice polylines and target sizes against a naive algorithm", REAL)

p("C32", "Circle fits give the least-squares circle and a shape error in percent",
  "The circle fitted on a contour is the least-squares circle of its vertices (exact for points on a circle); its shape error is the difference of area between the circle and the contour, vertices out of the circle being brought back on it for the intersection, in percent of the circle: never negative for the fit of a convex shape inside the circle and zero only in the limit of a circle. Result does not depend on the first vertex, the direction, or a shift; geographic fits are done in local coordinates, follow shifts of 360 degrees, equal area circles have the area of the contour, and a point has no circle. An ellipse fitted on points of an ellipse is this ellipse.",
  ["inputs"], "every simple polygon of a 3x3 (4x3) lattice, every regular polygon of 4-12 (24) vertices, ellipses in every direction, positions over latitudes and longitudes including the 0 and 180 meridians",
  "tests fit two shapes",
  [POLY, SRC + "dataset/grid.py", GEN], [("fit", POLY + ":fit_circle, fit_circle_, shape_error, fit_ellipse"), ("geographic fit", GRID + ":BasePath fit_circle"), ("local coordinates", GEN + ":coordinates_to_local, local_to_coordinates")],
  "exhaustive enumeration of small polygons against exact rational least squares and an independent area computation", REAL)

p("C33", "Particle coherence tables count particles where they arrive",
  "Particles are created at every multiple of the step inside the contour of each eddy. For each starting eddy, tables of coherence give the best and second best arrival eddies and the percentages (whole numbers, truncated) of its particles which arrive in their contour after the requested number of days, forward or backward, whatever the order of eddies, the contours selected or the number of particles; particles lost or outside of eddies are counted nowhere but are in the reference. Every date for which the arrival date is in the period of the dataset has its table, with the currents of the right files.",
  ["inputs", "configurations"], "every arrival of 3-4 particles of 3 eddies; every number of particles in two targets; every pattern of presence of two eddies over 4-5 dates and durations of 1 to 3 days in both directions",
  "no test counts particles",
  [GRP, NET], [("tables", GRP + ":get_matrix, get_targets, particle_candidate, particle_candidate_step, particle_candidate_atlas"), ("coherence", NET + ":segment_coherence_forward, segment_coherence_backward"), ("mesh", POLY + ":create_meshed_particles")],
  "exhaustive enumeration of particle arrivals (through currents chosen by the harness) and of presence of eddies against counting", REAL)

p("C34", "Comparison of two detections puts each eddy in exactly one class",
  "Comparing two detections, each eddy of each side is in exactly one of the classes: no match (no valid score), low, intermediate, high (single association, by its score) or multiple match; eddies with multiple match are parents (exactly two associations with eddies which have no other one), twins (the two eddies of a parent) or complex. Tool of comparison displays the numbers, areas and percentages of these classes and writes exactly these eddies, for both contours and kinds of score.",
  ["inputs", "configurations"], "every association graph of up to 3x3 eddies (4x4 with up to 6 links), every couple of 8-11 detections through the tool",
  "no test compares detections",
  [SRC + "appli/eddies.py", OBS], [("classes", SRC + "appli/eddies.py:get_group, run_compare, display_compare, quick_compare")],
  "exhaustive enumeration of association graphs against definitions of classes, on the real function and tool", REAL)

p("C35", "Tracking tools process files in chronological order and sort tracks by length",
  "Tracking files given in any order, by a list or by a pattern in any folder, is the same as processing them in chronological order; irregular time steps and undated files are refused; files of the blank period are not used; observations are divided without loss between long, short and untracked files; raw or decoded, netCDF or zarr, in one run or in two runs joined by correspondences, the result is the same.",
  ["configurations", "inputs", "histories"], "every order of up to 4 files, every subset of dates, presence patterns of eddies, lengths, blank periods, formats",
  "no test runs the tools",
  [SRC + "appli/eddies.py", "src/scripts/EddyFinalTracking", "src/scripts/EddyMergeCorrespondances"], [("files", SRC + "appli/eddies.py:browse_dataset_in, track, eddies_tracking")],
  "exhaustive enumeration of file lists and options through the real entry points against an independent tracking of the scene", REAL)

p("C36", "Dataset tools do what their options say",
  "Subsetting trajectories and networks, merging, translating, circling, counting and grouping with command line tools gives the observations which satisfy the options, in the documented units whatever the storage of the file, with all their fields.",
  ["configurations", "inputs"], "every value of each option and every couple of options over small datasets, both formats and storages",
  "no test runs the tools",
  [SRC + "appli/eddies.py", SRC + "appli/network.py", "src/scripts/EddySubSetter", "src/scripts/EddyTranslate"], [("tools", SRC + "appli/eddies.py:merge_eddies, eddies_add_circle, get_frequency_grid"), ("network tools", SRC + "appli/network.py:subset_network, build_network, divide_network, quick_compare")],
  "exhaustive enumeration of options through the real entry points, against predicates on decoded observations", REAL)

p("C37", "Stored characteristics of a detected eddy are those of its contours",
  "For every detected eddy, the stored contours are level lines of the field (with the asked sampling), the center and radius of each contour are those of its least-squares circle, areas and shape errors are those of this contour, the speed contour is the contour, between the inner and the effective one, along which the mean speed is maximal (contours with less than the minimal number of pixels excepted), the speed average and the profile of mean speeds are means of the speed along these contours from the outer to the inner one, heights of contours are their levels, the amplitude is the difference between the extremum and the effective contour, and the time is the one given.",
  ["inputs", "configurations"], "every profile of heights with up to 6 levels, every shape of patches of a small mesh, positions on regional and global grids over latitudes and the cut of longitudes, samplings, minimal numbers of pixels, speed fields",
  "tests look at the number of eddies only",
  [GRID, SRC + "eddy_feature.py", POLY], [("detection", GRID + ":eddy_identification, get_uavg"), ("contours", SRC + "eddy_feature.py:Contours, Amplitude"), ("circle", POLY + ":fit_circle")],
  "exhaustive enumeration of small fields through the real detection against characteristics computed again from level lines of an independent contouring", REAL)

p("C38", "Level lines are complete, closed and joined over the edge of longitudes",
  "Level lines used by the detection are all the closed lines of each level, each one once, closed and continuous, including the ones which are cut, once or several times, by the edge of a global grid; the line of a level searched around a point is the nearest of those whose box contains the point; a field without closed line (constant, masked, nearly masked) has no eddies.",
  ["inputs"], "every small pattern of heights (2 and 3 values, up to 16-18 pixels) cut at every column by the edge of a global grid; every pattern of 4x3 (4x4) pixels and points every half pixel; every mask of 3x3 pixels",
  "tests use one regional field",
  [SRC + "eddy_feature.py", GRID], [("lines", SRC + "eddy_feature.py:Contours"), ("cut", SRC + "eddy_feature.py:find_wrapcut_path_and_join, get_next"), ("around", SRC + "eddy_feature.py:index_from_nearest_path_with_pt_in_bbox_")],
  "exhaustive enumeration of small fields through the real class, against lines of an uncut grid and a naive search", REAL)
