#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
M='src/core/maps/'; S='src/core/scan_matchers/'; C='src/core/'; ST='src/core/states/'; G='src/slams/gmapping/'; U='src/utils/'

p('C01','Unbounded grid maps remember every update, wherever and in whatever order',
 'After any sequence of updates and resets at any cell coordinates, however far outside the current extent, an unbounded map returns for each touched cell exactly the value produced by the operations addressed to that cell in order, and the prototype (unknown) value for every other cell. Growing the map never moves, loses or duplicates an already stored cell, and never changes the world position of any cell.',
 ['histories','inputs'],'every short history of update/reset/read on the plain and the lazily tiled unbounded map, with arbitrary (symbolic) cell coordinates on all sides of the extent, arbitrary small initial extents and arbitrary stored values',
 'Tests grow a map in a handful of fixed directions by fixed amounts; growth in two dimensions, repeated growth, odd extents and interaction of several cells are not covered.',
 [M+'plain_grid_map.h',M+'lazy_tiled_grid_map.h',M+'grid_map.h'],
 [('growth with prepend/append counts and origin shift','ensure_inside, determine_cells_nm, extra_tiles_nm'),('copy of unknown cell before write','ensure_sole_owning')],
 ['reading cells through the map interface after each operation'])
p('C02','Copies of a lazily tiled map are independent of each other',
 'After a lazily tiled map is copied, any later update, reset or growth of either copy is visible only in that copy; the other copy keeps returning, for every cell, the value it had when the copy was made. Likewise writing one cell never changes any other cell that happens to share storage with it, including cells that have never been written.',
 ['histories','inputs'],'every history of writes to the original and the copy (before and after copying) within the stated number of operations, arbitrary coordinates and values',
 'Tile and cell sharing is invisible in single-map tests; the failure needs two maps, a shared tile and a particular write order.',
 [M+'lazy_tiled_grid_map.h'],[('copy-on-write of tiles and cells by use count','ensure_sole_owning')],['reads of both copies'])
p('C03','World, cell and storage coordinates of a grid agree with each other',
 'Every world point belongs to exactly the cell whose bounds (half-open square of the current scale) contain it; the centre of a cell maps back to that cell; cell bounds have the size of the scale; external and storage coordinates are mutual inverses, and a bounded map has a cell exactly if its storage coordinate lies in the extent.',
 ['inputs','configurations'],'all points and cells within the stated ranges, all scales of the stated set and symbolic scales, all small extents',
 'Tests use a few points, mainly positive coordinates and scale 1.',
 [M+'regular_squares_grid.h',M+'grid_map.h'],[('floor of the scaled coordinate, origin offset','world_to_cell, cell_to_world, world_cell_bounds, external2internal')],['return values'])
p('C04','A beam visits a connected, non-repeating chain of cells from start to end',
 'For every segment, the sequence of cells it is rasterised to begins with the cell containing the start point, ends with the cell containing the end point, moves to a neighbouring cell at each step, never visits a cell twice and never leaves the bounding box of its end cells. The same holds for the integer line between two cells. The cells of a segment are exactly those it passes through, up to rounding (where it passes through a corner, the step may be diagonal), however long it is.',
 ['inputs','configurations'],'all segments with end points within the stated number of cells (all slopes, all signs, points on cell borders), for symbolic real coordinates',
 'Tests enumerate a fixed set of directions through cell centres; rounding near cell corners and borders is decisive and cannot be sampled.',
 [M+'regular_squares_grid.h',C+'geometry_discrete_primitives.h'],[('error-driven traversal with a fail-over to the integer line','world_to_cells, DiscreteSegment2D')],['returned cell sequence'])
p('C05','Integrating a scan changes only the cells its beams cross, and in the right way',
 'Adding a scan to a map updates exactly the cells crossed by the accepted beams: the cell of an occupied end point (and, with wall blurring, only cells within the blur distance in front of it on the beam) receives the occupied observation, crossed cells nearer the sensor receive the free one, all with the given quality. Beams that exceed the usable range, or lie within the configured margin, and unoccupied end points never put an obstacle into the map.',
 ['inputs','configurations'],'arbitrary sensor position, range, heading, occupancy flag, quality, range limit, blur distance and margin, for one and two beams within the stated extent',
 'Tests add a single fixed scan to small maps; a wrong cell at particular angle/blur/range combinations or a dropped flag goes unnoticed.',
 [M+'grid_map_scan_adders.h'],[('per-beam walk with blur and quality','GridMapScanAdder::append_scan, WallDistanceBlurringScanAdder::handle_scan_point')],['updates received by the map'])
p('C06','Occupancy estimates of a crossed cell are valid and consistent probabilities',
 'The occupancy estimate derived from a beam and a cell is either "not available" or a probability and a quality in [0,1]; for the area-based estimator it depends only on how the beam divides the cell: an obstacle is as probable as the share of the cell behind the end of the beam (at least the base probability of free space), a pierced cell is free with the base quality scaled by the smaller share the beam cuts off, a partly crossed one has the quality of unknown space, and a beam that misses or just touches the cell yields no estimate. It does not change when the cell and the beam are shifted together and does not depend on which cells were estimated before. The constant estimator returns the configured occupied/free estimate according to the occupancy flag.',
 ['inputs','histories'],'all beams and cells in the stated ranges, including beams along edges and through corners, and any earlier call',
 'Tests compare a table of fixed configurations in one cell of one size; history dependence needs two calls with differing cells.',
 [M+'area_occupancy_estimator.h',M+'const_occupancy_estimator.h',M+'cell_occupancy_estimator.h'],[('chunk area of the cell cut by the beam','AreaOccupancyEstimator::estimate_occupancy')],['returned estimate'])
p('C07','Cell estimates stay probabilities and ignore invalid observations',
 'For every cell model, once it has received a valid observation and whatever finite sequence of observations follows, the stored occupancy is in [0,1]; an observation without a valid estimate leaves the cell exactly as it was; each model computes the documented estimate (running average of valid observations, quality-weighted blend with the last one, hit ratio, or fused belief).  A clone behaves as the original and is independent of it.',
 ['histories','inputs'],'all sequences of valid and invalid observations (arbitrary probability, quality in range) up to the stated length, and one step from an arbitrary reachable state',
 'Tests apply a few fixed observations; the invariant needs every history.',
 [M+'naive_grid_cells.h',M+'grid_cell.h',M+'tbm_grid_cells.h',G+'gmapping_grid_cell.h','src/slams/credibilist/grid_cell.h'],[('per-model fusion rule guarded by validity','operator+=')],['occupancy of the cell'])
p('C08','Belief fusion obeys the laws of evidence combination',
 'Combining two beliefs yields non-negative masses that sum to one, does not depend on the order of the operands, and leaves a belief unchanged when the other is vacuous; after normalisation no mass stays on the conflict unless the operands totally contradict each other. Converting a belief to an occupancy and back respects the order free < unknown < occupied and stays in [0,1].',
 ['inputs','histories'],'all pairs of beliefs reachable by observation, symbolically',
 'Tests check a small table of masses.',
 [M+'transferable_belief_model.h',M+'tbm_grid_cells.h','src/slams/credibilist/TBM_prob_conversion.h'],[('conjunctive/disjunctive combination and normalisation','TBM operators')],['masses'])
p('C09','Saving and loading a cell or a map reproduces it exactly',
 'For every cell model and map type that supports saving, a cell or map loaded from the bytes written by saving another one has the same extent, scale, origin and, for every cell, the same value, and it reacts to every further observation exactly as the saved one would. Several values written one after another are read back in order, each consuming exactly its own bytes.',
 ['histories','inputs'],'all values written, every short update history before saving and one further update after loading, all small extents including grown ones',
 'Tests round-trip a few maps and compare only the occupancy right after loading.',
 [C+'serialization.h',M+'plain_grid_map.h',M+'rescalable_caching_grid_map.h',M+'naive_grid_cells.h',M+'tbm_grid_cells.h',M+'grid_cell.h',G+'gmapping_grid_cell.h'],[('byte-wise serializer','Serializer, Deserializer, serialize/deserialize, save_state/load_state')],['state of the loaded object'])
p('C10','Every coarse level of a multi-resolution map bounds the levels below it',
 'After any history of updates, resets and growth, the value stored for a coarse area of a multi-resolution map is an upper bound for the scan-matching impact of every finest-level cell inside the area that has been observed. Reading a map at a requested scale uses the finest level whose cells are at least that large, and changing the scale never alters any stored value.',
 ['histories','inputs'],'all update histories of the stated length with symbolic coordinates and values inside and outside the initial extent, all requested scales',
 'Tests fill a fixed map in a fixed order; the bound can be lost only by specific orders of raising and lowering values or by growth.',
 [M+'rescalable_caching_grid_map.h',S+'observation_impact_estimators.h'],[('propagation of updates to cached coarse maps','M3RSMRescalableGridMap::reset/update, rescale')],['values at every level'])
p('C11','The pose found by enumeration matching is the best of the poses tried',
 'For every scoring function and every sequence of candidate poses, the returned probability is the highest score among the initial pose and the candidates, the returned correction leads from the initial pose to a pose having that score, and the result is never worse than the initial pose. Observers are told of the start, of each candidate with its score, of each improvement and of the end, and only current subscribers are told.',
 ['inputs','histories'],'arbitrary scores (symbolic) for up to the stated number of candidates, arbitrary initial pose',
 'Tests use one scoring function per fixture; best-of over every score sequence, ties included, is not reachable.',
 [S+'pose_enumeration_scan_matcher.h',S+'grid_scan_matcher.h'],[('keep-best loop with feedback to the enumerator','process_scan')],['returned score, correction and observer calls'])
p('C12','Exhaustive pose enumeration covers the requested window around each new pose',
 'For every window and step, a brute-force enumeration visits poses spaced by the configured steps that together cover the configured window around the pose being corrected, visits none of them twice, stays within one step of the window, and then ends. Started again for the next scan, it searches around the new pose in the same way.',
 ['configurations','histories'],'all window/step combinations within the stated number of grid points, any base pose, two consecutive searches',
 'Tests run one enumeration with a zero base pose.',
 [S+'brute_force_scan_matcher.h',S+'pose_enumerators.h'],[('nested counters over x, y and angle','BruteForcePoseEnumerator')],['sequence of poses'])
p('C13','Local pose searches terminate within their limits and refine as configured',
 'Hill climbing and Monte-Carlo search end after finitely many candidates whatever the scores are: a search stops once its failure or refinement limit is reached, a success re-centres the search on the better pose, a round of hill climbing tries a step both ways along every axis, an unsuccessful round halves the step, and a success after more than a third of the allowed failures halves the dispersion of the Monte-Carlo search.',
 ['inputs','histories'],'every accept/reject feedback sequence up to the stated length, symbolic initial poses and distortions',
 'Tests use one landscape each; termination and step handling depend on the feedback history.',
 [S+'hill_climbing_scan_matcher.h',S+'hcsm_fixed.h',S+'monte_carlo_scan_matcher.h'],[('failure and refinement counters','HillClimbingPoseEnumerator, GaussianPoseEnumerator feedback')],['sequence of candidate poses'])
p('C14','Branch-and-bound matching returns the same best score as exhaustive search',
 'Multi-resolution matching with score bounds returns a match whose score equals, up to the configured accuracy, the best score attainable over the finest candidates of its search window, and never below that of the initial pose. A scan that cannot be scored is answered with the unknown likelihood and no correction. Whatever happens inside, the map is left at the scale it had before.',
 ['inputs','histories'],'all scoring functions with consistent bounds over windows with the stated number of finest cells',
 'Tests compare against brute force in a few environments; the argument needs every score assignment.',
 [S+'m3rsm_engine.h',S+'bf_multi_res_scan_matcher.h'],[('priority queue over split windows, restored scale','M3RSMEngine, Match, BruteForceMultiResolutionScanMatcher')],['returned score and map scale'])
p('C15','Scan likelihood is the weighted mean of its point likelihoods',
 'The likelihood of a scan is the weighted average of the likelihoods of its usable points: it lies between the lowest and the highest of them, equals their common value if all agree, is unchanged when all weights are scaled, and is reported as unknown exactly when no point has weight. The filter applied before matching keeps exactly the occupied points that are inside the map and within the configured range, at the configured stride.',
 ['inputs','configurations'],'arbitrary point likelihoods, weights, ranges and flags for scans of up to the stated number of points and strides',
 'Tests use constant likelihoods and one scan layout.',
 [S+'weighted_mean_point_probability_spe.h',S+'grid_scan_matcher.h'],[('weighted accumulation, point filter','WeightedMeanPointProbabilitySPE::estimate_scan_probability, filter_scan')],['returned probability; filtered scan'])
p('C16','Obstacle likelihood estimators return probabilities consistent with the map',
 'Every estimator of how likely the map explains an observed obstacle returns a value in [0,1] determined by the current map values in the observed area and the observation alone: the point estimator uses the cell hit, the maximum estimator the highest and the mean estimator the average over the observed area, the overlap-weighted one lies between the lowest and highest. It never depends on observations evaluated earlier.',
 ['inputs','histories'],'arbitrary map values, areas up to the stated size, impacts of both kinds, and preceding evaluations',
 'Tests use uniform maps and one area.',
 [S+'occupancy_observation_probability.h',S+'observation_impact_estimators.h',G+'gmapping_occupancy_observation_pe.h'],[('area scan over cells','ObstacleBased/Max/Mean/Overlap estimators')],['returned probability'])
p('C17','Angle histogram accounts for every scan direction',
 'For every scan without coincident neighbours the angle histogram is built without failing, counts each pair of consecutive points exactly once in the bin containing the direction between them, and reports for each point the bin of its own direction. Directions along the axes, including those a rounding error away from an axis, are handled like any other.',
 ['inputs'],'all pairs of points in the stated range including nearly horizontal and vertical ones, all small numbers of points',
 'Tests use a handful of directions; the failing directions are a measure-zero set.',
 [C+'features/angle_histogram.h'],[('direction to bin mapping','AngleHistogram::reset, hist_index')],['bin contents'])
p('C18','Rectangles split, intersect and overlap consistently',
 'Splitting a rectangle horizontally, vertically or into quarters yields parts that tile it exactly without overlap; the intersection of two rectangles contains exactly the points in both; the overlap ratio is the intersection area relative to the rectangle, lies in [0,1] and is 1 for a containing rectangle; containment tests agree with the bounds.',
 ['inputs'],'all rectangles (symbolic bounds)',
 'Tests intersect a table of rectangles; crossing configurations are excluded by a comment.',
 [C+'geometry_primitives.h'],[('corner and bound arithmetic','LightWeightRectangle')],['returned rectangles and numbers'])
p('C19','Rasterising a rectangle yields each overlapped cell exactly once',
 'Iterating the cells of a rectangle on a grid yields every cell whose area the rectangle overlaps, no cell the rectangle does not touch, each exactly once, and then reports the end. Without its border the rectangle of a cell yields exactly that cell; a rectangle without width or height yields the cells along it.',
 ['inputs','configurations'],'all rectangles within the stated number of cells, inside, partly outside or degenerate, all small scales',
 'Tests use a few aligned rectangles.',
 [M+'grid_rasterization.h'],[('row-wise iteration over the index range','GridRasterizedRectangle')],['iterated cells'])
p('C20','Scan points convert between frames without losing the point',
 'Converting a scan point between polar and Cartesian form, moving it by an offset or rotating it keeps it at the geometrically correct place and keeps its occupancy; a cached trigonometry provider yields, for every angle of the scan and any base rotation, the values a direct computation would give, and never reads outside its table.',
 ['inputs','configurations'],'all ranges, angles, offsets and base rotations in the stated ranges',
 'Tests sample a few angles.',
 [ST+'sensor_data.h',C+'trigonometry_utils.h'],[('polar/Cartesian conversions, angle-difference identities','ScanPoint2D, CachedTrigonometryProvider')],['coordinates and sines/cosines'])
p('C21','A scan moves the pose by odometry plus correction, then maps at that pose',
 'Handling sensor data moves the pose estimate first by the odometry delta and then by the matcher correction computed from exactly that predicted pose and the current map, the state of the matcher having been reset; the scan is then added to the map at the corrected pose with the localised quality if a correction was found and the raw quality otherwise. Each live subscriber is notified exactly once with the final pose and map, expired ones never.',
 ['inputs','histories'],'arbitrary odometry, corrections, qualities and margins over a history of scans, with subscribers coming and going',
 'Tests do not exercise the world object with arbitrary matcher answers.',
 [ST+'single_state_hypothesis_laser_scan_grid_world.h',ST+'laser_scan_grid_world.h',ST+'world.h',ST+'robot_pose.h'],[('sequencing of prediction, matching, mapping, notification','handle_sensor_data, handle_observation')],['calls made to matcher, map builder and observers'])
p('C22','Particle weights stay a distribution and resampling follows it',
 'After construction, normalisation or resampling the particle weights are non-negative and sum to one, and the number of particles is unchanged. Resampling happens exactly when the effective sample size falls below half the particle count (in GMapping only after enough motion), picks each particle for exactly the share of draws falling into its weight interval, and never makes two entries share one particle or its map; a resampled particle goes on with the pose and map of its origin. The reported best particle has maximal weight.',
 ['inputs','histories','schedules'],'all weight vectors and all random draws for up to the stated number of particles, sequences of reweighting and resampling',
 'Randomness and weights are not controllable in unit tests and the module has few of them.',
 [C+'particle_filter.h',G+'gmapping_particle_filter.h',G+'gmapping_world.h'],[('cumulative weight selection, duplicate cloning','UniformResamling, ParticleFilter')],['weights and particle identities'])
p('C23','A GMapping particle integrates a scan only after sufficient motion',
 'A particle accumulates odometry rotated into its own heading. It matches a scan exactly when the distance (component-wise sums of absolute movements) or the rotation travelled since its last matching reached the thresholds drawn for it, then multiplies its weight by the likelihood of the match (unless that is unknown), moves its pose by the correction, and maps the scan at that pose if it is likely at all or its first one. Otherwise map and weight stay as they were and the pose changes by the odometry only. The master particle is not moved by noise, every other one is, and no particle repeats the random choices of another one; the filter always has a master.',
 ['inputs','histories'],'arbitrary odometry sequences, thresholds and matcher answers',
 'No test drives the particle over a sequence of scans.',
 [G+'gmapping_world.h',G+'gmapping_particle_filter.h'],[('motion gates and weight update','GmappingWorld::handle_observation, update_robot_pose')],['calls to matcher and map builder, weight'])
p('C24','Generated and exported maps and scans describe the same environment',
 'A dumped map image contains one pixel for every cell with the value determined by its occupancy, in image row order; patching a map from a raster sets exactly the raster\'s cells to occupied or free at the given offset and scale; a synthetic scan reports along each ray the nearest obstacle of the map or nothing when there is none in range.',
 ['inputs','configurations'],'all small maps, rasters, offsets and scan geometries within the stated sizes',
 'Tests check a single raster or world each.',
 [U+'map_dumpers.h',U+'data_generation/grid_map_patcher.h',U+'data_generation/map_primitives.h',U+'data_generation/laser_scan_generator.h'],[('cell loops','GridMapToPgmDumber, GridMapPatcher, LaserScanGenerator')],['bytes written, cells set, scan points'])
p('C25','Configuration values reach the component they are documented for',
 'A configured value is returned for exactly its own key with its type, missing keys yield the documented default (for files, launch parameters of any type and the parameters of the ROS nodes), and the objects built from a configuration behave according to the documented keys (map extent and scale, estimators, weighting, scan filter and matcher limits).',
 ['configurations'],'all values (symbolic) and all presence/absence combinations of the documented keys',
 'Tests set a few keys in a few tests; defaults and swapped or misspelt keys go unnoticed.',
 [U+'properties_providers.h','src/ros/launch_properties_provider.h','src/ros/init_utils.h',U+'init_occupancy_mapping.h',U+'init_scan_matching.h',U+'init_slam.h',G+'init_gmapping.h'],[('key lookup and factory functions','init_*')],['observable behaviour of the constructed objects'])
p('C26','Pose arithmetic and floating-point helpers obey their algebraic laws',
 'Adding a delta to a pose and subtracting the original gives the delta back up to rounding; composition of deltas is component-wise; comparing numbers with tolerance is symmetric and reflexive and agrees with exact comparison outside the tolerance; clamping always returns a value within its bounds; the rounding-up power helper returns the least power not below its argument.',
 ['inputs'],'all finite arguments in the stated ranges, at the level of IEEE arithmetic for the helpers',
 'Tests sample single values.',
 [C+'math_utils.h',ST+'robot_pose.h',C+'geometry_primitives.h'],[('helper functions','are_equal, less, bound_value, RobotPose operators')],['return values'])
p('C27','Drift analysis corrects a match only along the prevailing scan direction',
 'The ambiguous drift detector runs the matcher it wraps exactly once on the given scan, pose and map. If no direction (one of 20 bins of angles between consecutive points of the filtered scan) holds at least 40% of the points, the result of the wrapped matcher is returned unaltered. Otherwise the match is only shifted along the prevailing direction as it lies in the map (the scan is taken at the matched heading), by at most 0.25 either way and tried at least every 0.1, without rotation, and only to a pose at which the points of the other directions are more likely; the returned score is that of the whole filtered scan at the final pose. Resets reach the wrapped matcher.',
 ['inputs'],'all mixtures of three directions over the stated number of points; all scores, poses and corrections for the stated scans',
 'No test runs the detector at all.',
 [S+'connect_the_dots_ambiguous_drift_detector.h',S+'pose_enumerators.h',C+'features/angle_histogram.h'],[('filtering by direction and shifting along it','ConnectTheDotsAmbiguousDriftDetector::process_scan')],['returned delta and score, poses and scans scored'])
R='src/ros/'
p('C28','Laser scan messages become the scans they stand for',
 'Every measurement of a laser scan message that is not below the minimal range becomes, in order, one point of the scan at the angle of the beam (minimal angle plus index times increment): an obstacle at the measured range, or, at or beyond the maximal range, a free point at the maximal range (left out if so configured). Measurements below the minimal range and failed ones (NaN) are dropped. A message is handed over exactly once, with quality 1 and with the movement of the scanner since the previous message (from the origin for the first one, the heading modulo a full turn). With cached trigonometry the points lie where they do without.',
 ['inputs','configurations','histories'],'all ranges, range limits and poses of the scanner; the stated beam angles; all combinations of the options',
 'The ROS layer is not built by the tests at all.',
 [R+'laser_scan_observer.h',C+'states/sensor_data.h',C+'trigonometry_utils.h'],[('conversion of messages and odometry','LaserScanObserver::msg2scan, handle_transformed_msg')],['the scan handed over'])
p('C29','Published maps, transforms and trajectories describe the world',
 'A published map message has the size, resolution and origin of the map and holds, row by row, the occupancy of every cell in percent rounded down (-1 for unknown); maps are published at most once per configured interval, and whenever it has passed. The published correction carries the last odometry to the pose of the world, synchronously at each pose and asynchronously in every round of the publishing thread, however it interleaves. Robot poses are published once each with their frames and time (that of the observation if so configured). Each subscriber of a topic that still exists gets every message once, with the transform at the time of the message; messages without one are skipped. A trajectory file has one line per pose: time with nine decimals of a second, place and unit quaternion.',
 ['inputs','histories','schedules'],'all occupancies, poses and odometry components, the stated map shapes and headings, all update times, all interleavings of one publishing thread at lock boundaries',
 'The ROS layer is not built by the tests at all.',
 [R+'occupancy_grid_publisher.h',R+'pose_correction_tf_publisher.h',R+'robot_pose_observers.h',R+'topic_with_transform.h'],[('publishers','on_map_update, on_pose_update, publish_map_to_odom, transformed_msg_cb, log_robot_pose')],['messages and transforms published, lines written'])
p('C30','Playing a bag delivers every placeable scan once, in order, with its transform',
 'Playing a bag delivers the scans of the requested topic in recorded order, each at most once, with the transform from its own frame to the target frame at its own time. A scan waits as long as later transforms may place it, even if none have been recorded yet, and is dropped only if it is older than all known transforms; once the bag has ended every scan lying between the first and the last known transform has been delivered. Transforms listed as ignored are never used, all others are. The program that plays bags understands its arguments in any order, hands each delivered scan to the SLAM once, logs one line of trajectory per scan with the time of the scan, and writes the map if asked to.',
 ['histories','inputs'],'all orders of scans, transforms and other messages in bags of the stated length, all times and places; all orders of the arguments',
 'The ROS layer is not built by the tests at all.',
 [R+'bag_topic_with_transform.h',R+'lslam2D_bag_runner.cpp',R+'init_utils.h'],[('synchronisation of scans with transforms','BagTopicWithTransform::extract_next_msg, has_synced_msg'),('the program','ProgramArgs::init, run_slam')],['scans and transforms delivered, files written'])
p('C31','Running nodes publish a fitting correction, pose and map after every scan',
 'Each SLAM node (single hypothesis, credibilist, GMapping), started with its documented parameters (or, for the single hypothesis node, a configuration file), listens to the configured scan topic and answers every scan with exactly one map-to-odometry correction that carries the odometry of that scan to the published pose, one robot pose in the configured frames (stamped with the time of the scan by GMapping, with the present time by the others), and, once the publishing interval has passed, the map, which has the configured extent and shows the obstacles seen. Without scan matching the pose is that of the odometry and the correction is none.',
 ['histories','configurations'],'all places of the robot over the stated number of scans, given headings',
 'The nodes are not built by the tests; the order in which their parts are connected is only a comment in the code.',
 [R+'single_hypoth_slam_node.cpp','src/slams/credibilist/slam.cpp',G+'gmapping.cpp',R+'init_utils.h'],[('connection of scans, SLAM and publishers','main, create_*_publisher')],['transforms and maps published'])
p('C32','Recorded situations are replayed as they were',
 'The pose, scan and map that are dumped during a run are read back as they were: every point of the scan with its range, angle and occupancy in order, the pose, the extent and every cell of the map. The scan matching program started on them reports the correction and the probability that the configured scan matcher finds for that scan, pose and map.',
 ['inputs','configurations'],'all poses, ranges, angles and occupancies of cells; the stated matchers, cell models and skip rates',
 'Neither the dumping nor the replaying program is built or run by a test.',
 ['src/utils/sm_runner.cpp',R+'lslam2D_bag_runner.cpp','src/core/states/sensor_data.h','src/core/maps/plain_grid_map.h','src/core/maps/rescalable_caching_grid_map.h'],[('dump and set-up of a situation','dump_state, setup_pose2D, setup_laser_scan2D, setup_map, operator<< and >> of LaserScan2D')],['what the program reports'])
p('C33','Helper nodes pass on what they are given',
 'The path publisher asks in every round for the latest place of the robot frame in the map frame and publishes the path so far with that place (and its time and frame) added at the end; a lookup that fails is repeated and loses or adds nothing. The bag adapter sends every transform of every message on once, in order and unchanged, except that corrections from the map to the odometry frame are replaced by the first such correction, from the provided map to the map; the last provided map is published in every round in the frame provided_map.',
 ['histories','configurations'],'all places and times, all orders of the kinds of transforms over the stated number of rounds',
 'The nodes are not built by the tests.',
 [R+'path_publisher.cpp',R+'wg_pr2_bag_adapter.cpp',R+'init_utils.h'],[('path and correction state','main and get_current_pose of path_publisher, on_tf_msg and on_gt_grid of wg_pr2_bag_adapter')],['messages and transforms published'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(json.dumps(x))
