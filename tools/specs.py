"""What every check explores.  E(harness, entry, bounds, time) - one symbolic entry."""
def E(h, e, bounds='', time=60, **kw): return dict(harness=h, entry=e, bounds=bounds, time=time, **kw)
def A(h, entries, **kw): return [E(h, e, b, **kw) for e, b in entries]
SPECS = {
 'C01': {'entries': A('c01', [
    ('c01_plain_x', 'plain unbounded map, 3 operations in one row, symbolic coordinates and values (thorough: wider)'),
    ('c01_plain_xy', 'plain unbounded map, growth in both directions'),
    ('c01_tiled_x', 'lazily tiled map, 3 operations up to two tiles beyond each border'),
    ('c01_tiled_xy', 'lazily tiled map 140x8, growth in both directions'),
    ('c01_growth', 'every initial width up to 14 (64), one growth to any coordinate in range')], time=60),
  'assumptions': ['histories of three operations and one read; stored cells are told apart by an order-sensitive test cell model']},
 'C02': {'entries': A('c02', [
    ('c02_bounded', 'bounded map of 130x6 cells, symbolic coordinates around the tile border, one operation before and one on each copy'),
    ('c02_unbounded', 'unbounded map, coordinates in [-70,60] (both sides of the tile borders)'),
    ('c02_grow', 'both copies grow by up to 2 tiles (thorough: 4) after the copy'),
    ('c02_assign', 'copy assignment over a different map'),
    ('c02_chain', 'copy of a copy, any of the three changed afterwards, coordinates within 3 (20)')], time=60),
  'assumptions': ['one operation per map after the copy']},
 'C03': {'entries': A('c03', [
    ('c03_world', 'scales {1,0.25,0.1,0.3} (thorough: 9 scales), coordinates any double in [-1000,1000], other cell up to 3 away'),
    ('c03_cell', 'same scales, cell indices in [-30000,30000]'),
    ('c03_storage', 'default origin, extents 1..100000, cell indices within 10^6'),
    ('c03_storage_shifted', 'any origin in [-1000,100000]^2'),
    ('c03_infinite', 'infinite scale, coordinates within 10^6'),
    ('c03_discrete', 'cell arithmetic, indices within 10^5')]),
  'assumptions': ['on scales that are no powers of two a point is attributed to its cell up to 1e-9 m (rounding of the division)']},
 'C04': {'entries': A('c04', [
    ('c04_fan_out', 'scales {1,0.1} (thorough: 4), 2 (7) start positions, every end point within 2 (4) cells'),
    ('c04_fan_in', 'scale 1, every start within 2 (4) cells on a 1/1024 lattice, 2 (7) end positions'),
    ('c04_slide', '7 directions up to 5 cells long, every start within a cell on a 1/256 lattice'),
    ('c04_discrete', 'integer lines up to 12 (24) cells in both directions from any cell within 1000')], time=60),
  'assumptions': ['segments with both ends symbolic at once are covered for 7 fixed directions only']},
 'C07': {'entries': A('c07', [
    ('c07_mean', 'any 3 observations (valid or not, any probability, 5 qualities)'), ('c07_mean_long', '6 valid observations'),
    ('c07_affine', 'any 3 observations'), ('c07_affine_long', '6 valid observations'), ('c07_base', 'any observation'),
    ('c07_gmapping', 'any 3 observations with obstacle points'),
    ('c07_tbm_even', '2 observations, any probability, 5 qualities'), ('c07_tbm_consistent', 'same'), ('c07_credibilist', 'same'),
    ('c07_tbm_q', 'one observation, any quality'), ('c07_tbm_even_conc', 'histories of 3 observations over a value grid'), ('c07_tbm_consistent_conc', 'same'), ('c07_credibilist_conc', 'same'),
    ('c07_clone', 'every cell model, one observation before and one after cloning'), ('c07_discrepancy', 'every cell model, any observation')], time=60),
  'assumptions': ['occupancy of a cell that never received a valid observation is the marker of its prototype', 'belief fusion histories of more than two fully symbolic observations are covered on a value grid only']},
 'C08': {'entries': A('c08', [
    ('c08_pair', 'any normalised belief with each of a set of beliefs'), ('c08_pair_sym', 'any two beliefs reachable from observations'),
    ('c08_neutral', 'any belief'), ('c08_associative', 'any belief with two fixed ones'), ('c08_normalize', 'any non-negative masses up to 1'),
    ('c08_convert', 'any occupancy'), ('c08_monotone', 'any two ordered occupancies'), ('c08_credibilist', 'any belief')], time=60),
  'assumptions': ['masses compared up to 1e-9']},
 'C09': {'entries': A('c09', [
    ('c09_cell', 'mean and gmapping cells after any 2 observations, 1 more afterwards'), ('c09_base_cell', 'any occupancy'),
    ('c09_values', 'sequences of values of different sizes, any contents'),
    ('c09_map', 'unbounded map up to 5x5 cells after 2 symbolic updates, then one more'),
    ('c09_levels', 'multi-resolution unbounded map, every level'), ('c09_m3rsm', 'bound-caching multi-resolution map, every level')], time=60),
  'assumptions': ['only map types that implement saving (plain unbounded and multi-resolution ones) are claimed']},
 'C11': {'entries': A('c11', [
    ('c11_contract', 'up to 3 (5) candidates, any poses and scores, one unscorable candidate, observers'),
    ('c11_repeat', 'two searches with subscriptions changed in between'),
    ('c11_brute_force', '9 candidates (thorough: 18), any scores'), ('c11_hill_climbing', '7 (10) any scores, then no improvement'),
    ('c11_monte_carlo', '5 (7) candidates, any variates and scores'), ('c11_idle', 'any pose')], time=60),
  'assumptions': ['scores come from a stand-in estimator returning any value in [0,1] per pose']},
 'C12': {'entries': A('c12', [
    ('c12_window', 'any window of up to 4x2x1 (6x3x2) steps, any steps in [1/16,2] and base pose on a 1/16 lattice'), ('c12_window_t', 'up to 1x2x3 (2x2x4) steps'),
    ('c12_again', 'a search of up to 9 candidates, reset at any point, then another one'), ('c12_matcher', 'brute-force matcher on two scans'),
    ('c12_polar', '3 (5) start directions, 2 steps, sectors up to 1 rad, up to 2 (3) distance steps, first or later search')], time=60),
  'assumptions': ['windows, steps and poses are on a 1/16 lattice (exact arithmetic)']},
 'C13': {'entries': A('c13', [
    ('c13_hill_climbing', 'up to 3 (4) failure rounds, any accept/reject answers in the first 3 (5) rounds, any steps'),
    ('c13_hill_climbing_again', 'the same after a search reset at any of 13 (21) points'),
    ('c13_hill_climbing_matcher', 'the matcher on two scans, with and without frame alignment'),
    ('c13_monte_carlo', 'every accept/reject sequence of up to 8 (10) candidates, any variates'), ('c13_monte_carlo_again', 'after an earlier search'),
    ('c13_fixed_improving', 'limits 0..2, scores that always improve, two scans'), ('c13_fixed', 'any scores during the first move')], time=60),
  'assumptions': ['random variates are symbolic values of mean + stddev * z, z in [-4,4]']},
 'C10': {'entries': A('c10', [
    ('c10_plain', 'bounded 5x2 map, every history of 2 (3) updates/resets (known or unknown values) at any cell, 2 impact estimators'), ('c10_plain_deep', 'bounded 3x1 map, 3 (4) operations'),
    ('c10_tiled', 'lazily tiled 4x2 map, 2 operations'), ('c10_growth', 'unbounded map of 1..3 x 1..2 cells, 2 updates within 6 (10) cells'), ('c10_growth3', '3 updates within 4 (5) cells'),
    ('c10_growth_tiled', 'lazily tiled unbounded map growing by tiles'), ('c10_mean', 'averaging cells, 3 updates'), ('c10_rescale', 'any requested scale in [0,64] or infinity, before and after growth')], time=60),
  'assumptions': ['values on a 1/64 lattice']},
 'C14': {'entries': A('c14', [
    ('c14_window', 'window 1x1 m, step 0.6, 5 (7) of 13 scores symbolic'), ('c14_fine', 'step 0.3, 3 (4) symbolic scores'), ('c14_wide', 'window 1.5x0.5, 3 (4) symbolic scores'),
    ('c14_tall', 'window 0.25x1.5, 4 (6) symbolic scores'), ('c14_rotations', '3-5 rotations, 3 (4) symbolic scores'), ('c14_scale', 'any scale selected before the search'), ('c14_no_range', 'rotations only'), ('c14_again', 'two matchings in a row with different scores'), ('c14_ranges', 'a matching after one within another window, 3 symbolic scores'), ('c14_many_rotations', '141 rotations, the first and the last of symbolic score'),
    ('c14_real', 'weighted mean / maximum estimators on a map with 5 symbolic cells'), ('c14_line', 'windows without width or height, 5 symbolic cells'), ('c14_bound', '7 areas (two of them lines), every pose of a 5x5 lattice inside, 4 (6) symbolic cells'), ('c14_bound_unknown', 'the same with unobserved cells')], time=60),
  'assumptions': ['scores are tables over the corners and centres of the finest areas with bounds consistent with them', 'windows and steps are the listed ones']},
 'C15': {'entries': A('c15', [
    ('c15_mean', 'up to 3 (4) points, any likelihoods and weights, weights in units of 3, 2^-30 or 2^20'), ('c15_common', 'up to 4 points, any weights'),
    ('c15_points', '2 (3) points, polar (any range) or Cartesian, any position, 3 (4) headings, any analysed area'), ('c15_weightings', 'the 3 weightings of the system on 3 scans of 5 points'),
    ('c15_empty', 'scans without usable points'), ('c15_unknown', 'any double in [-10,10]'), ('c15_filter', '3 (4) points, one of any range, any pose, strides 0..3, any range limit')], time=80),
  'assumptions': ['likelihoods of single points come from a table (C16 covers the real estimators)', 'points have factor 1', 'points closer than 1e-6 m to the border of the map or to the range limit may be kept or dropped']},
 'C16': {'entries': A('c16', [
    ('c16_hit', '3x3 arbitrary cells, any obstacle'), ('c16_max', 'any area in the window'), ('c16_mean', 'any area in the window'), ('c16_point', 'areas that are points'),
    ('c16_overlap', 'concrete areas over symbolic cells'), ('c16_overlap_any', 'any area: bounded by the lowest and the highest cell'), ('c16_history', 'an arbitrary earlier evaluation'),
    ('c16_gmapping', '3x3 neighbourhood, windows 0..1, cells with arbitrary obstacle means'), ('c16_gmapping_history', 'an earlier evaluation in the same or another cell, on another map, or before an update')], time=60),
  'assumptions': ['overlap-weighted averages are compared exactly for concrete areas only', 'overlap-weighted estimation over line areas is not claimed (the overlap ratio of a line is documented as unsupported)']},
 'C19': {'entries': A('c19', [
    ('c19_any', 'any rectangle up to 2x2 (3x3) cells, scales {0.5,0.1,1,1/4096} (7 scales up to 1024)'), ('c19_aligned', 'rectangles on cell borders'), ('c19_cell', 'bounds of any cell within 4'),
    ('c19_degenerate', 'points and lines anywhere'), ('c19_infinite', 'the whole grid, up to 4x4 cells')], time=60),
  'assumptions': ['cells the rectangle overlaps by less than 1e-7 m may be visited or not']},
 'C17': {'entries': [dict(e, opts=['--sym-store-fork', '400']) for e in A('c17', [
    ('c17_direction', 'one pair, any direction (one coordinate difference 1, thorough: any), 2 (6) resolutions'), ('c17_axis', 'directions within 1e-9 of the axes, any length, 4 (6) resolutions'),
    ('c17_scan', '3 pairs, one of any direction, the others from 3 (6) directions, fresh or used histogram'), ('c17_polar', '2 polar points, one of any range in [1,8]'),
    ('c17_close', 'one pair 1e-9 or 1e-13 m apart (thorough also 1e6), any direction'), ('c17_short', 'scans of 0..3 points after another scan, histogram reused')], time=70)],
  'assumptions': ['consecutive points are at least 1/16 m apart (c17_close: the listed distances)', 'acos is an uninterpreted function enclosed between breakpoints every 3 degrees']},
 'C05': {'entries': A('c05', [
    ('c05_beam', 'one beam of any range up to 3 (5) cells in 6 (8) directions, 2 positions and scales, 4 blur distances, occupied or not'), ('c05_position', 'any position within a cell (2x2 cells), 4 (8) directions'),
    ('c05_blur', 'any blur distance in [-2,8], 3 directions'), ('c05_range', 'any range and any limit of it, 3 directions'), ('c05_margin', 'scans of 0..5 points of any range, margins 0..3, any pose position and quality'),
    ('c05_quality', 'the 2 quality estimators on 3 scans of 5 points, with and without an earlier scan'), ('c05_cells', 'two beams, one of any range, into real cells'), ('c05_scans', '2 (3) of 3 scans in a row with 3 headings and any quality')], time=70),
  'assumptions': ['beam directions are concrete', 'cells within 1e-6 of the end point border may stand for the end cell', 'points have factor 1']},
 'C06': {'entries': A('c06', [
    ('c06_occupied', '10 (14) beam directions, any end in 3 (4) cells of different position and size'), ('c06_occupied_base', 'any base probabilities and qualities'),
    ('c06_free', '10 (14) directions, any line of that direction'), ('c06_free_base', 'any base probabilities and qualities'), ('c06_partial', 'any start and end within the cell, 5 (14) directions'),
    ('c06_outside', '5 (14) directions, any beam entirely at one side of the cell'), ('c06_edges', '35 beams along edges, ending or starting at them, through or up to corners; 3 sizes, any position of the cell, with and without earlier estimates'),
    ('c06_shift', '5 (14) directions, 24 beams each, any shift within 16 m'), ('c06_const', 'any configured estimates, beams and cells')], time=70),
  'assumptions': ['beam directions are concrete', 'beam ends closer than 1e-4 cells to an edge are covered by the listed exact shapes only', 'shares are compared to 1e-6']},
 'C21': {'entries': A('c21', [
    ('c21_history', '2 (3) scans with any odometry and correction (one concrete rotation), any two qualities, every choice of (un)subscriptions'), ('c21_turning', '1 (2) scans, 3 (4) rotations of the odometry, margins 0..1'),
    ('c21_empty', 'an empty scan, any odometry'), ('c21_odometry', '3 arbitrary odometry steps'), ('c21_matcher_observers', '3 scans, two observers, every history of (un)subscriptions')], time=60),
  'assumptions': ['the matcher and the map builder are stand-ins answering arbitrarily and recording their calls; corrections are zero or at least 1e-3 in a component']},
 'C22': {'entries': A('c22', [
    ('c22_new', '1..6 particles'), ('c22_normalize', '1..4 (5) particles of any weight in [0,8]'), ('c22_degenerate', '1..4 particles without weight'),
    ('c22_resample', '2..3 (4) particles, 5 weight vectors, any draws'), ('c22_resample_any', '3 particles, any weights and draws'), ('c22_required', '3..4 (5) particles, any weights'),
    ('c22_again', 'two resamplings of 3 particles, any draws'), ('c22_gmapping', 'GMapping filter of 1..3 particles, one scan of any odometry and likelihoods'), ('c22_motion', 'GMapping filter of 3 particles, 3 (4) scans with any movement along a line, 3 rotations, equal likelihoods or not'), ('c22_lineage', 'GMapping filter of 3 particles, resampling with any draws, then a second scan')], time=60),
  'assumptions': ['totals of weights are zero or at least 1/64', 'draws closer than 1e-9 to the border of two shares may pick either', 'std::random_device, the engines and the distributions are stand-ins that yield any value of their range']},
 'C23': {'entries': A('c23', [
    ('c23_straight', '2 scans, any odometry, thresholds, noise, likelihood, weight'), ('c23_turns', '2 (3) scans with 3 rotations each'), ('c23_often', '3 scans, threshold of the rotation may be reached at once'),
    ('c23_master', '3 scans of a particle becoming the master before the 1st or 2nd'), ('c23_unknown', 'a match of unknown likelihood'), ('c23_heading', '4 headings, two arbitrary odometry steps')], time=60),
  'assumptions': ['odometry within 1 m per step (component-wise), rotations from a list', 'the matcher and the map builder are stand-ins', 'a motion within 1e-9 of a threshold may or may not suffice']},
 'C24': {'entries': A('c24', [
    ('c24_dump', 'maps up to 3x3 cells (2 kinds) of concrete and 3 arbitrary occupancies'), ('c24_dump_tiled', 'a lazily tiled map of 3x2 cells'),
    ('c24_dump_grown', 'two images of a map that grows by up to 2 cells to any side'), ('c24_patch', 'up to 2 (3) lines of up to 3 arbitrary bytes, zooms 1..2 (3), any offset'), ('c24_patch_auto', 'the same, centred'),
    ('c24_primitive', 'dead ends up to 4x4 (6x6), any point of the free space'), ('c24_scan', '2 (3) scanners, 3 (5) headings, 3 (5) worlds of 3 cells of any occupancy, any position of the robot along an axis of its cell'),
    ('c24_beam', 'one beam, 10 headings, 5 worlds, any position of the robot in its cell')], time=70),
  'assumptions': ['streams are in-memory stand-ins', 'beam directions are concrete', 'beams passing within 1e-4 of a cell corner or ending within 1e-4 of an edge are not claimed', 'ranges are compared to 1e-6 and are those of the middle of the chord of the obstacle cell (what the generator documents by its code)']},
 'C18': {'entries': A('c18', [
    ('c18_intersect', 'all rectangles and points with coordinates in [-100,100]'),
    ('c18_split', 'all rectangles on a 1/64 lattice in [-16,16], any point'),
    ('c18_contains', 'all rectangles and points in [-100,100]'),
    ('c18_overlap', 'rectangles with an area on a 1/64 lattice in [-16,16], in units of 1, 1/16384 or 1024'),
    ('c18_overlap_point', 'point rectangles against rectangles with an area'),
    ('c18_transform', 'rectangles on a 1/64 lattice in [-128,128]'),
    ('c18_ray', '4 (12) directions, any start on a 1/1024 lattice')]),
  'assumptions': ['overlap() of degenerate line rectangles is documented as unsupported in the code and not claimed', 'containment uses the tolerance of the code (1e-7 relative), checked to 1e-4 absolute']},
 'C20': {'entries': A('c20', [
    ('c20_polar', '6 (10) directions, any range up to 64 m and offset, 6 (10) rotations'), ('c20_direction', 'any direction in [-7,7], 3 (4) ranges'),
    ('c20_cartesian', 'any Cartesian point within 16 m, 6 (10) rotations, every conversion'), ('c20_axis', 'points on the axes'), ('c20_shifted_polar', 'any Cartesian point or any polar one in 6 (10) directions, any shift'),
    ('c20_cached', 'tables of 1..6 (12) angles, any base rotation in [-7,7], histories of updates'), ('c20_cached_min', 'any first angle'), ('c20_cached_again', 'one parameter of the table changed'),
    ('c20_scan', 'scans of 3 points, raw and cached provider')], time=60),
  'assumptions': ['angles asked of a cached provider are those of the scan up to 1e-7 increments and below the maximum the table was built for (as the ROS observer does)', 'sine, cosine and arctangent are uninterpreted functions with their addition, Pythagorean and polar laws']},
 'C25': {'entries': A('c25', [
    ('c25_map', 'any width and height in 1..40 m (1/64 lattice), each present or absent, 5 cell sizes'),
    ('c25_map_kind', 'every combination of map type, cell model and matcher kind, one update of any cell'),
    ('c25_occ', 'every occupancy estimator, any base probabilities and qualities (1/64 lattice), each present or absent, 4 beams'),
    ('c25_pq', 'any pose qualities, present or absent'),
    ('c25_adder', 'every estimator, 4 blur distances, 4 range limits, any scan quality'),
    ('c25_range', 'any limit and any end of a beam (1/64 lattice)'),
    ('c25_spe', 'every estimator, impact, weighting and 4 (5) skip rates'), ('c25_spe_range', 'any range limit, 3 skip rates'),
    ('c25_mc', 'any dispersions and seed, 4 x 3 attempt limits'), ('c25_hc', 'any distortions, 4 limits of failed attempts'),
    ('c25_bf', 'one dimension at a time, each with 3x3x3 windows, the others fixed'), ('c25_m3rsm', 'each key with its default and another value'),
    ('c25_matcher', 'every matcher type, drift detector on/off/absent, 3 point estimators, 2 weightings'),
    ('c25_gm_params', 'any 8 noise and motion parameters, any number of particles, present or absent'), ('c25_gm_spe', 'any fullness threshold, 3 windows, 3 skip rates'),
    ('c25_1h', 'whole single-hypothesis system on one scan, every map type, 2 matchers, any pose qualities'),
    ('c25_credibilist', 'whole credibilist system, same'), ('c25_gmapping', 'whole GMapping system with 1..4 particles on two scans'),
    ('c25_name', 'any component name of up to 9 (11) characters for each of 9 keys'), ('c25_unknown', 'each of 9 keys with 10 wrong names or absent'),
    ('c25_keys', 'any keys of up to 2 (3) characters'), ('c25_values', 'any number of up to 5 (7) digits'),
    ('c25_flag', 'any text of up to 5 characters'), ('c25_line', 'any line of up to 4 (5) characters between or after others'),
    ('c25_include', 'include lines at 3 places, 4 directories, 3 forms of names, nested once'), ('c25_missing', 'missing file, included or not')], time=60),
  'assumptions': ['component entries read a stand-in provider; the key/value and file providers are checked by the last six entries (files are in-memory stand-ins)',
                  'numbers in files are well formed; a hash of a text is modelled by its length',
                  'precedence between an included and the including file is not claimed', 'random sources are replaced by stand-ins that record their parameters']},
 'C26': {'entries': A('c26', [
    ('c26_pose', 'all poses and deltas with components in [-1000,1000]'), ('c26_delta_cmp', 'same'), ('c26_abs_less', 'same'),
    ('c26_sq_dist', 'components on a 1/1024 lattice'), ('c26_compare', 'numbers within 10^6'), ('c26_compare_big', 'any two multiples of 2^-18 within 8.6e9'), ('c26_compare_eps', 'numbers within 1000, tolerance 0..10'),
    ('c26_bound', 'numbers within 1000'), ('c26_ge_pow', 'bases 2,3,4,10, arguments -5..10^6'), ('c26_angles', 'angles within 10^4 degrees')]),
  'assumptions': ['comparisons closer than 1e-9 to a tolerance edge are not claimed']},
 'C27': {'entries': A('c27', [
    ('c27_directions', 'scans of 1..5 (1..6) points, all mixtures of three directions (3 sets), 0..1 points removed by the filter, 3 headings'),
    ('c27_scores', 'scans of 7 points, 2 (4) mixtures, all scores in [0,1], any pose and correction, 2 (3) headings'),
    ('c27_reset', '0..3 resets')]),
  'assumptions': ['scores are symbolic stand-ins, one value per pose and set of points; directions lie at the middle of their bins', 'which of several equally popular directions is analysed, and what becomes of the first point, is not claimed']},
 'C28': {'entries': A('c28', [
    ('c28_ranges', '4 (5) measurements of any range (NaN and infinite ones among the first two), any range limits, 3 sets of angles, every option'),
    ('c28_angles', '1..3 measurements, any first direction, 3 increments'),
    ('c28_odometry', '3 messages from any places, 3 (5) headings, the odometry set before each or not'),
    ('c28_trigonometry', '4 (5) scanners of up to 541 beams, 3 points of any range, any pose of 3 headings'),
    ('c28_scanners', '2 (3) messages of 5 scanners in any order, seen by one observer or two, any range of one point, any place')]),
  'assumptions': ['ROS and tf types are stand-ins (harness/ros)', 'headings are concrete', 'with cached trigonometry the angle increment is positive']},
 'C29': {'entries': A('c29', [
    ('c29_map', 'maps of 4 shapes, two cells of any occupancy'), ('c29_grown', 'a map grown in 5 directions'), ('c29_republished', '2 (3) publications of one of two maps that grow in any of 6 ways between them'), ('c29_interval', '3 (4) updates at any full second, any interval'),
    ('c29_correction', '2 poses, odometry before each or not, any places, 4 headings'), ('c29_async', '2 poses, the publishing thread may run once between any two critical sections'),
    ('c29_topic', '2 (3) messages, 3 subscribers, each lookup may fail'), ('c29_pose', '2 poses of any place, 4 headings, both kinds of publishers'), ('c29_trajectory', '2 lines, 3 x 6 times, 4 headings')]),
  'assumptions': ['ROS and tf types are stand-ins (harness/ros), streams are in-memory stand-ins', 'headings are concrete', 'other threads run only at lock boundaries']},
 'C30': {'entries': A('c30', [
    ('c30_order', 'bags of 5 (6) scans and transforms in any order, any full seconds, any place'), ('c30_ignored', 'bags of 3 (4) messages, also ignored, unrelated and mixed transforms and messages of other topics'), ('c30_long', 'bags of 4 (5) messages minutes apart')]) + A('c31', [
    ('c31_args', '1..4 (1..5) arguments of 7 kinds in any order'), ('c31_run', 'a bag of 2 (3) scans before or after the transforms, any range, every output option')]),
  'assumptions': ['ROS, tf and bag types are stand-ins (harness/ros): a transform buffer that answers with the last transform not after the given time and throws like tf2 otherwise', 'times of scans and of transforms do not decrease within a bag', 'with fewer than two known transforms no delivery is demanded']},
 'C31': {'entries': A('c32', [
    ('c31_1h', '2 (3) scans without usable points from any place, 4 headings, then one with an obstacle, parameters given directly or by a file'), ('c31_credibilist', 'the same'),
    ('c31_gmapping', 'the same with one particle, places along a line, no scan matching')], time=90),
  'assumptions': ['ROS and tf types are stand-ins (harness/ros), streams are in-memory stand-ins', 'the scan matcher is the idle one or does not run', 'headings are concrete']},
 'C32': {'entries': A('c33', [
    ('c32_scan', 'scans of up to 3 (4) points, any range and angle, before other text, read into a used scan or not'),
    ('c32_state', 'maps of two extents and 3 cell models with 3 cells (any occupancy), grown to one of 4 places, any pose, up to 2 points'),
    ('c32_idle', 'idle matcher, 3 cell models, 3 skip rates'), ('c32_search', 'brute force and hill climbing, 2 poses, 2 free cells, skip rates 0, 1'), ('c32_skip', 'the same with skip rate 2'),
    ('c32_levels', 'branch and bound over a rescalable map, cells of two values')], time=60),
  'assumptions': ['numbers written as text are taken to be read back as they were (the real streams keep six digits)', 'only the map types that keep a state are used (plain unbounded, and rescalable over it)', 'ROS types are stand-ins (harness/ros)']},
 'C33': {'entries': A('c34', [
    ('c33_path', '3 (4) rounds, any places and times, any one failing lookup, parameters given or not'),
    ('c33_adapter', '3 (4) messages of one or two transforms of 4 kinds, any places and times, maps provided at any round')], time=60),
  'assumptions': ['ROS and tf types are stand-ins (harness/ros)', 'what is published while the node shuts down is not looked at']},
}
# sizes beyond what a byte or a short can hold, long histories
MORE = {
 'C01': ('c01', [('c01_far_tiled', 'lazily tiled map, one of 5 growths to cells up to 70001 away'), ('c01_far_plain', 'plain map, one of 4 growths to cells up to 33000 away')]),
 'C02': ('c02', [('c02_far', 'copies growing to one of 4 cells up to 70001 away, 7 cells read')]),
 'C04': ('c04', [('c04_long', 'integer lines of up to 300 cells in 6 directions, from any cell within 10^6'), ('c04_beam', '9 segments of up to 40 cells (many through corners), 3 places in the cell, any cell within 1000')]),
 'C05': ('c05', [('c05_long', '7 directions (many beams through corners), any range in two windows near 12 and 17 cells'), ('c05_many', 'a scan of 600 points (one of any range, one of any quality), 6 margins up to 300')]),
 'C07': ('c07', [('c07_many', '70000 observations, then any one (3 cell models)')]),
 'C09': ('c09', [('c09_map_large', 'maps of 300 cells in a row or column grown to 1350, cells of any value'), ('c09_counter_large', 'cells of 3 models after 300 or 70000 observations, then any one')]),
 'C10': ('c10', [('c10_large', 'a map of hundreds of cells, concrete places'), ('c10_large_growth', 'a map growing by hundreds of cells')]),
 'C11': ('c11', [('c11_many', 'a search of 600 candidates, one of any score at 5 places')]),
 'C12': ('c12', [('c12_window_large', '4 windows of up to 301 steps per axis, any pose')]),
 'C13': ('c13', [('c13_many', 'limits of 300 to 1000 attempts')]),
 'C14': ('c14', [('c14_unknown', 'scans of 0..2 unusable points, 2 levels, 4 windows, two scans')]),
 'C15': ('c15', [('c15_many', 'a scan of 300 points, one of any likelihood and one of any weight'), ('c15_filter_many', 'a scan of 700 points, 7 strides up to 699, any range limit')]),
 'C16': ('c16', [('c16_large', 'an area of 400 cells, one of any value at 4 places')]),
 'C17': ('c17', [('c17_many', 'a scan of 301 (1001) pairs, one of any direction'), ('c17_fine', '720 bins, 48 given directions and one of any direction within 0.7 degrees')]),
 'C19': ('c19', [('c19_large', 'rectangles of 301x2 cells at any offset')]),
 'C20': ('c20', [('c20_cached_large', 'a table of 720 angles, any base angle')]),
 'C21': ('c21', [('c21_many', '300 scans (one of any odometry), 300 subscribers')]),
 'C22': ('c22', [('c22_many', '300 particles, one of any weight')]),
 'C23': ('c23', [('c23_many', '400 small motions, then any one')]),
 'C24': ('c24', [('c24_dump_large', 'images of 300x2 and 1x270 cells')]),
}
SPECS['C23']['entries'] += A('c22', [('c23_master_remains', 'GMapping filter of 3 particles, 3 likelihood vectors, any draws, 3 scans'), ('c23_explore', 'GMapping filter of 3 (4) particles, 2 (3) likelihood vectors, any draws, the scans around a resampling')], time=60)
SPECS['C25']['entries'] += A('c31', [('c31_launch', 'parameters of every type, 9 texts, any number'), ('c31_ignores', 'texts of up to 6 (7) characters of 4 kinds'), ('c31_ros', 'every documented parameter of the nodes alone, and all together')])
for _p, (_h, _es) in MORE.items():
    SPECS[_p]['entries'] = SPECS[_p]['entries'] + [dict(e, **({'opts': ['--sym-store-fork', '1000' if e['entry'] == 'c17_fine' else '400']} if _p == 'C17' else {})) for e in A(_h, _es, time=150 if _p == 'C04' else 60)]
