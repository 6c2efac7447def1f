prop('C09', 'The native code has no memory errors or undefined behaviour',
     'Whatever rings are added to native clippers and whatever operations, bounds requests, clears and rectangle clips '
     'follow, no invalid, freed or uninitialised memory is accessed, no undefined behaviour occurs, and the process neither '
     'aborts nor hangs. Running the same operation again on a fresh clipper given the same rings yields the same answer.',
     ['inputs', 'histories'],
     'all histories of calls on one native clipper with any integer rings (degenerate and crowded included)',
     'The tests run uninstrumented code on small samples: an out-of-bounds read that happens to return something plausible '
     'passes, and no test replays a history.',
     [W + 'wagyu.hpp', W + 'vatti.hpp', W + 'ring_util.hpp', W + 'ring.hpp', W + 'topology_correction.hpp',
      W + 'process_horizontal.hpp', W + 'process_maxima.hpp', W + 'intersect_util.hpp', W + 'local_minimum_util.hpp',
      W + 'build_edges.hpp', W + 'quick_clip.hpp', W + 'bubble_sort.hpp', W + 'snap_rounding.hpp'],
     [('ring and point storage with stable addresses', 'ring_manager in ' + W + 'ring.hpp'),
      ('null checks of rings and bounds being removed from lists', W + 'active_bound_list.hpp, ' + W + 'process_maxima.hpp')],
     ['sanitizer reports, assertions and time-outs of the fuzz target'],
     [('active bound list', 'pointers to bounds; removed ones are nulled', W + 'active_bound_list.hpp'),
      ('all_points', 'pointers into point storage, sorted', W + 'ring.hpp')],
     'structured and coverage-guided search under AddressSanitizer, UndefinedBehaviorSanitizer and container assertions; '
     'leaks and reads of uninitialised heap memory that do not change an answer are not detected',
     'structured and coverage-guided fuzzing (libFuzzer) with sanitizers')

prop('C10', 'What a clipper answers depends only on the rings it holds now',
     'After any sequence of ring and polygon additions, clears, operations, bounds, local minima and text requests on several '
     'clippers, each answer equals that of a fresh clipper given the rings accepted since the last clear, in the same order. '
     'Earlier results never change, and clippers do not influence each other.',
     ['histories', 'inputs'],
     'all finite sequences of calls on clippers alive at once, both implementations',
     TESTS + 'each test makes at most a few calls on one clipper and none repeats an operation on it.',
     [P + 'wagyu.py', P + 'local_minimum.py', P + 'bound.py', P + 'ring_manager.py', 'src/main.cpp', W + 'wagyu.hpp',
      W + 'ring.hpp', W + 'local_minimum.hpp', W + 'vatti.hpp'],
     [('resetting local minima before an operation', 'Bound.reset / LocalMinimumList; ' + W + 'local_minimum_util.hpp'),
      ('ring manager per operation', 'Wagyu.execute; ' + W + 'wagyu.hpp')],
     ['all answers of Wagyu objects'],
     [('minima', 'bounds of accepted rings, modified by the sweep', P + 'local_minimum.py')],
     'randomised stateful search against a trivial model (the list of rings since the last clear)',
     'stateful model-based testing')

prop('C11', 'Objects passed in stay as they were and results belong to the caller',
     'Points, rings and polygons handed to a clipper are never modified by it, also when one object is added several times or '
     'to several clippers. What becomes of them afterwards, and modifying or dropping returned boxes and multipolygons, '
     'changes no later answer nor anything else that was returned, and answers stay the same while requests are repeated.',
     ['inputs', 'histories'],
     'all inputs and all orders of additions, operations, bounds and changes to returned objects',
     TESTS + 'no test looks at an argument after the call or modifies a result.',
     [P + 'wagyu.py', P + 'edge.py', P + 'linear_ring.py', P + 'box.py', P + 'point.py', 'src/main.cpp', W + 'wagyu.hpp'],
     [('copies of points and edges', 'LinearRing.edges; Wagyu.bounds; RingManager result building')],
     ['arguments after the call', 'repeated answers'], (),
     'randomised search; deep comparison with untouched copies',
     'property-based testing of aliasing with mutation of returned objects')

prop('C12', 'bounds is the exact bounding box of the accepted rings',
     'The bounds of a clipper are exactly the smallest box around the rings it holds, once repeated points, collinear points '
     'and strokes that are retraced are dropped, whatever their order, kind and number. With no ring accepted they are the '
     'box from the origin to the origin, and asking changes nothing.',
     ['inputs', 'histories'],
     'all finite sequences of rings, clears and operations before the request',
     TESTS + 'the two implementations shared a wrong vertical extent, which comparing them cannot reveal (see fix commits).',
     [P + 'wagyu.py', P + 'local_minimum.py', W + 'wagyu.hpp'],
     [('minimum and maximum over the edges of all bounds', 'Wagyu.bounds; get_bounds in ' + W + 'wagyu.hpp')],
     ['Wagyu.bounds'], (),
     'randomised search; the reference cleans rings itself, integer arithmetic',
     'random testing against an exact reference')

prop('C13', 'Ring cleanup keeps exactly what a ring encloses',
     'The edges of a ring form the closed chain that remains when repeated points, middle points of collinear runs and '
     'retraced strokes are dropped from the cyclic sequence until none is left, each edge directed from its lower end '
     '(greater y) to its upper end. A ring of which nothing remains has no edges and is rejected by a clipper without a '
     'trace, any other ring is accepted.',
     ['inputs'],
     'all finite point sequences with integer coordinates up to 2^26, every position of the defects including the seam',
     TESTS + 'random rings practically never contain collinear runs or spikes across the starting point.',
     [P + 'linear_ring.py', P + 'utils.py', P + 'edge.py', W + 'build_edges.hpp', W + 'edge.hpp', 'src/main.cpp'],
     [('dropping collinear and repeated points', 'LinearRing.edges; ' + W + 'build_edges.hpp')],
     ['LinearRing.edges', 'result of adding a ring'], (),
     'randomised search; exact integer reduction as reference',
     'random testing against an independent reduction')

prop('C14', 'Local minima are an exact decomposition of the added rings',
     'The local minima of a clipper pair up monotone chains of connected edges that rise from every local bottom to the next '
     'top; together, directed by their winding deltas, they retrace every accepted ring exactly once and nothing else. Each '
     'minimum carries the height and kind of its ring, has its left and right chain in geometric order with opposite winding '
     'deltas, and every chain names as its partner the one it meets at its top; the listed scanlines are their heights. '
     'Adding answers True exactly when local minima came of it; for a polygon, of any of its rings.',
     ['inputs', 'histories'],
     'all integer rings (horizontal bottoms, tops, shoulders, plateaus) and orders of addition',
     'Tests compare single steps of the two implementations on samples; the invariant over whole rings is not stated anywhere.',
     [P + 'local_minimum.py', P + 'bound.py', P + 'linear_ring.py', P + 'edge.py', W + 'local_minimum_util.hpp',
      W + 'build_local_minima_list.hpp', W + 'local_minimum.hpp', W + 'bound.hpp', 'src/main.cpp'],
     [('splitting edges at extrema', 'LocalMinimumList.add_linear_ring; create_bound_towards_*'),
      ('fixing horizontals', 'Bound.fix_horizontals'), ('left/right order', 'Bound.move_horizontals')],
     ['LocalMinimumList contents', 'Wagyu.minimums'],
     [('maximum_bound', 'partner meeting at the top', P + 'bound.py')],
     'randomised search; 1-chain arithmetic in integers',
     'invariant checking over generated rings with exact chain arithmetic')

prop('C15', 'Snapping pixels are exactly the rounded vertices and crossings',
     'The pixels an operation snaps to are exactly the rounded positions of the vertices that remain of the accepted rings and '
     'of the points two of their edges share, without duplicates, ordered by descending y and then by ascending x. '
     'Halves are rounded up, along horizontal edges away from zero. Every vertex of every result is one of them.',
     ['inputs'],
     'all integer inputs, both implementations',
     'Tests compare both implementations on samples; a crossing missed by both, or only when several bounds cross at one '
     'height, passes.',
     [P + 'ring_manager.py', P + 'edge.py', P + 'point.py', W + 'snap_rounding.hpp', W + 'ring.hpp',
      W + 'intersect_util.hpp', W + 'util.hpp'],
     [('collecting intersections by sorting bounds', 'RingManager.build_hot_pixels; ' + W + 'snap_rounding.hpp'),
      ('sorting and deduplication', 'RingManager.sort_hot_pixels')],
     ['hot pixels of a ring manager', 'vertices of results'], (),
     'randomised search; exact rational crossings; within 1e-6 of a tie that floating point cannot represent either '
     'neighbour is allowed',
     'random testing against exact rational crossings')

prop('C16', 'Numeric and ordering primitives agree with exact arithmetic',
     'Slope equality, betweenness, edge intersection, edge positions and order, rounding of ties, comparison of nearly equal '
     'reals (within 4 representable steps), box containment, stable bubble sorting with its swap reports, and the winding '
     'counts and contribution of bounds along a scanline give the answers exact arithmetic gives, for every argument in the '
     'documented range. Both implementations give the same answers.',
     ['inputs'],
     'all integer arguments up to 2^24, reals around ties and representable steps, sequences, rows of bounds',
     'Tests compare both implementations on random reals, which never lie on ties, a few representable steps apart or on '
     'common lines.',
     [P + 'utils.py', P + 'edge.py', P + 'point.py', P + 'box.py', P + 'bound.py', P + 'intersect_node.py',
      W + 'util.hpp', W + 'almost_equal.hpp', W + 'edge.hpp', W + 'point.hpp', W + 'bubble_sort.hpp', W + 'intersect_util.hpp',
      W + 'active_bound_list.hpp', 'src/main.cpp'],
     [('float comparison', 'are_floats_almost_equal; ' + W + 'almost_equal.hpp'),
      ('winding counts', 'set_winding_count; ' + W + 'active_bound_list.hpp')],
     ['exposed functions and methods'], (),
     'randomised search aimed at boundaries; rational arithmetic as oracle',
     'random testing against exact rational arithmetic')

prop('C17', 'Value objects behave as values',
     'Points, rings, polygons, multipolygons, boxes, edges, bounds and local minima are equal exactly when their contents are, '
     'their text evaluates back to an equal object, and copies and pickles of plain geometries equal the original and are '
     'independent of it. Crossings too are equal exactly when their contents are, and clippers and lists of local minima when '
     'the same rings were added in the same way. Sequence types give their length, items, iteration and membership consistently, and local minima '
     'lists keep order under insertion, appending and popping as plain lists do.',
     ['inputs'],
     'all objects with any coordinates and nesting; any operations on sequences of local minima',
     'The tests sample each operator with independent random operands, so variants differing in one component and extreme '
     'coordinates hardly occur; inserting into a list of minima never terminated in the port (see fix commits).',
     [P + 'point.py', P + 'linear_ring.py', P + 'polygon.py', P + 'box.py', P + 'edge.py', P + 'bound.py', P + 'ring.py',
      P + 'local_minimum.py', 'src/main.cpp'],
     [('equality and representation', '__eq__, __repr__ in every module; src/main.cpp'), ('pickling', 'py::pickle in src/main.cpp')],
     ['operators and protocols of the exposed classes'], (),
     'randomised search',
     'property-based testing: round trips and equality laws')

prop('C18', 'The ring tree describes the rings it holds',
     'After an operation has corrected its topology, every ring knows its true area, extent and whether it is a hole; holes and '
     'exteriors alternate with depth; parents and children name each other and children lie within their parents; the built '
     'result has exactly these rings, and running the stages by hand gives the same result as the whole. For any pair of '
     'non-crossing rings containment is decided correctly, and the statistics and sorted vertices of any ring are exact.',
     ['inputs'],
     'all integer inputs and operations; all pairs of simple rings that do not cross',
     'Tests compare single ring operations of both implementations on random rings; rings in a tree are hardly ever nested in '
     'them, and nothing relates the tree to the points.',
     [P + 'ring.py', P + 'ring_manager.py', P + 'point_node.py', W + 'ring.hpp', W + 'ring_util.hpp',
      W + 'topology_correction.hpp', W + 'build_result.hpp', 'src/main.cpp'],
     [('cached statistics', 'Ring.recalculate_stats / set_stats'), ('parent assignment', 'RingManager.assign_as_child; reassign_as_*'),
      ('containment', 'Ring.inside_of; poly2_contains_poly1 in ' + W + 'ring_util.hpp')],
     ['rings of a ring manager', 'Ring statistics and containment'],
     [('children', 'rings directly inside', P + 'ring.py')],
     'randomised search; exact integer oracle on the points',
     'invariant checking over generated inputs and random testing of ring primitives')

prop('C19', 'Clipping to a rectangle keeps exactly what lies inside',
     'Clipping a polygon or multipolygon to a rectangle gives a valid multipolygon within the rectangle that covers exactly what '
     'the fill rule assigns to the input there, when no rounding is involved, and covers it up to rounding distance '
     'otherwise. A single ring clipped to a rectangle is closed or empty, stays within it and keeps its winding number around '
     'every point inside.',
     ['inputs', 'configurations'],
     'all integer rings, rectangles and fill rules, polygon and multipolygon forms of the native header',
     'No test exercises this part of the headers.',
     [W + 'quick_clip.hpp', W + 'wagyu.hpp'],
     [('clipping against one side after another', 'quick_lr_clip in ' + W + 'quick_clip.hpp'),
      ('union of the clipped rings', 'clip in ' + W + 'quick_clip.hpp')],
     ['mapbox::geometry::wagyu::clip results'], (),
     'randomised search; exact integer reference region on lattice inputs, 2.8 units of tolerance otherwise',
     'random testing against an exact reference region')

prop('C20', 'The native answer does not depend on the coordinate type',
     'For integer input whose coordinates and their differences fit the type, the header library instantiated with 64-bit and '
     '32-bit integer coordinates, the one instantiated with doubles, clippers of one type given rings or asked for polygons of '
     'another, and the Python extension return the same multipolygon vertex by vertex, or all fail. So do the '
     'instantiations of the rectangle clip.',
     ['inputs', 'configurations'],
     'all integer inputs, operations, fill rules and output directions',
     'The tests only reach the double instantiation through the extension; with 32-bit coordinates results were wrong (see fix commits).',
     [W + 'util.hpp', W + 'edge.hpp', W + 'almost_equal.hpp', W + 'vatti.hpp', W + 'snap_rounding.hpp', W + 'build_result.hpp',
      W + 'wagyu.hpp', 'src/main.cpp'],
     [('conversion of reals to coordinates', 'wround, wround_min, wround_max in ' + W + 'util.hpp')],
     ['results of execute in each instantiation'], (),
     'randomised search; exact comparison', 'differential testing of template instantiations')

prop('C21', 'A fault in the middle of a call does no lasting harm',
     'When memory runs out, an interruption is requested or a signal handler raises at any moment of an operation, the call '
     'either fails with exactly that error or gives the right answer; the clipper then still holds the same rings, reports the same '
     'bounds and local minima and answers every further request as a fresh clipper would. No memory remains allocated and no '
     'memory error occurs. A request for interruption pending when an operation on a non-empty clipper or the addition of '
     'an acceptable ring starts makes it fail once. A clipper an addition to which failed is as good as new after clear.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every allocation and every line of a call as the moment of the fault, all inputs and operations',
     'No test makes anything fail in the middle of a call, and the interruption feature of the headers is never compiled.',
     [W + 'interrupt.hpp', W + 'wagyu.hpp', W + 'local_minimum_util.hpp', W + 'process_maxima.hpp', W + 'vatti.hpp',
      W + 'ring.hpp', P + 'ring_manager.py', P + 'wagyu.py', P + 'local_minimum.py', P + 'bound.py'],
     [('interruption requests', W + 'interrupt.hpp'),
      ('sweep state reset when a local minimum is met', 'initialize_lm in ' + W + 'local_minimum_util.hpp; LocalMinimum.initialize')],
     ['errors raised by calls; answers of the clipper afterwards; blocks of memory allocated'], (),
     'systematic fault positions (all allocations up to 200 per call, native) and random lines (port) over generated inputs',
     'fault injection over generated inputs, against a fresh clipper as model')

prop('C22', 'Objects handed out by the extension stay valid',
     'Whatever is reached from an object of the extension - items, attributes, lists, iterators and results - stays valid and '
     'keeps its contents however the objects it came from are dropped, rings are added and operations are run; reading '
     'anything through the extension never touches released memory and never crashes the interpreter. The rings of '
     'a result, the points of a ring and the parts of a local minimum remain readable after everything else is gone.',
     ['histories', 'inputs'],
     'all sequences of making, reaching, iterating over and dropping objects, adding rings and running operations',
     'Tests keep every object alive until the end of the test, and without instrumented memory a dangling object '
     'usually still reads as expected.',
     ['src/main.cpp', W + 'wagyu.hpp', W + 'local_minimum.hpp', W + 'bound.hpp', W + 'ring.hpp'],
     [('item access and iteration', 'to_item, to_iterator and return value policies in src/main.cpp'),
      ('links between bounds and rings', 'Bound.maximum_bound, Bound.ring, Ring.parent, Ring.children in src/main.cpp')],
     ['contents of objects held by a caller; memory errors'],
     (), 'random programs up to 17 steps over the object graph, memory errors detected by AddressSanitizer',
     'stateful random testing of object lifetimes under AddressSanitizer')

prop('C23', 'What a clipper answers depends on nothing but the clipper',
     'A clipper gives the answers it gives alone, whatever else the program does: when calls on other clippers and their ring '
     'managers alternate with its own, when other threads work on clippers of their own (even on the same ring objects) however '
     'they are scheduled, under any decimal context, garbage collector setting, warning filters, interpreter flags, hash seed '
     'and memory allocator. It leaves such state of the caller as it was. Native clippers of different threads share no mutable '
     'state.',
     ['schedules', 'configurations', 'inputs'],
     'all interleavings of calls, stages and lines of several clippers, all settings of the interpreter named, all inputs',
     'Tests run one clipper at a time in one thread under the default settings; under a decimal context of low precision the '
     'port failed (see fix commits).',
     [P + 'utils.py', P + 'wagyu.py', P + 'ring_manager.py', P + 'intersect_node.py', P + 'bubble_sort.py', P + 'ring.py', P + 'bound.py',
      W + 'wagyu.hpp', W + 'vatti.hpp', W + 'ring_util.hpp', W + 'topology_correction.hpp', W + 'util.hpp', 'src/main.cpp'],
     [('rounding through decimal numbers', 'round_half_up in ' + P + 'utils.py'),
      ('comparators shared by calls', 'static sorters in src/main.cpp'),
      ('state of an operation', 'RingManager in ' + P + 'ring_manager.py; ring_manager in ' + W + 'ring.hpp')],
     ['logs of scripts; ambient state before and after; data races'], (),
     'seeded random schedules at the level of calls, stages and lines; random settings; ThreadSanitizer for native threads',
     'schedule and configuration fuzzing against the script played alone')
