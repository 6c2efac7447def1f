"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'include/mapbox/geometry/wagyu/'
P = 'wagyu/'

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), level_note='',
         technique=''):
    PROPERTIES.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                 'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                 'observe_at': observe, 'hook_needed': None}), technique, level_note))


TESTS = ('The tests compare the port with the extension on Hypothesis samples (mostly far-apart random '
         'coordinates) and one README example; ')

prop('C01', 'Results are exact when no rounding is involved',
     'When every vertex of the input and every crossing of its edges has integer coordinates, the region covered by the '
     'result of intersect, unite, subtract or symmetric_subtract is exactly the Boolean combination of the regions the '
     'fill rules assign to the subject rings and to the clip rings. This holds for both implementations, for every combination of fill '
     'rules, for any number of rings that may nest, touch, overlap, repeat or cross themselves, and when results are fed '
     'back as inputs of further operations.',
     ['inputs', 'histories'],
     'all finite sets of subject and clip rings with integer vertices and integer crossings, 4 operations x 4 x 4 fill '
     'rules x 2 implementations, and chains of operations',
     TESTS + 'nothing checks a result against the geometry, so a defect present in both implementations, or in a '
     'configuration the samples do not reach, passes.',
     [P + 'ring_manager.py', P + 'bound.py', P + 'intersect_node.py', P + 'point_node.py', P + 'local_minimum.py',
      P + 'wagyu.py', W + 'vatti.hpp', W + 'topology_correction.hpp', W + 'intersect_util.hpp',
      W + 'active_bound_list.hpp', W + 'ring_util.hpp', W + 'process_horizontal.hpp', W + 'process_maxima.hpp'],
     [('Vatti scanline sweep', 'RingManager.execute_vatti; ' + W + 'vatti.hpp'),
      ('winding counts per fill rule', 'set_winding_count; Bound.is_contributing; ' + W + 'active_bound_list.hpp'),
      ('ring bookkeeping', 'RingManager.add_point / append_ring; ' + W + 'ring_util.hpp'),
      ('topology correction', 'RingManager.correct_topology; ' + W + 'topology_correction.hpp')],
     ['Wagyu.intersect/unite/subtract/symmetric_subtract return value'],
     [('active bounds', 'bounds crossed by the scanline, in x order, with winding counts', P + 'ring_manager.py')],
     'randomised structured search against an exact integer reference region; the reference shares no code with the '
     'repository',
     'model-based random testing: exact reference region on lattice-exact inputs')

prop('C02', 'Results differ from the exact answer only within rounding distance',
     'For any rings with integer coordinates, the region covered by a result agrees with the Boolean combination of the '
     'filled subject and clip everywhere except within rounding distance (at most 0.75 of a unit) of an input edge. Every '
     'vertex of the result lies within half a pixel diagonal of an input edge.',
     ['inputs'],
     'all finite sets of integer rings (self-intersecting, many-vertex, sharing edges) up to about 2^24, 4 operations '
     'x 16 fill rule pairs x 2 implementations',
     TESTS + 'no test knows the right region of a general input.',
     [P + 'ring_manager.py', P + 'edge.py', P + 'bound.py', P + 'point_node.py', P + 'utils.py',
      W + 'snap_rounding.hpp', W + 'vatti.hpp', W + 'intersect.hpp', W + 'intersect_util.hpp', W + 'util.hpp',
      W + 'edge.hpp'],
     [('hot pixel snapping', 'RingManager.build_hot_pixels; ' + W + 'snap_rounding.hpp'),
      ('intersection computation', 'Edge.__and__; ' + W + 'intersect_util.hpp'),
      ('scanline sweep', 'RingManager.execute_vatti; ' + W + 'vatti.hpp')],
     ['Wagyu.intersect/unite/subtract/symmetric_subtract return value'], (),
     'randomised search; the reference is a slab decomposition in double precision used only to locate differences '
     'farther than the tolerance',
     'random testing against a reference region with a stated rounding tolerance')

prop('C03', 'The four operations on one input partition the plane consistently',
     'For any rings and fill rules, the union of subject and clip is exactly the disjoint union of their intersection and '
     'their symmetric difference, and the symmetric difference is exactly the disjoint union of subject minus clip and clip '
     'minus subject. Exchanging subject and clip leaves the three symmetric operations unchanged as regions, and filling '
     'the subject by NON_ZERO gives exactly the disjoint union of what POSITIVE and NEGATIVE give.',
     ['inputs'],
     'all finite sets of integer rings, all fill rule pairs, both implementations',
     TESTS + 'no test relates results of different operations.',
     [P + 'wagyu.py', P + 'bound.py', P + 'ring_manager.py', W + 'wagyu.hpp', W + 'active_bound_list.hpp',
      W + 'intersect_util.hpp', W + 'topology_correction.hpp'],
     [('contribution rules per operation and fill rule', 'Bound.is_contributing; ' + W + 'active_bound_list.hpp'),
      ('bound intersections', 'RingManager.intersect_bounds; ' + W + 'intersect_util.hpp'),
      ('shared snapping', 'RingManager.build_hot_pixels; ' + W + 'snap_rounding.hpp')],
     ['results of all operations on one Wagyu input'], (),
     'randomised search; boundaries are compared exactly as 1-chains',
     'metamorphic / algebraic-law testing with exact boundary-chain comparison')

prop('C04', 'Results do not depend on how the same input is presented',
     'Rotating a ring\'s starting point, reordering or interleaving rings, grouping them into polygons, adding closing, '
     'repeated or collinear points, adding rings that enclose nothing, reversing all rings while exchanging POSITIVE and NEGATIVE, '
     'reversing any rings under EVEN_ODD, leaving out fill rules that are EVEN_ODD, giving the same coordinates as other kinds of numbers (integers, floats), or exchanging subject and clip in a '
     'symmetric operation leaves the region of the result exactly the same. Where no rounding is involved, shifting, scaling, transposing or mirroring the input '
     'transforms the result in the same way.',
     ['inputs'],
     'all integer inputs and all listed re-presentations, both implementations',
     TESTS + 'no test presents one input in two ways.',
     [P + 'linear_ring.py', P + 'local_minimum.py', P + 'wagyu.py', P + 'bound.py', P + 'ring_manager.py',
      W + 'build_edges.hpp', W + 'local_minimum_util.hpp', W + 'build_local_minima_list.hpp', W + 'wagyu.hpp'],
     [('ring cleaning', 'LinearRing.edges; ' + W + 'build_edges.hpp'),
      ('decomposition into bounds', 'LocalMinimumList.add_linear_ring; ' + W + 'local_minimum_util.hpp'),
      ('ordering of local minima', 'LocalMinimum.__lt__; ' + W + 'local_minimum.hpp')],
     ['Wagyu.add_linear_ring / add_polygon', 'operation results'], (),
     'randomised search over inputs and re-presentations; exact comparison',
     'metamorphic testing: equivalent presentations, exact comparison')

prop('C05', 'Every result is a valid multipolygon',
     'Every result consists of closed rings with at least three distinct integer vertices inside the extent of the input, '
     'none visited twice, with non-zero area, exteriors oriented one way and holes the other. No two edges cross, overlap '
     'or touch except at common vertices; holes lie inside their exterior without overlapping, polygons do not overlap, and '
     'every polygon\'s interior is connected.',
     ['inputs'],
     'all integer inputs (not crowded into a few pixels), operations, fill rules, output directions, both implementations',
     TESTS + 'no test examines the structure of a result.',
     [P + 'ring_manager.py', P + 'point_node.py', P + 'ring.py', P + 'polygon.py', W + 'topology_correction.hpp',
      W + 'ring_util.hpp', W + 'ring.hpp', W + 'build_result.hpp'],
     [('orientation correction', 'RingManager.correct_orientations'),
      ('collinear edges removal', 'RingManager.correct_collinear_edges'),
      ('self-intersection splitting', 'RingManager.correct_self_intersections'),
      ('tree correction', 'RingManager.correct_tree'),
      ('chained rings', 'RingManager.correct_chained_rings')],
     ['structure of the returned Multipolygon'], (),
     'randomised search; the validity predicate is exact integer arithmetic',
     'random testing against an exact validity predicate')

prop('C06', 'reverse_output only reverses ring directions',
     'Asking for reversed output yields the same polygons in the same order with the same rings, each the exact reverse of '
     'its counterpart, for every input, operation and pair of fill rules.',
     ['inputs', 'configurations'],
     'all inputs, operations, fill rules x both settings, both implementations',
     TESTS + 'no test compares the two settings.',
     [P + 'polygon.py', P + 'wagyu.py', W + 'build_result.hpp', W + 'wagyu.hpp'],
     [('output of rings', 'point_node_to_linear_ring; push_ring_to_polygon in ' + W + 'build_result.hpp')],
     ['Wagyu(reverse_output=...)'], (),
     'randomised search; exact comparison', 'metamorphic testing of the output direction')

prop('C07', 'Port and native extension are interchangeable',
     'The pure-Python package and the _wagyu extension, given the same sequence of calls, accept and reject the same rings, '
     'report the same bounds and local minima, and return the same multipolygon vertex by vertex, or fail with the same error.',
     ['inputs', 'configurations'],
     'all integer rings, including crowded grids where many crossings share a pixel and degenerate rings, all '
     'operations, fill rules and output directions',
     'The integration tests sample such pairs with coordinates up to 10^6 and few vertices, where shared pixels, touching '
     'rings and repeated points hardly ever occur: three divergences survived them (see the fix commits).',
     [P + 'wagyu.py', P + 'ring_manager.py', P + 'point_node.py', P + 'bound.py', P + 'ring.py', P + 'linear_ring.py',
      P + 'local_minimum.py', 'src/main.cpp', W + 'wagyu.hpp', W + 'topology_correction.hpp', W + 'ring_util.hpp'],
     [('line by line port', P), ('binding', 'src/main.cpp')],
     ['all public calls of Wagyu in both packages'], (),
     'randomised search over dense grids plus all pairs of triangles on a 3x3 grid (one sampled operation each in quick)',
     'differential testing of two implementations')

prop('C08', 'Every input is processed without failure, crash or hang',
     'Adding any ring (empty, with fewer than three points, repeated, collinear, self-retracing) returns True or False, and '
     'bounds and every operation under any fill rules then return their documented type; nothing raises, crashes '
     'the process or fails to return, however many rings nest or touch one another. When no ring was accepted every result is empty.',
     ['inputs'],
     'all finite sets of integer rings whose crossings are not crowded into shared pixels (known upstream limit, see '
     'known findings), any number of vertices, rings, nesting levels and touching holes (thousands are generated)',
     TESTS + 'degenerate rings and large structured inputs are not sampled.',
     [P + 'wagyu.py', P + 'linear_ring.py', P + 'local_minimum.py', P + 'ring_manager.py', W + 'wagyu.hpp',
      W + 'build_edges.hpp', W + 'local_minimum_util.hpp', W + 'topology_correction.hpp', 'src/main.cpp'],
     [('degenerate ring rejection', 'LinearRing.edges'), ('empty input short cut', 'Wagyu.execute')],
     ['exceptions, process exit, returned types'], (),
     'randomised search; a hang is a case that does not finish in 120 s in isolation',
     'random robustness testing with crash and hang isolation')

if __name__ == '__main__':
    exec(open(os.path.join(ROOT, 'tools', 'catalogue_more.py')).read()) if os.path.exists(
        os.path.join(ROOT, 'tools', 'catalogue_more.py')) else None
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as file:
        for body, _, _ in PROPERTIES:
            assert len(body['title']) <= 80, body['id']
            file.write(json.dumps(body) + '\n')
    checks = []
    missing = []
    for body, technique, note in PROPERTIES:
        if not os.path.exists(os.path.join(ROOT, 'checks', body['id'].lower() + '.py')):
            missing.append({'property': body['id'], 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': body['id'],
            'quick_cmd': './run.py ' + body['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./run.py ' + body['id'],
            'evidence_file': 'evidence/%s.json' % body['id'],
            'technique': technique, 'level': 'exploration', 'level_note': note})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
        json.dump({'version': 1, 'setup_cmd': './setup.py', 'checks': checks,
                   'not_applicable': missing}, file, indent=1)
        file.write('\n')
