"""C18 - after topology correction the ring tree is exact: nesting, statistics, links."""
from vlib import gen, geom
from vlib.engine import HarnessError, Outcome
from vlib.impl import BOTH, CPP, FILLS, OP_KINDS, OPS, PORT

import _wagyu as cpp
from wagyu import ring as port_ring

ID = 'C18'
RULE = ('Stages are run by hand: hot pixels, sweep, topology correction. Of every ring then alive in the tree, area, box '
        'and hole state must be those of its points, holes alternate with depth, parents and children name each other, '
        'children lie within parents, and the result built has exactly these rings. A second stream builds rings from '
        'arbitrary and from non-crossing point lists and decides statistics, vertex order and containment exactly. '
        'Areas may be off by rounding where doubles cannot hold their terms (placements beyond 2^30 or so). '
        'Non-trivial: some ring has a child, or one of the pair contains the other.')
PLAN = {'quick': {'tree': 9000, 'many': 500, 'long': 100, 'pairs': 7000, 'wraps': 3000, 'stats': 20000},
        'thorough': {'tree': 900000, 'many': 50000, 'long': 10000, 'pairs': 600000, 'wraps': 300000, 'stats': 2000000}}
RINGS = {'extension': cpp.Ring, 'port': port_ring.Ring}


def make(stream, rng):
    if stream == 'stats':
        scale = rng.choice((1, 1, 100, 2 ** 20))
        return {'points': [[rng.randint(-6, 6) * scale, rng.randint(-6, 6) * scale]
                           for _ in range(rng.randint(1, 12))],
                'shift': rng.randint(0, 11), 'kind': stream}
    if stream in ('many', 'long'):
        _, subject, clip = gen.long(rng) if stream == 'long' else gen.many(rng, rng.random() < .6)
        return {'subject': subject, 'clip': clip, 'request': list(gen.operation(rng)),
                'reverse': rng.random() < .3, 'kind': 'tree'}
    if stream == 'wraps':
        subject, clip = gen.lattice_side(rng)[1], []
        return {'subject': subject, 'clip': clip, 'request': list(gen.operation(rng, ('unite',))),
                'picks': [[rng.random(), rng.random(), rng.random()] for _ in range(4)], 'kind': stream}
    _, subject, clip = (gen.lattice if rng.random() < .7 else lambda r: gen.general(r, False))(rng)
    if stream == 'pairs':
        return {'subject': subject, 'clip': clip, 'request': list(gen.operation(rng)),
                'picks': [[rng.random(), rng.random(), rng.random()] for _ in range(4)], 'kind': stream}
    return {'subject': subject, 'clip': clip, 'request': list(gen.operation(rng)),
            'reverse': rng.random() < .3, 'kind': stream}


def run(case):
    nontrivial = False
    for impl in BOTH:
        problem, interesting = {'tree': tree, 'pairs': pairs, 'wraps': pairs, 'stats': stats}[case['kind']](case, impl)
        if problem:
            return Outcome('%s: %s' % (impl.name, problem))
        nontrivial = nontrivial or interesting
    return Outcome(None, nontrivial, [case['kind']] if nontrivial else [])


def statistics(points):
    """What the points of a ring say, in the orientation convention of the code."""
    area2 = -geom.area2(points)
    xs, ys = [x for x, _ in points], [y for _, y in points]
    return area2, len(points), (min(xs), min(ys), max(xs), max(ys))


def rounding(points):
    """What summing trapezoids as doubles may lose: nothing unless far from the origin."""
    total = sum(abs((a[0] + b[0]) * (a[1] - b[1])) for a, b in zip(points[-1:] + points, points))
    return 0 if total < 2 ** 53 else total * len(points) * 2. ** -52


def plain(points):
    return [(int(p.x), int(p.y)) for p in points]


def ring_problem(ring, points, fresh=True):
    area2, size, box = statistics(points)
    slack = rounding(points)
    if abs(ring.area * 2 - area2) > slack:
        return 'ring %s has area %r' % (points, ring.area)
    # the correction may drop vertices without counting anew
    if fresh and ring.size != size:
        return 'ring %s has size %r' % (points, ring.size)
    got = (ring.box.minimum.x, ring.box.minimum.y, ring.box.maximum.x, ring.box.maximum.y)
    if got != box:
        return 'ring %s has box %s' % (points, got)
    if bool(ring.is_hole) is not (area2 <= 0) and abs(area2) > slack:
        return 'ring %s is a hole: %r' % (points, ring.is_hole)
    return None


def tree(case, impl):
    subject, clip = case['subject'], case['clip']
    op, subject_fill, clip_fill = case['request']
    clipper = impl.new(subject, clip)
    if not len(clipper.minimums):
        return None, False
    manager = impl.manager()
    minimums = clipper.minimums
    manager.build_hot_pixels(minimums)
    manager.execute_vatti(minimums, getattr(impl.enums.OperationKind, OP_KINDS[op]),
                          impl.fills[subject_fill], impl.fills[clip_fill])
    manager.correct_topology()
    seen = []
    interesting = False
    stack = [(ring, None, 0) for ring in manager.children if ring is not None]
    while stack:
        ring, parent, depth = stack.pop()
        points = plain(ring.points)
        if not points:
            return 'a ring without points is in the tree', False
        seen.append(points)
        problem = ring_problem(ring, points, False)
        if problem:
            return problem, False
        if ring.depth != depth or bool(ring.is_hole) is not bool(depth % 2):
            return 'ring %s at depth %d reports depth %r, hole %r' % (points, depth, ring.depth, ring.is_hole), False
        if (ring.parent is None) is not (parent is None) or (
                parent is not None and plain(ring.parent.points) != plain(parent.points)):
            return 'ring %s is listed under another ring than its parent' % (points,), False
        if parent is not None:
            if not ring.is_descendant_of(parent) or parent.is_descendant_of(ring):
                return 'is_descendant_of contradicts the tree for ring %s' % (points,), False
            if not within(points, plain(parent.points)):
                return 'ring %s is not within its parent %s' % (points, plain(parent.points)), False
            interesting = True
        stack += [(child, ring, depth + 1) for child in ring.children if child is not None]
    result = impl.plain(manager.build_result(case['reverse']))
    got = sorted(map(canonical, geom.int_rings(result)))
    if got != sorted(map(canonical, seen)):
        return 'result %s is made of other rings than the tree' % (result,), False
    whole = impl.clip(subject, clip, op, subject_fill, clip_fill, case['reverse'])
    if whole != result:
        return 'stage by stage %s, at once %s' % (result, whole), False
    return None, interesting


def canonical(points):
    """Whatever the direction and start."""
    start = points.index(min(points))
    turned = points[start:] + points[:start]
    return min(turned, turned[:1] + turned[:0:-1])


def within(inner, outer):
    """Whether the region of a simple ring lies in that of another one it does not cross."""
    size = len(inner)
    borders = set(outer)
    for index, (x, y) in enumerate(inner):
        if (x, y) not in borders and not on_border((x, y), outer):
            return geom.contains(outer, 2 * x, 2 * y)
    for index in range(size):
        # diagonals and edge middles: enough points off the border of `outer`
        for other in range(index):
            x2, y2 = inner[index][0] + inner[other][0], inner[index][1] + inner[other][1]
            if inside_double(inner, x2, y2) and not on_border_double(x2, y2, outer):
                return geom.contains(outer, x2, y2)
    return True


def on_border(point, ring):
    return on_border_double(2 * point[0], 2 * point[1], ring)


def on_border_double(x2, y2, ring):
    for (ax, ay), (bx, by) in geom.ring_edges(ring):
        if (geom._orient((2 * ax, 2 * ay), (2 * bx, 2 * by), (x2, y2)) == 0
                and min(ax, bx) * 2 <= x2 <= max(ax, bx) * 2 and min(ay, by) * 2 <= y2 <= max(ay, by) * 2):
            return True
    return False


def inside_double(ring, x2, y2):
    return on_border_double(x2, y2, ring) or geom.contains(ring, x2, y2)


def pairs(case, impl):
    """Containment among non-crossing simple rings (those of a result, moved around)."""
    try:
        result = CPP.clip(case['subject'], case['clip'], *case['request'])
    except RuntimeError:
        raise HarnessError('no result')
    rings = geom.int_rings(result)
    if not rings:
        return None, False
    interesting = False
    for first, second, turn in case['picks']:
        inner = rings[int(first * len(rings))]
        if case['kind'] == 'wraps':
            inner, outer = wrapped(inner, second < .5, turn)
        else:
            outer = rings[int(second * len(rings))]
        if inner is outer:
            continue
        shift = int(turn * len(inner))
        inner = inner[shift:] + inner[:shift]
        objects = []
        for points in (inner, outer):
            ring = RINGS[impl.name](0, [], [impl.Point(*point) for point in points], False)
            ring.recalculate_stats()
            problem = ring_problem(ring, points)
            if problem:
                return problem, False
            objects.append(ring)
        if abs(abs(geom.area2(inner)) - abs(geom.area2(outer))) <= rounding(inner) + rounding(outer) > 0:
            continue
        expected = abs(geom.area2(inner)) < abs(geom.area2(outer)) and within(inner, outer)
        got = objects[0].inside_of(objects[1])
        if got is not expected:
            return 'ring %s inside of %s is %r' % (inner, outer, got), False
        interesting = interesting or expected or case['kind'] == 'wraps'
    return None, interesting


def wrapped(ring, within_it, turn):
    """The ring and another that visits all its vertices, with the ring in it or beside it (in a pocket)."""
    left, low = min(x for x, _ in ring), min(y for _, y in ring)
    ring = [(64 * (x - left), 64 * (y - low)) for x, y in ring]
    right, high = max(x for x, _ in ring), max(y for _, y in ring)
    if max(right, high) > 2 ** 22:
        return ring, ring
    if geom.area2(ring) < 0:
        ring.reverse()
    size = len(ring)
    if within_it:
        outer = []
        for index, (ax, ay) in enumerate(ring):
            bx, by = ring[(index + 1) % size]
            outer.append((ax, ay))
            longest = max(abs(bx - ax), abs(by - ay))
            # (outside is on the right)
            outer.append(((ax + bx) // 2 + 6 * (by - ay) // longest, (ay + by) // 2 - 6 * (bx - ax) // longest))
    else:
        # around the leftmost vertex, open beside one of its edges
        index = min(range(size), key=lambda i: ring[i])
        x, y = ring[index]
        outer = [ring[(index + step) % size] for step in range(size)]
        outer += [(x - 1, y + 2), (-200, y + 2), (-200, high + 200), (right + 200, high + 200), (right + 200, -200),
                  (-200, -200), (-200, y)]
    shift = int(turn * 7919) % len(outer)
    outer = outer[shift:] + outer[:shift]
    if int(turn * 10 ** 6) % 2:
        outer.reverse()
    if int(turn * 10 ** 7) % 2:
        ring, outer = ring[::-1], outer
    if int(turn * 10 ** 8) % 2:
        ring, outer = [(y, x) for x, y in ring], [(y, x) for x, y in outer]
    return ring, outer


def stats(case, impl):
    points = [tuple(point) for point in case['points']]
    ring = RINGS[impl.name](3, [], [impl.Point(*point) for point in points], False)
    if plain(ring.points) != points:
        return 'ring of %s has points %s' % (points, plain(ring.points)), False
    problem = ring_problem(ring, points)
    if problem:
        return problem, False
    if impl is CPP:
        ordered = plain(ring.sorted_points)
    else:
        ordered = plain(ring.sorted_nodes)
    if ordered != sorted(points, key=lambda p: (-p[1], p[0])):
        return 'points of %s sorted are %s' % (points, ordered), False
    if ring.depth != 0 or ring.parent is not None:
        return 'a ring of its own has depth %r' % ring.depth, False
    ring.set_stats(5., 4, impl.Box(impl.Point(0, 0), impl.Point(2, 3)))
    if (ring.area, ring.size, ring.is_hole, ring.box.maximum.y) != (5., 4, False, 3):
        return 'statistics set are not those read', False
    ring.set_stats(-5., 4, impl.Box(impl.Point(0, 0), impl.Point(2, 3)))
    if not ring.is_hole:
        return 'a ring of negative area is no hole', False
    ring.reset_stats()
    # calculated anew from the points
    problem = ring_problem(ring, points)
    if problem:
        return 'after a reset: ' + problem, False
    return None, geom.area2(points) != 0


def shrink(case):
    if case['kind'] == 'stats':
        for index in range(len(case['points'])):
            if len(case['points']) > 1:
                yield {**case, 'points': case['points'][:index] + case['points'][index + 1:]}
        return
    for name in ('subject', 'clip'):
        rings = case[name]
        for index in range(len(rings)):
            yield {**case, name: rings[:index] + rings[index + 1:]}
        for index, ring in enumerate(rings):
            for cut in range(len(ring)):
                yield {**case, name: rings[:index] + [ring[:cut] + ring[cut + 1:]] + rings[index + 1:]}
