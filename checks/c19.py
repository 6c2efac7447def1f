"""C19 - clipping to a rectangle keeps exactly what lies in the rectangle."""
from vlib import gen, geom, native, ref
from vlib.engine import HarnessError, Outcome

ID = 'C19'
RULE = ('Lattice inputs and rectangles with lattice corners (cutting through, containing, touching or missing the rings) go '
        'through the native rectangle clip, as one polygon or as a multipolygon. Within the rectangle the result must be '
        'exactly the filled input, outside of it empty, and every ring clipped on its own keeps its winding number '
        'everywhere inside. Arbitrary integer inputs get the same answer up to 2.8 units next to the edges. Non-trivial: some of the input lies in and some out of the rectangle.')
PLAN = {'quick': {'lattice': 40000, 'general': 20000, 'long': 400},
        'thorough': {'lattice': 3000000, 'general': 1500000, 'long': 40000}}


# every side of the rectangle an edge is cut at may move it by half a unit, noding by 0.7072
TOLERANCE = 2.8


def prepare():
    ref.library()
    native.library()


def make(stream, rng):
    if stream == 'lattice':
        _, subject, clip = gen.lattice(rng)
        rings = (subject + clip)[:10]
    elif stream == 'long':
        _, subject, clip = gen.long(rng)
        rings = subject + clip
        stream = 'lattice'
    else:
        _, subject, clip = gen.general(rng, False)
        rings = (subject + clip)[:4]
    xs = [x for ring in rings for x, _ in ring] or [0]
    ys = [y for ring in rings for _, y in ring] or [0]
    if stream == 'lattice':
        # corners on the lattice: the coordinates of axis-parallel edges, or even steps next to them
        edges = geom.edges_of(rings)
        diagonal = next((a for a, b in edges if a[0] != b[0] and a[1] != b[1]), (0, 0))
        column = next((a[0] for a, b in edges if a[0] == b[0] and a[1] != b[1]), None)
        row = next((a[1] for a, b in edges if a[1] == b[1] and a[0] != b[0]), None)
        if column is None:
            column = diagonal[0] if row is None else sum(diagonal) - row
        if row is None:
            row = sum(diagonal) - column
        pick = lambda values, parity=None: (  # noqa: E731
            rng.choice([value for value in values if (value - parity) % 2 == 0] or [parity])
            + rng.choice((0, 0, 0, 2, -2, 4)))
    else:
        column = row = 0
        pick = lambda values, parity=None: rng.randint(min(values) - 5, max(values) + 5)  # noqa: E731
    x0, x1 = sorted((pick(xs, column), pick(xs, column)))
    y0, y1 = sorted((pick(ys, row), pick(ys, row)))
    if x0 == x1:
        x1 += 2 * (max(xs) - min(xs) or 2)
    if y0 == y1:
        y1 += 2 * (max(ys) - min(ys) or 2)
    return {'rings': rings, 'box': [x0, y0, x1, y1], 'fill': rng.randrange(4), 'many': rng.choice((0, 0, 1, rng.randint(1, 1 << 8), rng.randint(1, 1 << 8))),
            'exact': stream == 'lattice'}


def run(case):
    rings = [[tuple(point) for point in ring] for ring in case['rings']]
    x0, y0, x1, y1 = case['box']
    if not (x0 < x1 and y0 < y1):
        raise HarnessError('not a rectangle')
    fill = case['fill']
    box_ring = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    edges = geom.edges_of(rings)
    box_edges = geom.edges_of([box_ring])
    inside = any(x0 < x < x1 and y0 < y < y1 for ring in rings for x, y in ring)
    outside = any(not (x0 <= x <= x1 and y0 <= y <= y1) for ring in rings for x, y in ring)
    result = native.rectangle_clip(rings, case['box'], fill, case['many'])
    for polygon in result:
        for ring in polygon:
            for x, y in ring:
                if not (x0 <= x <= x1 and y0 <= y <= y1):
                    return Outcome('vertex %s of the result is out of the rectangle' % ((x, y),))
    problem = geom.validity_problem(result, [box_ring])
    if problem:
        return Outcome('invalid result: ' + problem)
    pieces = native.ring_clip(rings, case['box'])
    for ring in pieces:
        if ring and ring[0] != ring[-1]:
            return Outcome('clipped ring %s is not closed' % ring)
        if any(not (x0 <= x <= x1 and y0 <= y <= y1) for x, y in ring):
            return Outcome('clipped ring %s leaves the rectangle' % ring)
    if case['exact']:
        if not geom.on_even_lattice(edges + box_edges):
            raise HarnessError('not a lattice input')
        where = geom.lattice_difference(
            [edges, box_edges, geom.edges_of(geom.int_rings(result))],
            lambda w: (bool(w[1]) and geom.filled(fill, w[0])) != bool(w[2] % 2))
        if where:
            return Outcome('result differs from the input within the rectangle at %s: %s' % (where, result))
        for ring, piece in zip(rings, pieces):
            where = geom.lattice_difference(
                [geom.edges_of([ring]), box_edges, geom.edges_of([geom.int_ring(piece)] if piece else [])],
                lambda w: (w[0] if w[1] else 0) != w[2])
            if where:
                return Outcome('ring %s clipped to %s winds differently about %s' % (ring, piece, where))
    else:
        worst, x, y, _, _ = ref.worst_difference(rings, [box_ring], 'intersect', fill, 0, geom.int_rings(result))
        if worst > TOLERANCE:
            return Outcome('result is wrong at (%r, %r), %.3f from every edge: %s' % (x, y, worst, result))
    return Outcome(None, inside and outside)


def shrink(case):
    rings = case['rings']
    for index in range(len(rings)):
        yield {**case, 'rings': rings[:index] + rings[index + 1:]}
    for index, ring in enumerate(rings):
        for cut in range(len(ring)):
            yield {**case, 'rings': rings[:index] + [ring[:cut] + ring[cut + 1:]] + rings[index + 1:]}
