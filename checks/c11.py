"""C11 - the caller's objects are never modified and returned objects are the caller's own."""
from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP, PORT

ID = 'C11'
RULE = ('Rings and polygons are added (some objects several times, under both kinds, to two clippers), then '
        'operations and bounds are requested. Every object handed in must afterwards equal an untouched '
        'copy; no part of what is returned may be in two places of it; returned boxes, multipolygons, their lists of polygons and of rings (empty ones too) are '
        'then overwritten where the API lets one write, and the same requests repeated, on these clippers '
        'and on a third, empty one, with the same answers; so once more after everything handed in was overwritten. '
        'Non-trivial: some first result is non-empty.')
PLAN = {'quick': {'all': 6000, 'many': 400}, 'thorough': {'all': 900000, 'many': 40000}}


def make(stream, rng):
    few, counts = 8, (1, 1, 1, 2, 3)
    if stream == 'many':
        few, counts = 60, (1, 6, 17, 30)
        _, subject, clip = gen.many(rng, rng.random() < .5)
    else:
        _, subject, clip = (gen.lattice if rng.random() < .6 else
                            lambda r: gen.general(r, False))(rng)
    rings = (subject + clip)[:few]
    if rng.random() < .4:
        rings.append(gen.degenerate_ring(rng, 4, 60))
    uses = []
    for _ in range(rng.randint(1, 6)):
        uses.append([rng.randrange(2), rng.randrange(2),
                     [rng.randrange(len(rings)) for _ in range(rng.choice(counts))]])
    return {'rings': rings, 'uses': uses, 'requests': [list(gen.operation(rng)) for _ in range(2)],
            'scribble': rng.randrange(6)}


def run(case):
    nontrivial = False
    for impl in BOTH:
        rings = [impl.ring(ring) for ring in case['rings']]
        identities = [[id(point) for point in ring] for ring in rings] if impl is PORT else None
        polygons = []
        clippers = [impl.Wagyu(), impl.Wagyu(), impl.Wagyu()]
        for which, kind, indices in case['uses']:
            if len(indices) == 1:
                clippers[which].add_linear_ring(rings[indices[0]], impl.kinds[kind])
            else:
                polygon = impl.Polygon([rings[index] for index in indices])
                clippers[which].add_polygon(polygon, impl.kinds[kind])
                polygons.append((polygon, indices))

        def untouched(when):
            for index, ring in enumerate(rings):
                if impl.plain_ring(ring) != [tuple(point) for point in case['rings'][index]]:
                    return '%s: a ring passed in became %s %s' % (impl.name, impl.plain_ring(ring), when)
            for polygon, indices in polygons:
                if [impl.plain_ring(ring) for ring in polygon] != [
                        [tuple(point) for point in case['rings'][index]] for index in indices]:
                    return '%s: a polygon passed in changed %s' % (impl.name, when)
            if identities is not None and identities != [[id(point) for point in ring]
                                                         for ring in rings]:
                return '%s: points of a ring passed in were replaced %s' % (impl.name, when)
            return None
        problem = untouched('by adding')
        if problem:
            return Outcome(problem)
        first = []
        objects = []
        for clipper in clippers:
            for request in case['requests']:
                boxes = clipper.bounds
                result = impl.execute(clipper, *request)
                first.append((impl.bounds(clipper), impl.plain(result)))
                objects.append((boxes, result))
        problem = untouched('by operations')
        if problem:
            return Outcome(problem)
        nontrivial = any(result for _, result in first)
        if impl is PORT:
            problem = shared(objects, rings)
            if problem:
                return Outcome(problem)
        # what was returned is ours to scribble on
        for box, result in objects:
            scribble(impl, box, result, case.get('scribble', 0))
        problem = untouched('by writing to results')
        if problem:
            return Outcome(problem)
        second = []
        for clipper in clippers:
            for request in case['requests']:
                second.append((impl.bounds(clipper), impl.plain(impl.execute(clipper, *request))))
        if first != second:
            return Outcome('%s: repeated requests gave %s, then %s' % (impl.name, first, second))
        # what was handed in is the caller's too
        for polygon, _ in polygons:
            edit(getattr(polygon, 'linear_rings', polygon), case.get('scribble', 0), impl.ring([(0, 0), (9, 0), (0, 9)]))
        for ring in rings:
            for point in ring:
                overwrite(point, point.x * 2 + 1, point.y // 2 - 3)
            edit(getattr(ring, 'points', ring), case.get('scribble', 0), impl.Point(5, 5))
        third = [(impl.bounds(clipper), impl.plain(impl.execute(clipper, *request)))
                 for clipper in clippers for request in case['requests']]
        if first != third:
            return Outcome('%s: after the rings passed in were changed by their owner, requests gave %s, not %s'
                           % (impl.name, third, first))
    return Outcome(None, nontrivial)


def shared(objects, rings):
    """Points and lists the caller may write to belong to one place each."""
    parts = []
    for box, result in objects:
        parts += [box, box.minimum, box.maximum, result, result.polygons]
        for polygon in result.polygons:
            parts += [polygon, polygon.linear_rings]
            for ring in polygon.linear_rings:
                parts += [ring, ring.points, *ring.points]
    seen = {id(point) for ring in rings for point in ring}
    for part in parts:
        if id(part) in seen:
            return 'port: %r is in several places of what was returned' % (part,)
        seen.add(id(part))
    return None


def scribble(impl, box, result, style):
    """Writes to everything the API lets a caller write to."""
    for point in (box.minimum, box.maximum):
        overwrite(point, 10 ** 7, -10 ** 7)
    # (what the extension returns is read-only)
    polygons = getattr(result, 'polygons', result)
    for polygon in polygons:
        rings = getattr(polygon, 'linear_rings', polygon)
        for ring in rings:
            points = getattr(ring, 'points', ring)
            for point in points:
                overwrite(point, 3, 3)
            edit(points, style, impl.Point(5, 5))
        edit(rings, style // 2, impl.ring([(0, 0), (7, 0), (0, 7)]))
    edit(polygons, style // 2 + 1, impl.polygon([[(0, 0), (7, 0), (0, 7)]]))


def overwrite(point, x, y):
    try:
        point.x, point.y = x, y
    except AttributeError:
        pass


def edit(values, style, extra):
    if not isinstance(values, list):
        return
    if style % 3 == 0:
        values.append(extra)
    elif style % 3 == 1:
        del values[1:]
        values.append(extra)
    else:
        values.clear()
