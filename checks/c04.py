"""C04 - the result does not depend on how the same input is presented."""
import itertools

from vlib import gen, geom
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP

ID = 'C04'
RULE = ('A base input (lattice or arbitrary) and one re-presentation of it: ring starting points, '
        'ring order, interleaving of subject and clip, grouping into polygons, closing points, '
        'repeated and collinear vertices, rings that enclose nothing, reversal of every ring with '
        'POSITIVE/NEGATIVE exchanged, reversal of some rings under EVEN_ODD, exchange of subject and clip, '
        'fill rules left out, coordinates as other '
        'kinds of numbers (int, float, minus zero); for '
        'lattice input also shift, scaling, transposition, reflection. The two results must bound '
        'exactly the same region. Non-trivial: the base result is non-empty and the presentation '
        'really differs.')
PLAN = {'quick': {'extension': 50000, 'both': 6000, 'many': 3000, 'long': 200},
        'thorough': {'extension': 3000000, 'both': 400000, 'many': 200000, 'long': 20000}}

GENERAL = ('start', 'order', 'interleave', 'polygons', 'closing', 'repeats', 'collinear', 'empty',
           'reverse', 'reverse-some', 'swap', 'defaults', 'numbers')
LATTICE = GENERAL + ('shift', 'scale', 'transpose', 'mirror-x', 'mirror-y', 'spikes', 'split-ring')
FLIP = (0, 1, 3, 2)


def make(stream, rng):
    lattice = rng.random() < .5
    family, subject, clip = (gen.many(rng, lattice) if stream == 'many' else
                             gen.long(rng) if stream == 'long' and lattice else
                             gen.tangled(rng) if stream == 'long' else
                             (gen.lattice if lattice else gen.general)(rng))
    op, subject_fill, clip_fill = gen.operation(rng)
    how = rng.choice(LATTICE if lattice else GENERAL)
    fills = [subject_fill, clip_fill]
    base = [subject, clip, op, fills, 'rings']
    other_op, other_fills, mode = op, list(fills), 'rings'
    new = [[list(ring) for ring in subject], [list(ring) for ring in clip]]
    if how == 'start':
        for rings in new:
            for index, ring in enumerate(rings):
                turn = rng.randrange(len(ring))
                if ring[0] == ring[-1]:
                    ring = ring[:-1]
                rings[index] = ring[turn:] + ring[:turn]
    elif how == 'order':
        for rings in new:
            rng.shuffle(rings)
    elif how == 'interleave':
        mode = 'interleave-%d' % rng.randrange(1000)
    elif how == 'polygons':
        mode = 'polygons-%d' % rng.randint(1, 3)
    elif how == 'closing':
        for rings in new:
            for index, ring in enumerate(rings):
                if ring[0] == ring[-1] and len(ring) > 3:
                    rings[index] = ring[:-1]
                else:
                    rings[index] = ring + ring[:1] * rng.randint(1, 2)
    elif how == 'repeats':
        for rings in new:
            for index, ring in enumerate(rings):
                rings[index] = [point for point in ring
                                for _ in range(rng.choice((1, 1, 2, 3)))]
    elif how == 'collinear':
        # every ring doubled first so that midpoints are integer points
        for rings in (subject, clip):
            rings[:] = [[(2 * x, 2 * y) for x, y in ring] for ring in rings]
        new = [[], []]
        for rings, source in zip(new, (subject, clip)):
            for ring in source:
                points = []
                for index, (ax, ay) in enumerate(ring):
                    bx, by = ring[(index + 1) % len(ring)]
                    points.append((ax, ay))
                    if rng.random() < .5:
                        points.append(((ax + bx) // 2, (ay + by) // 2))
                rings.append(points)
    elif how == 'empty':
        for rings in new:
            for _ in range(rng.randint(0, 2)):
                anchor = rng.choice(subject + clip)[0]
                dx, dy = rng.randint(-50, 50), rng.randint(-50, 50)
                far = (anchor[0] + 3 * dx, anchor[1] + 3 * dy)
                near = (anchor[0] + dx, anchor[1] + dy)
                rings.insert(rng.randint(0, len(rings)),
                             rng.choice(([], [anchor], [anchor, far], [anchor] * 4,
                                         [anchor, near, far], [anchor, far, anchor, far],
                                         [anchor, near, far, near])))
    elif how == 'reverse':
        new = [[ring[::-1] for ring in rings] for rings in new]
        other_fills = [FLIP[fill] for fill in fills]
    elif how == 'reverse-some':
        fills[:] = other_fills = [0, 0]
        new = [[gen.flipped(rng, ring) for ring in rings] for rings in new]
    elif how == 'defaults':
        fills[1] = other_fills[1] = 0
        if rng.random() < .7:
            fills[0] = other_fills[0] = 0
        base[4], mode = 'given', 'left-out'
    elif how == 'numbers':
        mode = 'numbers-%d' % rng.randrange(1, 3 ** 6)
    elif how == 'swap':
        base[2] = other_op = rng.choice(('intersect', 'unite', 'symmetric_subtract'))
        new = new[::-1]
        other_fills = fills[::-1]
    elif how == 'shift':
        dx, dy = rng.choice((rng.randint(-9, 9), rng.randint(-10 ** 5, 10 ** 5))), rng.randint(-99, 99)
        new = [[[(x + dx, y + dy) for x, y in ring] for ring in rings] for rings in new]
        mode = ['shift', dx, dy]
    elif how == 'scale':
        factor = rng.choice((2, 3, 10, 37))
        new = [[[(x * factor, y * factor) for x, y in ring] for ring in rings] for rings in new]
        mode = ['scale', factor]
    elif how == 'transpose':
        new = [[[(y, x) for x, y in ring] for ring in rings] for rings in new]
        other_fills = [FLIP[fill] for fill in fills]
        mode = ['transpose']
    elif how == 'mirror-x':
        new = [[[(-x, y) for x, y in ring] for ring in rings] for rings in new]
        other_fills = [FLIP[fill] for fill in fills]
        mode = ['mirror-x']
    elif how == 'mirror-y':
        new = [[[(x, -y) for x, y in ring] for ring in rings] for rings in new]
        other_fills = [FLIP[fill] for fill in fills]
        mode = ['mirror-y']
    elif how == 'spikes':
        new = [[gen.decorated(rng, ring) for ring in rings] for rings in new]
    elif how == 'split-ring':
        # cut a ring along a chord into two that share it
        rings = new[rng.randrange(2)] or new[0] or new[1]
        index = rng.randrange(len(rings))
        ring = rings[index]
        pairs = [(i, j) for i in range(len(ring)) for j in range(i + 2, len(ring))
                 if gen_octilinear(ring[i], ring[j])]
        if pairs:
            i, j = rng.choice(pairs)
            rings[index:index + 1] = [ring[i:j + 1], ring[j:] + ring[:i + 1]]
    return {'family': family, 'how': how, 'base': base,
            'other': [new[0], new[1], other_op, other_fills, mode],
            'port': stream == 'both' or stream in ('many', 'long') and rng.random() < .1}


def gen_octilinear(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    return (dx, dy) != (0, 0) and (dx == 0 or dy == 0 or abs(dx) == abs(dy))


def evaluate(impl, subject, clip, op, fills, mode):
    if isinstance(mode, str) and mode.startswith('interleave'):
        clipper = impl.new()
        order = [(ring, kind) for kind, rings in enumerate((subject, clip)) for ring in rings]
        step = int(mode.split('-')[1])
        # a permutation drawn from the number in the mode
        while order:
            ring, kind = order.pop(step % len(order))
            clipper.add_linear_ring(impl.ring(ring), impl.kinds[kind])
            step = step * 7 + 3
        return impl.plain(impl.execute(clipper, op, *fills))
    if isinstance(mode, str) and mode.startswith('polygons'):
        clipper = impl.new()
        size = int(mode.split('-')[1])
        for kind, rings in enumerate((subject, clip)):
            for start in range(0, len(rings), size):
                clipper.add_polygon(impl.polygon(rings[start:start + size]), impl.kinds[kind])
        return impl.plain(impl.execute(clipper, op, *fills))
    if isinstance(mode, str) and mode.startswith('numbers'):
        subject, clip = retyped(subject, clip, int(mode.split('-')[1]))
    omit = {'given': False, 'left-out': True}.get(mode) if isinstance(mode, str) else None
    return impl.plain(impl.execute(impl.new(subject, clip), op, *fills, omit))


def minus_zero(value):
    return float(value) if value else -0.


NUMBERS = (int, float, minus_zero)


def retyped(subject, clip, code):
    """The same coordinates as other kinds of numbers, in turn as the digits of `code` say."""
    digits = []
    while code:
        digits.append(code % 3)
        code //= 3
    step = itertools.count()
    return [[[tuple(NUMBERS[digits[next(step) % len(digits)]](value) for value in point)
              for point in ring] for ring in rings] for rings in (subject, clip)]


def canonical(rings, mode):
    """Rings mapped as `mode` says; reflections also turn the boundary round."""
    if isinstance(mode, str):
        return rings
    kind = mode[0]
    if kind == 'shift':
        return [[(x + mode[1], y + mode[2]) for x, y in ring] for ring in rings]
    if kind == 'scale':
        return [[(x * mode[1], y * mode[1]) for x, y in ring] for ring in rings]
    if kind == 'transpose':
        return [[(y, x) for x, y in ring][::-1] for ring in rings]
    if kind == 'mirror-x':
        return [[(-x, y) for x, y in ring][::-1] for ring in rings]
    return [[(x, -y) for x, y in ring][::-1] for ring in rings]


def tuples(rings):
    return [list(map(tuple, ring)) for ring in rings]


def run(case):
    nontrivial = False
    base, other = list(case['base']), list(case['other'])
    for parts in (base, other):
        parts[0], parts[1] = tuples(parts[0]), tuples(parts[1])
    for impl in BOTH if case['port'] else (CPP,):
        first = geom.int_rings(evaluate(impl, *base))
        second = geom.int_rings(evaluate(impl, *other))
        value = geom.chain(canonical(first, other[4]))
        geom.chain(second, -1, value)
        if not geom.is_zero_chain(value):
            return Outcome('%s: %s (%s): the presentation "%s" changes the result: %s became %s'
                           % (impl.name, base[2], base[3], case['how'], first, second))
        nontrivial = bool(first) and (base != other)
    return Outcome(None, nontrivial, ['how ' + case['how']])


def shrink(case):
    """Only the crossing structure matters: drop the same ring from both sides when the
    presentation keeps rings aligned, else give the case as it is."""
    if case['how'] in ('order', 'empty', 'split-ring', 'interleave', 'spikes'):
        return
    pairs = ((0, 1), (1, 0)) if case['how'] == 'swap' else ((0, 0), (1, 1))
    for left, right in pairs:
        for index in range(len(case['base'][left])):
            base, other = list(case['base']), list(case['other'])
            base[left] = base[left][:index] + base[left][index + 1:]
            other[right] = other[right][:index] + other[right][index + 1:]
            yield {**case, 'base': base, 'other': other}
    if case['how'] in ('reverse', 'swap', 'shift', 'scale', 'transpose', 'mirror-x', 'mirror-y'):
        turn = case['how'] == 'reverse'
        for left, right in pairs:
            for number, ring in enumerate(case['base'][left]):
                for index in range(len(ring)):
                    if len(ring) <= 3:
                        break
                    base, other = list(case['base']), list(case['other'])
                    mirror = len(ring) - 1 - index if turn else index
                    base[left] = [r if k != number else r[:index] + r[index + 1:]
                                  for k, r in enumerate(base[left])]
                    other[right] = [r if k != number else r[:mirror] + r[mirror + 1:]
                                    for k, r in enumerate(other[right])]
                    yield {**case, 'base': base, 'other': other}
