"""C16 - the numeric kernel computes what its exact rational definition says."""
import ctypes
import math
from fractions import Fraction

from vlib import build, geom
from vlib.engine import HarnessError, Outcome
from vlib.impl import BOTH, CPP, FILLS, OP_KINDS, OPS, PORT

import _wagyu as cpp
from wagyu import bound as port_bound
from wagyu import bubble_sort as port_bubble_sort
from wagyu import edge as port_edge
from wagyu import point as port_point
from wagyu import utils as port_utils

ID = 'C16'
RULE = ('Per primitive: integer edges and points at magnitudes up to 2^24 (parallel, touching, crossing near a pixel '
        'boundary, horizontal, vertical), reals at, near and off rounding ties, reals a few representable steps apart, boxes, '
        'sequences with a counting comparator, rows of bounds. Each answer is compared with exact rational '
        'arithmetic. Non-trivial: a boundary case (parallel, touching, tie, within 8 steps, inversion, both kinds).')
PLAN = {'quick': {'points': 20000, 'edge': 30000, 'crossing': 40000, 'round': 30000, 'steps': 20000,
                  'box': 10000, 'bubble': 10000, 'row': 16000},
        'thorough': {'points': 2000000, 'edge': 3000000, 'crossing': 4000000, 'round': 3000000, 'steps': 2000000,
                     'box': 800000, 'bubble': 1000000, 'row': 1000000}}
LIMIT = 2 ** 24
FUNCTIONS = (
    (CPP, dict(points=cpp.are_points_slopes_equal, edges=cpp.are_edges_slopes_equal,
               between=cpp.is_point_between_others, low=cpp.round_towards_min, high=cpp.round_towards_max,
               equal=cpp.are_floats_almost_equal, sort=cpp.bubble_sort, winding=cpp.set_winding_count,
               Bound=cpp.Bound)),
    (PORT, dict(points=port_point.are_points_slopes_equal, edges=port_edge.are_edges_slopes_equal,
                between=port_point.is_point_between_others, low=port_utils.round_towards_min,
                high=port_utils.round_towards_max, equal=port_utils.are_floats_almost_equal,
                sort=port_bubble_sort.bubble_sort, winding=port_bound.set_winding_count,
                Bound=port_bound.Bound)))


def number(rng):
    extent = rng.choice((2, 4, 8, 100, 10 ** 4, LIMIT))
    return rng.randint(-extent, extent)


def pair(rng):
    extent = rng.choice((2, 4, 8, 100, 10 ** 4, LIMIT))
    return [rng.randint(-extent, extent), rng.randint(-extent, extent)]


def make(stream, rng):
    if stream == 'points':
        a = pair(rng)
        if rng.random() < .6:
            # collinear, or off by one
            dx, dy = pair(rng)
            dx, dy = dx // 64 if abs(dx) > 1000 else dx, dy // 64 if abs(dy) > 1000 else dy
            points = [a] + [[a[0] + dx * k, a[1] + dy * k] for k in (rng.randint(-9, 9), rng.randint(-9, 9))]
            rng.shuffle(points)
            if rng.random() < .3:
                points[rng.randrange(3)][rng.randrange(2)] += rng.choice((-1, 1))
        else:
            points = [a, pair(rng), pair(rng)]
        return {'points': points, 'kind': stream}
    if stream in ('edge', 'crossing'):
        extent = rng.choice((2, 4, 8, 30, 1000, 10 ** 5, LIMIT))
        point = lambda: [rng.randint(-extent, extent), rng.randint(-extent, extent)]  # noqa: E731
        a, b = point(), point()
        if rng.random() < .15:
            b[1] = a[1]
        if rng.random() < .1:
            b[0] = a[0]
        c, d = point(), point()
        pick = rng.random()
        if pick < .2:
            c = list(rng.choice((a, b)))
        elif pick < .35:
            d = [c[0] + b[0] - a[0], c[1] + b[1] - a[1]]
        elif pick < .5 and (b[0] - a[0]) % 2 == 0 and (b[1] - a[1]) % 2 == 0:
            c = [(a[0] + b[0]) // 2, (a[1] + b[1]) // 2]
        if a == b:
            b[0] += 1
        if c == d:
            d[1] += 1
        y0, y1 = min(a[1], b[1]), max(a[1], b[1])
        return {'points': [a, b, c, d], 'ys': [rng.randint(y0, y1) for _ in range(3)], 'kind': stream}
    if stream == 'round':
        base = number(rng)
        step = rng.choice((0, .5, .5, .25, .75, .5 - 2 ** -20, .5 + 2 ** -20, rng.random()))
        if rng.random() < .1:
            # next to a tie by one representable step
            value = rng.randint(-4, 4) + .5
            towards = rng.choice((-9., 9.))
            for _ in range(rng.choice((1, 1, 2, 3, 4, 5, 6, 9))):
                value = math.nextafter(value, towards)
            return {'value': value,
                    'other': rng.choice((-.5, .5, -0., 0.)), 'kind': stream}
        return {'value': base + step, 'other': number(rng) + rng.choice((0, .5, rng.random())), 'kind': stream}
    if stream == 'steps':
        value = rng.choice((0., -0., 1., -1., .5, 3., 1e300, -1e300, 5e-324, -5e-324, 2.2250738585072014e-308,
                            rng.uniform(-10, 10), rng.uniform(-1e9, 1e9), float(number(rng))))
        return {'value': value.hex(), 'steps': rng.randint(-9, 9), 'kind': stream}
    if stream == 'box':
        corners = []
        for _ in range(2):
            xs, ys = sorted((rng.randint(0, 4), rng.randint(0, 4))), sorted((rng.randint(0, 4), rng.randint(0, 4)))
            corners.append([xs[0], ys[0], xs[1], ys[1]])
        if rng.random() < .3:
            x0, y0, x1, y1 = corners[0]
            corners[1] = [x0 - rng.randint(0, 1), y0 - rng.randint(0, 1), x1 + rng.randint(0, 1),
                          y1 + rng.randint(0, 1)]
        return {'boxes': corners, 'kind': stream}
    if stream == 'bubble':
        top = rng.choice((1, 3, 20))
        return {'values': [rng.randint(0, top) for _ in range(rng.randint(0, 9))], 'kind': stream}
    return {'row': [[rng.randrange(2), rng.choice((-1, 1))] for _ in range(rng.randint(1, 9))],
            'fills': [rng.randrange(4), rng.randrange(4)], 'kind': stream}


def run(case):
    kind = case['kind']
    for impl, functions in FUNCTIONS:
        problem = globals()['check_' + kind](case, impl, functions)
        if problem:
            return Outcome('%s: %s' % (impl.name, problem))
    return Outcome(None, trivial_or_not(case), [kind])


def trivial_or_not(case):
    kind = case['kind']
    if kind == 'points':
        return geom._orient(*case['points']) == 0
    if kind == 'edge':
        a, b, c, d = case['points']
        return a[1] != b[1]
    if kind == 'crossing':
        return True
    if kind == 'round':
        return case['value'] % 1 != 0
    if kind == 'steps':
        return True
    if kind == 'box':
        return True
    if kind == 'bubble':
        return case['values'] != sorted(case['values'])
    return len({which for which, _ in case['row']}) > 1


def check_points(case, impl, f):
    points = case['points']
    a, b, c = (impl.Point(*point) for point in points)
    collinear = geom._orient(*points) == 0
    got = f['points'](a, b, c)
    if got is not collinear:
        return 'are_points_slopes_equal(%s) is %r' % (points, got)
    if collinear:
        p, q, r = map(tuple, points)
        between = p != q and q != r and p != r and min(p, r) < q < max(p, r)
        got = f['between'](a, b, c)
        if got is not between:
            return 'is_point_between_others(%s) is %r' % (points, got)
    return None


def near(value, exact, scale):
    return abs(Fraction(value) - exact) <= Fraction(scale) / 2 ** 44 + Fraction(1, 2 ** 40)


def rounded(exact, towards_max):
    """Acceptable roundings of an inexactly computed value."""
    floor = exact.numerator // exact.denominator
    rest = exact - floor
    if abs(rest - Fraction(1, 2)) < Fraction(1, 10 ** 6):
        if rest == Fraction(1, 2):
            # a tie may be missed only when intermediate values are not exact
            return (floor + towards_max, floor + (not towards_max))
        return (floor, floor + 1)
    return (floor + (rest > Fraction(1, 2)),)


def check_edge(case, impl, f):
    a, b, c, d = map(tuple, case['points'])
    edge = impl.Edge(impl.Point(*a), impl.Point(*b))
    bottom, top = (edge.bottom.x, edge.bottom.y), (edge.top.x, edge.top.y)
    expected = (b, a) if a[1] < b[1] else (a, b)
    if (bottom, top) != expected:
        return 'edge of %s and %s goes from %s to %s' % (a, b, bottom, top)
    (bx, by), (tx, ty) = expected
    scale = max(map(abs, (bx, by, tx, ty, 1)))
    if edge.is_horizontal is not (by == ty):
        return 'edge %s: is_horizontal is %r' % (expected, edge.is_horizontal)
    other = impl.Edge(impl.Point(*c), impl.Point(*d))
    parallel = (b[0] - a[0]) * (d[1] - c[1]) == (b[1] - a[1]) * (d[0] - c[0])
    if f['edges'](edge, other) is not parallel:
        return 'are_edges_slopes_equal(%s, %s) is %r' % ((a, b), (c, d), not parallel)
    if by == ty:
        if edge.get_min_x(by) != min(bx, tx) or edge.get_max_x(by) != max(bx, tx):
            return 'extent of horizontal %s is %s to %s' % (expected, edge.get_min_x(by), edge.get_max_x(by))
        edge.reverse_horizontal()
        now = ((edge.bottom.x, edge.bottom.y), (edge.top.x, edge.top.y))
        if now != ((tx, by), (bx, ty)):
            return 'reversed horizontal %s is %s' % (expected, now)
        return None
    slope = Fraction(tx - bx, ty - by)
    if not abs(Fraction(edge.slope) - slope) <= abs(slope) / 2 ** 50:
        return 'slope of %s is %r' % (expected, edge.slope)
    for y in (by, ty, *case['ys']):
        exact = bx + slope * (y - by)
        got = edge.get_current_x(y)
        if y in (by, ty) and got != exact or not near(got, exact, scale):
            return 'edge %s: get_current_x(%d) is %r, exactly %s' % (expected, y, got, float(exact))
        # the part of the edge within the row of pixels
        upper = max(Fraction(y) - Fraction(1, 2), Fraction(ty))
        lower = min(Fraction(y) + Fraction(1, 2), Fraction(by))
        xs = (bx + slope * (upper - by), bx + slope * (lower - by))
        low, high = edge.get_min_x(y), edge.get_max_x(y)
        if low not in rounded(min(xs), False):
            return 'edge %s: get_min_x(%d) is %r, exactly %s' % (expected, y, low, float(min(xs)))
        if high not in rounded(max(xs), True):
            return 'edge %s: get_max_x(%d) is %r, exactly %s' % (expected, y, high, float(max(xs)))
    return None


def check_crossing(case, impl, f):
    a, b, c, d = map(tuple, case['points'])
    first = impl.Edge(impl.Point(*a), impl.Point(*b))
    second = impl.Edge(impl.Point(*c), impl.Point(*d))
    exact = geom.crossing(a, b, c, d)
    for left, right in ((first, second), (second, first)):
        got = left & right
        if (got is None) != (exact is None):
            return 'crossing of %s and %s is %r, exactly %s' % ((a, b), (c, d), got, exact)
        if got is not None:
            scale = max(abs(v) for p in (a, b, c, d) for v in p) + 1
            if not (near(got.x, exact[0], scale) and near(got.y, exact[1], scale)):
                return 'crossing of %s and %s is %r, exactly %s' % ((a, b), (c, d), got, tuple(map(float, exact)))
    return None


_half_up = {}


def half_up(impl):
    """Roundings to the nearest integer with ties away from zero."""
    if impl.name not in _half_up:
        found = []
        if impl is PORT:
            if hasattr(port_utils, 'round_half_up'):
                found.append(('round_half_up', port_utils.round_half_up))
        else:
            path = build.kernel_library()
            if path is not None:
                library = ctypes.CDLL(path)
                library.round_double.restype = ctypes.c_double
                library.round_int64.restype = ctypes.c_int64
                for name, function in (('wround<double>', library.round_double),
                                       ('wround<int64>', library.round_int64)):
                    function.argtypes = [ctypes.c_double]
                    found.append((name, function))
        _half_up[impl.name] = found
    return _half_up[impl.name]


def check_round(case, impl, f):
    value, other = case['value'], case['other']

    def wanted(v):
        floor = math.floor(v)
        rest = Fraction(v) - floor
        half = Fraction(1, 2)
        tie = floor + .5
        for _ in range(4):
            tie = math.nextafter(tie, v)
        # reals within four representable steps count as equal
        if tie == v:
            return floor, floor + 1
        return (floor + (rest > half),) * 2
    for v in (value, -value, other):
        low, high = wanted(v)
        if f['low'](v) != low:
            return 'round_towards_min(%r) is %r' % (v, f['low'](v))
        if f['high'](v) != high:
            return 'round_towards_max(%r) is %r' % (v, f['high'](v))
    for name, function in half_up(impl):
        for v in (value, -value, other, -other):
            floor = math.floor(abs(v))
            exact = floor + (Fraction(abs(v)) - floor >= Fraction(1, 2))
            exact = exact if v >= 0 else -exact
            if function(v) != exact:
                return '%s(%r) is %r, not %r' % (name, v, function(v), exact)
    point = impl.Point(value, other).round()
    if (point.x, point.y) != (wanted(value)[1], wanted(other)[1]):
        return 'point (%r, %r) is rounded to %r' % (value, other, point)
    return None


def check_steps(case, impl, f):
    value = float.fromhex(case['value'])
    steps = case['steps']
    other = math.nextafter(value, math.inf if steps > 0 else -math.inf, steps=abs(steps))
    if math.isinf(other):
        raise HarnessError('out of range')
    close = abs(steps) <= 4
    for left, right in ((value, other), (other, value), (-value, -other)):
        if f['equal'](left, right) is not close:
            return 'are_floats_almost_equal(%r, %r), %d steps apart, is %r' % (left, right, steps, not close)
    return None


def check_box(case, impl, f):
    inner, outer = case['boxes']
    boxes = [impl.Box(impl.Point(b[0], b[1]), impl.Point(b[2], b[3])) for b in (inner, outer)]
    inside = (outer[0] <= inner[0] and outer[1] <= inner[1] and inner[2] <= outer[2] and inner[3] <= outer[3])
    if boxes[0].inside_of(boxes[1]) is not inside:
        return 'box %s inside of %s is %r' % (inner, outer, not inside)
    return None


def check_bubble(case, impl, f):
    values = list(enumerate(case['values']))
    row = list(values)
    swaps = []

    def on_swap(left, right):
        swaps.append((left, right))
    result = f['sort'](list(values), lambda left, right: left[1] <= right[1], on_swap)
    # stable, and each inversion is reported exactly once
    if [tuple(item) for item in result] != sorted(values, key=lambda item: item[1]):
        return 'bubble_sort(%s) is %s' % (case['values'], result)
    for left, right in swaps:
        at = row.index(tuple(left))
        if at + 1 >= len(row) or row[at + 1] != tuple(right) or left[1] <= right[1]:
            return 'bubble_sort(%s) reported the swap %s, %s out of turn' % (case['values'], left, right)
        row[at], row[at + 1] = row[at + 1], row[at]
    if row != [tuple(item) for item in result]:
        return 'the swaps reported by bubble_sort(%s) do not sort it' % (case['values'],)
    return None


def filled(rule, winding):
    return (winding % 2 == 1 if rule == 0 else winding != 0 if rule == 1
            else winding > 0 if rule == 2 else winding < 0)


def check_row(case, impl, f):
    fills = case['fills']
    kinds = impl.kinds
    point = impl.Point(0, 0)
    bounds = [f['Bound'](winding_delta=delta, polygon_kind=kinds[which], last_point=point)
              for which, delta in case['row']]
    winding = [0, 0]
    for index, (which, delta) in enumerate(case['row']):
        f['winding'](index, bounds, impl.fills[fills[0]], impl.fills[fills[1]])
        bound = bounds[index]
        before, other = list(winding), winding[1 - which]
        winding[which] += delta
        own = (delta if fills[which] == 0 else
               max(before[which], winding[which], key=abs))
        opposite = other % 2 if fills[1 - which] == 0 else other
        if (bound.winding_count, bound.opposite_winding_count) != (own, opposite):
            return ('row %s, fill rules %s: bound %d has winding counts %s, expected %s'
                    % (case['row'], fills, index, (bound.winding_count, bound.opposite_winding_count),
                       (own, opposite)))
        for op in OPS:
            needed = (geom.combine(op, *(filled(fills[k], before[k]) for k in (0, 1)))
                      != geom.combine(op, *(filled(fills[k], winding[k]) for k in (0, 1))))
            got = bound.is_contributing(getattr(impl.enums.OperationKind, OP_KINDS[op]),
                                        impl.fills[fills[0]], impl.fills[fills[1]])
            if bool(got) is not needed:
                return 'row %s, fill rules %s: bound %d contributing to %s is %r' % (
                    case['row'], fills, index, op, got)
    return None
