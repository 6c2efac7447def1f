"""C17 - geometries are values: equality by content, faithful repr, copies and sequence protocol."""
import copy
import pickle

from vlib import gen
from vlib.engine import Outcome
from vlib.impl import BOTH, CPP, PORT

import _wagyu as cpp
from wagyu import bound as port_bound
from wagyu import intersect_node as port_crossing
from wagyu import local_minimum as port_minimum
from wagyu import ring as port_ring

ID = 'C17'
RULE = ('Random points, rings, polygons, multipolygons, boxes, edges, rings of the ring tree, bounds and local minima (integer, '
        'fractional, huge, tiny and negative coordinates; empty and nested sequences), each with an equal twin '
        'and a variant differing in one random component. Lists of local minima of the port go through random histories '
        'of list operations next to a plain list. Clippers and their lists of minima are compared with a twin given the '
        'same rings and a variant given one ring more, less, moved or of the other kind, or the other direction; '
        'crossings with variants in either bound or the point. '
        'Non-trivial: a variant exists and differs, or a list was changed.')
PLAN = {'quick': {'point': 8000, 'ring': 12000, 'polygon': 10000, 'multipolygon': 8000, 'box': 6000, 'edge': 8000,
                  'node': 6000, 'bound': 8000, 'minimum': 5000, 'minima': 8000, 'clipper': 6000, 'crossing': 6000},
        'thorough': {'point': 300000, 'ring': 500000, 'polygon': 500000, 'multipolygon': 400000, 'box': 200000,
                     'edge': 400000, 'node': 200000, 'bound': 300000, 'minimum': 200000,
                     'minima': 300000, 'clipper': 200000, 'crossing': 200000}}


def coordinate(rng):
    pick = rng.random()
    if pick < .6:
        return rng.randint(-5, 5)
    if pick < .75:
        return rng.randint(-2 ** 40, 2 ** 40)
    if pick < .85:
        return rng.random() - .5
    return rng.choice((.1, -.1, 1e300, -1e-300, 5e-324, 2. ** 53, 1e22, 123456789.123456789, -0.5))


def points(rng, least=0, most=5):
    return [[coordinate(rng), coordinate(rng)] for _ in range(rng.randint(least, most))]


def make_value(kind, rng):
    if kind == 'point':
        return points(rng, 1, 1)[0]
    if kind == 'ring':
        return points(rng)
    if kind == 'polygon':
        return [points(rng, 0, 4) for _ in range(rng.randint(0, 3))]
    if kind == 'multipolygon':
        return [make_value('polygon', rng) for _ in range(rng.randint(0, 3))]
    if kind in ('box', 'edge'):
        return points(rng, 2, 2)
    if kind == 'node':
        return [rng.randint(0, 3), points(rng, 1), rng.randrange(2),
                [[rng.randint(0, 3), points(rng, 1, 3), rng.randrange(2), []]
                 for _ in range(rng.choice((0, 0, 1, 2)))]]
    if kind == 'bound':
        count = rng.randint(0, 3)
        return [[points(rng, 2, 2) for _ in range(count)], rng.randint(0, count), rng.randint(0, count),
                points(rng, 1, 1)[0], coordinate(rng), rng.randint(0, 3), rng.randint(-2, 2),
                rng.randint(-2, 2), rng.choice((-1, 0, 1)), rng.randrange(2), rng.randrange(2)]
    return [make_value('bound', rng), make_value('bound', rng), coordinate(rng), rng.randrange(2)]


def mutate(value, rng, kind):
    """The same value with one leaf or one length changed; None if that is impossible."""
    value = copy.deepcopy(value)
    paths = []

    def visit(item, path):
        if isinstance(item, list):
            for index, sub in enumerate(item):
                visit(sub, path + [index])
        else:
            paths.append(path)
    visit(value, [])
    if kind in ('ring', 'polygon', 'multipolygon') and (not paths or rng.random() < .3):
        # a different length
        target = value
        while target and isinstance(target[0], list) and isinstance(target[0], list) and depth(target) > 2 and \
                rng.random() < .5:
            target = rng.choice(target)
        target.append([1, 2] if depth_of(kind, value, target) == 'points' else [])
        return value
    if not paths:
        return None
    path = rng.choice(paths)
    target = value
    for step in path[:-1]:
        target = target[step]
    leaf = target[path[-1]]
    target[path[-1]] = leaf + 1 if abs(leaf) < 2 ** 50 else leaf / 2
    return value


def depth(value):
    return 1 + max(map(depth, value), default=0) if isinstance(value, list) else 0


def depth_of(kind, value, target):
    if kind == 'ring':
        return 'points'
    if kind == 'polygon':
        return 'rings' if target is value else 'points'
    return 'polygons' if target is value else 'rings' if any(target is p for p in value) else 'points'


MUTATIONS = ('append', 'insert', 'pop', 'pop_at', 'set', 'delete', 'extend', 'reverse', 'remove', 'clear', 'iadd')


def make_history(rng):
    history = []
    for _ in range(rng.randint(1, 10)):
        history.append([rng.choice(MUTATIONS[:9] if rng.random() < .95 else MUTATIONS), rng.randint(-4, 6), rng.randrange(5)])
    return {'kind': 'minima', 'pool': [rng.randint(-3, 3) for _ in range(5)],
            'start': [rng.randrange(5) for _ in range(rng.randint(0, 4))], 'history': history}


def run_history(case):
    pool = [build(PORT, 'minimum', [[[], 0, 0, [0, 0], 0, 0, 0, 0, 0, 0, 0]] * 2 + [y, index % 2])
            for index, y in enumerate(case['pool'])]
    model = [pool[index] for index in case['start']]
    given = list(model)
    subject = port_minimum.LocalMinimumList(*given)
    for name, index, item in case['history']:
        item = pool[item]

        def change(target):
            try:
                if name in ('append', 'remove'):
                    return getattr(target, name)(item)
                if name in ('insert', 'set'):
                    return target.insert(index, item) if name == 'insert' else target.__setitem__(index, item)
                if name == 'pop_at':
                    return target.pop(index)
                if name == 'delete':
                    return target.__delitem__(index)
                if name in ('extend', 'iadd'):
                    return getattr(target, {'iadd': '__iadd__'}.get(name, name))([item, pool[0]]) and None
                return getattr(target, name)()
            except (IndexError, ValueError) as error:
                return type(error)
        expected, found = change(model), change(subject)
        if expected is not found:
            return Outcome('%s(%d) of a list of minima gave %r instead of %r' % (name, index, found, expected))
        if (len(subject) != len(model) or any(a is not b for a, b in zip(subject, model))
                or any(subject[i] is not model[i] for i in range(-len(model), len(model)))
                or list(reversed(subject)) != model[::-1]):
            return Outcome('%s(%d) left minima %r instead of %r' % (name, index, list(subject), model))
        for minimum in pool:
            if ((minimum in subject) is not (minimum in model) or subject.count(minimum) != model.count(minimum)
                    or minimum in model and subject.index(minimum) != model.index(minimum)):
                return Outcome('%r is looked up wrongly in %r' % (minimum, model))
        if subject.scanbeams != sorted(minimum.y for minimum in model):
            return Outcome('scanlines of %r are %s' % (model, subject.scanbeams))
        if subject != port_minimum.LocalMinimumList(*model) or not subject == port_minimum.LocalMinimumList(*model):
            return Outcome('%r differs from its twin' % subject)
        if subject == port_minimum.LocalMinimumList(*(model + [pool[0]])):
            return Outcome('%r equals a longer list' % subject)
    ordered = sorted(pool)
    if [(m.y, m.minimum_has_horizontal) for m in ordered] != sorted((m.y, m.minimum_has_horizontal) for m in pool):
        return Outcome('local minima are sorted as %r' % ordered)
    return Outcome(None, True, ['minima'])


CLIPPER_VARIANTS = ('reversed', 'added', 'dropped', 'kind', 'moved')


def make_clipper(rng):
    size = rng.choice((3, 6, 1000))
    return {'kind': 'clipper', 'reverse': rng.randrange(2), 'variant': rng.choice(CLIPPER_VARIANTS),
            'pick': rng.randrange(64),
            'rings': [[[[rng.randint(-size, size), rng.randint(-size, size)] for _ in range(rng.randint(2, 6))],
                       rng.randrange(2)] for _ in range(rng.randint(0, 4))]}


def run_clipper(case):
    rings, variant, pick = case['rings'], case['variant'], case['pick']
    reverse = bool(case['reverse'])
    differs = False
    for impl in BOTH:
        def clipper(rings, reverse):
            result = impl.Wagyu(reverse)
            for points, kind in rings:
                result.add_linear_ring(build(impl, 'ring', points), impl.kinds[kind])
            return result
        effective = [bool(impl.edges(points)) for points, _ in rings]
        changed, lists_differ = list(rings), True
        if variant == 'added':
            changed.append([[[0, 0], [7, 0], [0, 7]], pick % 2])
        elif variant == 'reversed' or not any(effective):
            lists_differ = False
        else:
            places = [place for place, some in enumerate(effective) if some]
            place = places[pick % len(places)]
            points, kind = rings[place]
            if variant == 'dropped':
                del changed[place]
            elif variant == 'kind':
                changed[place] = [points, 1 - kind]
            else:
                changed[place] = [[[x + 1, y] if pick % 3 else [x, y + 1] for x, y in points], kind]
        other_reverse = reverse is not (variant == 'reversed')
        differs = lists_differ or other_reverse is not reverse
        one, twin, other = clipper(rings, reverse), clipper(rings, reverse), clipper(changed, other_reverse)
        for left, right, same in ((one, one, True), (one, twin, True), (twin, one, True),
                                  (one, other, not differs), (other, one, not differs),
                                  (one.minimums, twin.minimums, True),
                                  (one.minimums, other.minimums, not lists_differ),
                                  (other.minimums, one.minimums, not lists_differ),
                                  (one, one.minimums, False), (one, None, False), (one.minimums, rings, False)):
            if (left == right) is not same or (left != right) is same:
                return Outcome('%s: %r == %r is %r' % (impl.name, left, right, left == right))
        # the port tells its clippers apart by the arguments of their constructor only
        if impl is CPP and (repr(one) == repr(other)) is differs or repr(one) != repr(twin):
            return Outcome('%s: representations %r, %r, %r' % (impl.name, one, twin, other))
        text = repr(one.minimums)
        again = eval(text, {'_wagyu': cpp} if impl is CPP else dict(PORT_NAMES))
        if not again == one.minimums or type(again) is not type(one.minimums) or repr(again) != text:
            return Outcome('%s: repr %s evaluates to %r' % (impl.name, text, again))
        size = len(one.minimums)
        parts = [one.minimums[index] for index in range(size)]
        if (list(one.minimums) != parts or [one.minimums[index - size] for index in range(size)] != parts
                or not all(part in one.minimums for part in parts) or bool(size) is not bool(one.minimums)):
            return Outcome('%s: %r holds %r' % (impl.name, one.minimums, parts))
        if variant == 'kind' and differs and any(
                part in one.minimums for part in clipper([changed[place]], reverse).minimums
                if all(part != mine for mine in parts)):
            return Outcome('%s: %r holds a minimum of another kind' % (impl.name, one.minimums))
        one.clear()
        if not one == impl.Wagyu(reverse) or one == impl.Wagyu(not reverse) or len(one.minimums):
            return Outcome('%s: cleared clipper is %r' % (impl.name, one))
    return Outcome(None, differs, ['clipper', variant])


def make_crossing(rng):
    value = [make_value('bound', rng), make_value('bound', rng), points(rng, 1, 1)[0]]
    other = copy.deepcopy(value)
    slot = rng.randrange(4)
    if slot == 3:
        other[0], other[1] = other[1], other[0]
    elif slot == 2:
        other[2][rng.randrange(2)] = 77
    else:
        other[slot][rng.choice((6, 7))] += 1
    return {'kind': 'crossing', 'value': value, 'other': other}


def make(stream, rng):
    if stream == 'minima':
        return make_history(rng)
    if stream == 'clipper':
        return make_clipper(rng)
    if stream == 'crossing':
        return make_crossing(rng)
    value = make_value(stream, rng)
    other = mutate(value, rng, stream)
    if stream == 'bound':
        # indices, kinds and sides have few values
        other = copy.deepcopy(value)
        slot = rng.randrange(11)
        if slot == 0:
            other[0].append(points(rng, 2, 2)[:2])
            other[1] = value[1]
        elif slot in (1, 2):
            other[slot] = (value[slot] + 1) % (len(value[0]) + 1)
        elif slot == 3:
            other[3][rng.randrange(2)] = 77
        elif slot in (9, 10):
            other[slot] = 1 - value[slot]
        elif slot == 8:
            other[8] = 1 if value[8] != 1 else -1
        else:
            other[slot] = value[slot] + 1 if abs(value[slot]) < 2 ** 50 else value[slot] / 2
    elif stream == 'minimum':
        other = copy.deepcopy(value)
        slot = rng.randrange(4)
        if slot == 3:
            other[3] = 1 - value[3]
        elif slot == 2:
            other[2] = 99
        else:
            other[slot][rng.choice((6, 7))] += 1
    elif stream == 'node':
        # points of such rings are told apart by their first one only
        other = copy.deepcopy(value)
        slot = rng.choice((0, 1, 2, 3))
        if slot == 0:
            other[0] += 1
        elif slot == 1:
            other[1][0][0] = 77
        elif slot == 2:
            other[2] = 1 - value[2]
        else:
            other[3].append([1, points(rng, 1, 3), 0, []])
    return {'kind': stream, 'value': value, 'other': other}


def build(impl, kind, value):
    point = lambda p: impl.Point(p[0], p[1])  # noqa: E731
    if kind == 'point':
        return point(value)
    if kind == 'ring':
        return impl.LinearRing([point(p) for p in value])
    if kind == 'polygon':
        return impl.Polygon([build(impl, 'ring', ring) for ring in value])
    if kind == 'multipolygon':
        return impl.Multipolygon([build(impl, 'polygon', polygon) for polygon in value])
    if kind == 'box':
        return impl.Box(point(value[0]), point(value[1]))
    if kind == 'edge':
        return impl.Edge(point(value[0]), point(value[1]))
    if kind == 'node':
        cls = cpp.Ring if impl is CPP else port_ring.Ring
        return cls(value[0], [build(impl, 'node', child) for child in value[3]], [point(p) for p in value[1]],
                   bool(value[2]))
    if kind == 'bound':
        cls = cpp.Bound if impl is CPP else port_bound.Bound
        return cls([build(impl, 'edge', edge) for edge in value[0]], value[1], value[2], point(value[3]), None,
                   float(value[4]), *value[5:9], impl.kinds[value[9]],
                   (impl.enums.EdgeSide.LEFT, impl.enums.EdgeSide.RIGHT)[value[10]])
    if kind == 'crossing':
        cls = cpp.IntersectNode if impl is CPP else port_crossing.IntersectNode
        return cls(build(impl, 'bound', value[0]), build(impl, 'bound', value[1]), point(value[2]))
    cls = cpp.LocalMinimum if impl is CPP else port_minimum.LocalMinimum
    return cls(build(impl, 'bound', value[0]), build(impl, 'bound', value[1]), value[2], bool(value[3]))


def normal(kind, value):
    """What two equal values have in common."""
    if kind == 'edge':
        return value[::-1] if value[0][1] < value[1][1] else value
    if kind == 'bound':
        return [[normal('edge', edge) for edge in value[0]], *value[1:4], float(value[4]), *value[5:]]
    if kind == 'minimum':
        return [normal('bound', value[0]), normal('bound', value[1]), *value[2:]]
    if kind == 'crossing':
        return [normal('bound', value[0]), normal('bound', value[1]), value[2]]
    return value


PORT_NAMES = {name: getattr(module, name) for module, names in (
    (PORT, ('Point', 'LinearRing', 'Polygon', 'Multipolygon', 'Box', 'Edge')),
    (port_ring, ('Ring',)), (port_bound, ('Bound',)), (port_minimum, ('LocalMinimum', 'LocalMinimumList')),
    (port_crossing, ('IntersectNode',)),
    (PORT.enums, ('PolygonKind', 'EdgeSide'))) for name in names}


def run(case):
    if case['kind'] == 'minima':
        return run_history(case)
    if case['kind'] == 'clipper':
        return run_clipper(case)
    kind, value, other = case['kind'], case['value'], case['other']
    differs = other is not None and normal(kind, other) != normal(kind, value)
    for impl in BOTH:
        problem = examine(impl, kind, value, other, differs)
        if problem:
            return Outcome('%s: %s' % (impl.name, problem))
    return Outcome(None, differs, [kind])


def examine(impl, kind, value, other, differs):
    one, twin = build(impl, kind, value), build(impl, kind, value)
    if not (one == one and one == twin and twin == one) or one != twin:
        return '%r differs from its twin' % one
    if other is not None:
        variant = build(impl, kind, other)
        if (one == variant) is differs or (variant == one) is differs or (one != variant) is not differs:
            return '%r == %r is %r' % (one, variant, one == variant)
    if one == value or one == 1 or one == None or not (one != value):  # noqa: E711
        return '%r equals an object of another type' % one
    text = repr(one)
    again = eval(text, {'_wagyu': cpp} if impl is CPP else dict(PORT_NAMES))
    if type(again) is not type(one) or not again == one or repr(again) != text:
        return 'repr %s evaluates to %r' % (text, again)
    if impl is PORT or kind not in ('node', 'bound', 'minimum', 'crossing'):
        for clone in (pickle.loads(pickle.dumps(one, 2)), pickle.loads(pickle.dumps(one)), copy.copy(one),
                      copy.deepcopy(one)):
            if type(clone) is not type(one) or not clone == one or not one == clone:
                return 'copy of %r is %r' % (one, clone)
            if repr(clone) != text:
                return 'copy of %r is represented as %r' % (one, clone)
    if kind == 'point' and [one.x, one.y] != value:
        return 'point %s has coordinates %s' % (value, [one.x, one.y])
    if kind == 'box' and [[p.x, p.y] for p in (one.minimum, one.maximum)] != value:
        return 'box of %s is %r' % (value, one)
    if kind in ('ring', 'polygon', 'multipolygon'):
        return sequence(impl, kind, one, value)
    return None


def sequence(impl, kind, one, value):
    part = {'ring': 'point', 'polygon': 'ring', 'multipolygon': 'polygon'}[kind]
    parts = [build(impl, part, item) for item in value]
    size = len(value)
    if len(one) != size:
        return 'length of %r is %d' % (one, len(one))
    if bool(size) is not bool(one):
        return 'truth of %r is %r' % (one, bool(one))
    if list(one) != parts or [one[index] for index in range(size)] != parts:
        return 'items of %r are %s' % (one, list(one))
    if [one[index - size] for index in range(size)] != parts:
        return 'negative indices of %r give %s' % (one, [one[index - size] for index in range(size)])
    for index in (size, size + 1, -size - 1, -size - 7):
        try:
            item = one[index]
        except IndexError:
            continue
        return '%r[%d] is %r' % (one, index, item)
    for item in parts:
        if item not in one:
            return '%r is not in %r' % (item, one)
    strange = build(impl, part, [123.5, 7] if part == 'point' else [[[123.5, 7]]] if part == 'polygon'
                    else [[123.5, 7]])
    if strange in one:
        return '%r is in %r' % (strange, one)
    return None


def shrink(case):
    """Other cases are a few numbers: left as generated."""
    if case['kind'] == 'clipper':
        for index in range(len(case['rings'])):
            yield {**case, 'rings': case['rings'][:index] + case['rings'][index + 1:]}
    history = case.get('history', ())
    for index in range(len(history)):
        yield {**case, 'history': history[:index] + history[index + 1:]}
