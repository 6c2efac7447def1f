"""Runs in a process of its own, with AddressSanitizer preloaded and an extension built with it:
plays programs (see checks/c22.py) and reports the first one that goes wrong."""
import gc
import importlib.machinery
import importlib.util
import json
import os
import sys

path = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader('_wagyu', path)
spec = importlib.util.spec_from_file_location('_wagyu', path, loader=loader)
w = importlib.util.module_from_spec(spec)
loader.exec_module(w)

FILLS = [w.FillKind.EVEN_ODD, w.FillKind.NON_ZERO, w.FillKind.POSITIVE, w.FillKind.NEGATIVE]
KINDS = [w.PolygonKind.SUBJECT, w.PolygonKind.CLIP]
OPS = ['intersect', 'unite', 'subtract', 'symmetric_subtract']
OPERATIONS = {'intersect': w.OperationKind.INTERSECTION, 'unite': w.OperationKind.UNION,
              'subtract': w.OperationKind.DIFFERENCE, 'symmetric_subtract': w.OperationKind.XOR}


class Problem(Exception):
    pass


def ring(points):
    return w.LinearRing([w.Point(x, y) for x, y in points])


def plain(value, depth=0):
    """Contents as plain data, read again through the extension."""
    if value is None or isinstance(value, (int, float, str)):
        return value
    if isinstance(value, list):
        return [plain(item, depth) for item in value]
    if isinstance(value, w.Point):
        return [value.x, value.y]
    if isinstance(value, (w.LinearRing, w.Polygon, w.Multipolygon)):
        return [plain(value[index]) for index in range(len(value))]
    if isinstance(value, w.Box):
        return [plain(value.minimum), plain(value.maximum)]
    if isinstance(value, w.Edge):
        return [plain(value.bottom), plain(value.top)]
    if isinstance(value, w.Bound):
        plain(value.last_point), plain(value.ring, 1)  # (change as operations run)
        return [plain(value.edges), value.winding_delta, value.polygon_kind.name,
                plain(value.maximum_bound, depth + 1) if not depth else None]
    if isinstance(value, w.LocalMinimum):
        return [value.y, value.minimum_has_horizontal, plain(value.left_bound), plain(value.right_bound)]
    if isinstance(value, w.LocalMinimumList):
        return [plain(value[index]) for index in range(len(value))]
    if isinstance(value, Moving):
        plain(value.value)
        return None
    if isinstance(value, w.Wagyu):
        return [plain(value.bounds), plain(value.minimums)]
    if isinstance(value, w.RingManager):
        return [plain(value.hot_pixels), [plain(item) for item in value.rings]]
    if isinstance(value, w.Ring):
        value.area  # (the box is worked out on demand)
        return [value.index, plain(value.points), plain(value.box), value.corrected, plain(value.sorted_points),
                plain(value.parent, 1) if not depth else None,
                [plain(child, 1) for child in value.children if child is not None] if not depth else None]
    raise Problem('unexpected %r' % type(value))


def children(value):
    """Ways to reach further objects."""
    if isinstance(value, list):
        return [lambda i=i: value[i] for i in range(len(value))]
    if isinstance(value, (w.LinearRing, w.Polygon, w.Multipolygon, w.LocalMinimumList)):
        result = [lambda i=i: value[i] for i in range(len(value))]
        result += [lambda: list(value), lambda: value[-1], lambda: value[len(value)]]
        if isinstance(value, w.LinearRing):
            result.append(lambda: value.edges)
        if isinstance(value, w.LocalMinimumList):
            result.append(lambda: value.scanbeams)
        return result
    names = {w.Box: ('minimum', 'maximum'), w.Edge: ('bottom', 'top'), w.LocalMinimum: ('left_bound', 'right_bound'),
             w.Bound: ('edges', 'maximum_bound', 'ring', 'last_point'), w.Wagyu: ('minimums', 'bounds'),
             w.RingManager: ('hot_pixels', 'rings', 'children', 'sorted_rings'),
             w.Ring: ('box', 'points', 'parent', 'children', 'bottom_points', 'sorted_points')}
    for kind, found in names.items():
        if isinstance(value, kind):
            return [(lambda n=n: Moving(getattr(value, n))) if n == 'last_point' else (lambda n=n: getattr(value, n))
                    for n in found if hasattr(kind, n)]
    return []


class Moving:
    """A point that moves as operations run: is read, and not compared."""

    def __init__(self, value):
        self.value = value


class Pending:
    """An iterator to be exhausted later."""

    def __init__(self, value):
        self.expected = [plain(value[index]) for index in range(len(value))]
        self.iterator = iter(value)
        self.of_minimums = isinstance(value, w.LocalMinimumList)

    def exhaust(self):
        found = [plain(item) for item in self.iterator]
        if found != self.expected:
            raise Problem('an iterator over %s gave %s' % (self.expected, found))


def settled(value):
    # (a clipper and its list change as rings are added)
    return not isinstance(value, (w.Wagyu, w.LocalMinimumList))


def make(kind, data):
    rings, op, subject_fill, clip_fill = data['rings'], data['op'], data['fills'][0], data['fills'][1]
    if kind == 'ring':
        return ring(rings[0] if rings else [])
    if kind == 'polygon':
        return w.Polygon([ring(item) for item in rings])
    if kind == 'multipolygon':
        return w.Multipolygon([w.Polygon([ring(item)]) for item in rings])
    if kind == 'box':
        return w.Box(w.Point(0, 0), w.Point(len(rings), 5))
    if kind == 'edge':
        return w.Edge(w.Point(0, 0), w.Point(len(rings), 5))
    clipper = w.Wagyu()
    for index, item in enumerate(rings):
        clipper.add_linear_ring(ring(item), KINDS[index % 2])
    if kind == 'clipper':
        return clipper
    if kind == 'result':
        return getattr(clipper, op)(FILLS[subject_fill], FILLS[clip_fill])
    manager = w.RingManager()
    manager.build_hot_pixels(clipper.minimums)
    if data['stage'] > 0:
        manager.execute_vatti(clipper.minimums, OPERATIONS[op], FILLS[subject_fill], FILLS[clip_fill])
    if data['stage'] > 1:
        manager.correct_topology()
    return manager


def play(program):
    held = []
    reached = 0
    for number, (what, *arguments) in enumerate(program['steps']):
        live = [index for index, item in enumerate(held) if item is not None]

        def pick(position):
            return held[live[position % len(live)]][0] if live else None
        if what == 'make':
            value = make(arguments[0], {**program, 'rings': [program['rings'][i] for i in arguments[1]]})
            held.append((value, plain(value)))
        elif what == 'child':
            value = pick(arguments[0])
            ways = children(value)
            if ways:
                try:
                    child = ways[arguments[1] % len(ways)]()
                except (IndexError, ValueError):
                    continue
                if child is not None and not isinstance(child, (int, float)):
                    held.append((child, plain(child)))
                    reached += 1
        elif what == 'iterate':
            value = pick(arguments[0])
            if isinstance(value, (w.LinearRing, w.Polygon, w.Multipolygon, w.LocalMinimumList)):
                held.append((Pending(value), None))
        elif what == 'keep':
            # all but one of the objects held are dropped
            if live:
                kept = live[arguments[0] % len(live)]
                value = None
                for index in live:
                    if index != kept:
                        held[index] = None
            gc.collect()
            [w.Wagyu() for _ in range(20)]
        elif what == 'drop':
            if live:
                value = pick(arguments[0])
                held[live[arguments[0] % len(live)]] = None
                if isinstance(value, Pending):
                    value.exhaust()
            value = None
            gc.collect()
            # what was freed is used again
            [w.Wagyu() for _ in range(20)]
        elif what in ('add', 'operate', 'clear', 'relist'):
            clippers = [index for index in live if isinstance(held[index][0], w.Wagyu)]
            if not clippers:
                continue
            clipper = held[clippers[arguments[0] % len(clippers)]][0]
            if what != 'relist':
                # a list that changes invalidates its iterators
                held = [None if item is not None and isinstance(item[0], Pending) and item[0].of_minimums else item
                        for item in held]
            if what == 'add':
                clipper.add_linear_ring(ring(program['rings'][arguments[1]]), KINDS[arguments[2]])
            elif what == 'operate':
                getattr(clipper, OPS[arguments[1]])(FILLS[arguments[2]], FILLS[arguments[3]])
            elif what == 'clear':
                clipper.clear()
            else:
                value = w.LocalMinimumList(list(clipper.minimums))
                held.append((value, plain(value)))
        value = child = clipper = None
        for item in held:
            if item is not None and not isinstance(item[0], Pending):
                now = plain(item[0])
                if settled(item[0]) and now != item[1]:
                    raise Problem('step %d: %s held by the caller became %s' % (number, item[1], now))
    pending = [item[0] for item in held if item is not None and isinstance(item[0], Pending)]
    held = item = now = None  # noqa
    gc.collect()
    [w.Wagyu() for _ in range(20)]
    for item in pending:
        item.exhaust()
    return reached


def main():
    for number, program in enumerate(json.load(sys.stdin)):
        print('case %d' % number, flush=True)
        try:
            reached = play(program)
        except Problem as problem:
            print('PROBLEM', problem, flush=True)
            os._exit(1)
        except RuntimeError:
            reached = 0  # crowded input the algorithm gives up on
        print('ok %d' % reached, flush=True)
    sys.stdout.flush()
    os._exit(0)


main()
