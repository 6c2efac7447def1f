"""One interface over the two implementations: the Python port and the C++ extension.

Everything crosses this boundary as plain lists: a ring is a list of (x, y) pairs, a
multipolygon a list of polygons, a polygon a list of closed rings (exterior first).
"""
from . import build

_cpp = build.load()

from wagyu import enums as _enums  # noqa: E402
from wagyu.box import Box as _Box  # noqa: E402
from wagyu.edge import Edge as _Edge  # noqa: E402
from wagyu.linear_ring import LinearRing as _LinearRing  # noqa: E402
from wagyu.point import Point as _Point  # noqa: E402
from wagyu.polygon import Multipolygon as _Multipolygon  # noqa: E402
from wagyu.polygon import Polygon as _Polygon  # noqa: E402
from wagyu.ring_manager import RingManager as _RingManager  # noqa: E402
from wagyu.wagyu import Wagyu as _Wagyu  # noqa: E402

OPS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')
EVEN_ODD, NON_ZERO, POSITIVE, NEGATIVE = range(4)
FILLS = (EVEN_ODD, NON_ZERO, POSITIVE, NEGATIVE)
FILL_NAMES = ('EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE')
OP_KINDS = {'intersect': 'INTERSECTION', 'unite': 'UNION',
            'subtract': 'DIFFERENCE', 'symmetric_subtract': 'XOR'}
SUBJECT, CLIP = 0, 1


class Impl:
    def __init__(self, name, wagyu, point, ring, polygon, multipolygon, box,
                 edge, enums, manager):
        self.name = name
        self.Wagyu = wagyu
        self.Point = point
        self.LinearRing = ring
        self.Polygon = polygon
        self.Multipolygon = multipolygon
        self.Box = box
        self.Edge = edge
        self.enums = enums
        self.manager = manager
        self.kinds = (enums.PolygonKind.SUBJECT, enums.PolygonKind.CLIP)
        self.fills = tuple(getattr(enums.FillKind, name)
                           for name in FILL_NAMES)

    # --- conversions
    def ring(self, points):
        return self.LinearRing([self.Point(x, y) for x, y in points])

    def polygon(self, rings):
        return self.Polygon([self.ring(ring) for ring in rings])

    @staticmethod
    def plain_ring(ring):
        return [(point.x, point.y) for point in ring]

    def plain(self, multipolygon):
        return [[[(point.x, point.y) for point in ring] for ring in polygon]
                for polygon in multipolygon]

    # --- operations
    def new(self, subject=(), clip=(), reverse=False):
        result = self.Wagyu(reverse) if reverse else self.Wagyu()
        subject_kind, clip_kind = self.kinds
        for ring in subject:
            result.add_linear_ring(self.ring(ring), subject_kind)
        for ring in clip:
            result.add_linear_ring(self.ring(ring), clip_kind)
        return result

    def execute(self, clipper, op, subject_fill, clip_fill, omit=None):
        """Fill rules that are the default are left out half the time, unless `omit` says."""
        arguments = [self.fills[subject_fill], self.fills[clip_fill]]
        if len(clipper.minimums) % 2 if omit is None else omit:
            while arguments and arguments[-1] == self.fills[0]:
                arguments.pop()
        return getattr(clipper, op)(*arguments)

    def clip(self, subject, clip, op, subject_fill=0, clip_fill=0,
             reverse=False):
        return self.plain(self.execute(self.new(subject, clip, reverse), op,
                                       subject_fill, clip_fill))

    def bounds(self, clipper):
        box = clipper.bounds
        return (box.minimum.x, box.minimum.y, box.maximum.x, box.maximum.y)

    def edges(self, points):
        return [((edge.bottom.x, edge.bottom.y), (edge.top.x, edge.top.y))
                for edge in self.ring(points).edges]


PORT = Impl('port', _Wagyu, _Point, _LinearRing, _Polygon, _Multipolygon,
            _Box, _Edge, _enums, _RingManager)
CPP = Impl('extension', _cpp.Wagyu, _cpp.Point, _cpp.LinearRing, _cpp.Polygon,
           _cpp.Multipolygon, _cpp.Box, _cpp.Edge, _cpp, _cpp.RingManager)
BOTH = (CPP, PORT)


def minimums(impl, clipper):
    """Local minima as plain data (including which bound each bound peaks with)."""
    result = []
    for minimum in clipper.minimums:
        result.append((minimum.y, bool(minimum.minimum_has_horizontal),
                       bound(minimum.left_bound), bound(minimum.right_bound)))
    return result


def bound(value):
    return ([((edge.bottom.x, edge.bottom.y), (edge.top.x, edge.top.y))
             for edge in value.edges],
            value.winding_delta, value.polygon_kind.name, value.side.name)
