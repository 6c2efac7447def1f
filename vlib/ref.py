"""ctypes access to harness/ref.cpp (the C++ twin of geom.trapezoids, for speed)."""
import array
import ctypes

from . import build, geom

_OPS = {'intersect': 0, 'unite': 1, 'subtract': 2, 'symmetric_subtract': 3}
_library = None


def library():
    global _library
    if _library is None:
        _library = ctypes.CDLL(build.reference_library())
        _library.worst_difference.restype = ctypes.c_double
    return _library


def worst_difference(subject, clip, op, subject_fill, clip_fill, result_rings):
    """(distance, x, y, count, expected area); distance is -1 when regions agree."""
    edges = array.array('d')
    layers = array.array('i')
    for layer, rings in enumerate((subject, clip, result_rings)):
        for (ax, ay), (bx, by) in geom.edges_of(rings):
            edges.extend((ax, ay, bx, by))
            layers.append(layer)
    where = (ctypes.c_double * 4)()
    count = len(layers)
    worst = library().worst_difference(
        (ctypes.c_double * len(edges)).from_buffer(edges) if count else None,
        (ctypes.c_int32 * count).from_buffer(layers) if count else None,
        ctypes.c_int32(count), ctypes.c_int32(_OPS[op]),
        ctypes.c_int32(subject_fill), ctypes.c_int32(clip_fill), where)
    return worst, where[0], where[1], int(where[2]), where[3]
