"""ctypes access to harness/native.cpp: native headers the extension does not expose."""
import array
import ctypes

from . import build
from .engine import HarnessError

_OPS = {'intersect': 0, 'unite': 1, 'subtract': 2, 'symmetric_subtract': 3}
_library = None
ROOM = 1 << 16
_out = None


def library():
    global _library, _out
    if _library is None:
        _library = ctypes.CDLL(build.native_library())
        for name in ('execute_double', 'execute_int64', 'execute_int32', 'execute_mixed', 'execute_mixed2',
                     'rectangle_clip', 'rectangle_clip_int64', 'rectangle_clip_int32', 'ring_clip'):
            getattr(_library, name).restype = ctypes.c_int64
        _out = (ctypes.c_int64 * ROOM)()
    return _library


def _flat(rings):
    xy = array.array('q')
    sizes = array.array('i')
    for ring in rings:
        sizes.append(len(ring))
        for x, y in ring:
            xy.append(x)
            xy.append(y)
    return ((ctypes.c_int64 * (len(xy) or 1))(*xy), (ctypes.c_int32 * (len(sizes) or 1))(*sizes))


def _read(used):
    if used == -1:
        raise RuntimeError('the library gave up')
    if used == -2:
        raise ValueError('a result has vertices off the integer grid')
    if used < 0 or used > ROOM:
        raise HarnessError('cannot read the result (%d)' % used)
    at = 0
    result = []
    polygons = _out[at]
    at += 1
    for _ in range(polygons):
        rings = _out[at]
        at += 1
        polygon = []
        for _ in range(rings):
            size = _out[at]
            at += 1
            polygon.append([(_out[at + 2 * k], _out[at + 2 * k + 1]) for k in range(size)])
            at += 2 * size
        result.append(polygon)
    return result


def execute(kind, subject, clip, op, subject_fill, clip_fill, reverse=False):
    xy, sizes = _flat(list(subject) + list(clip))
    return _read(getattr(library(), 'execute_' + kind)(
        xy, sizes, len(subject), len(clip), _OPS[op], subject_fill, clip_fill, int(reverse), _out,
        ctypes.c_int64(ROOM)))


def rectangle_clip(rings, box, fill, many=0, kind=''):
    xy, sizes = _flat(rings)
    return _read(getattr(library(), 'rectangle_clip' + kind)(xy, sizes, len(rings), (ctypes.c_int64 * 4)(*box), fill, int(many),
        _out, ctypes.c_int64(ROOM)))


def ring_clip(rings, box):
    xy, sizes = _flat(rings)
    return _read(library().ring_clip(xy, sizes, len(rings), (ctypes.c_int64 * 4)(*box), _out,
                                     ctypes.c_int64(ROOM)))[0]
