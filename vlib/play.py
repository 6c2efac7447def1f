"""Scripts of calls on one clipper, played step by step (so that several can alternate)."""
from .impl import OP_KINDS


def objects(impl, pool):
    return [impl.ring([tuple(point) for point in ring]) for ring in pool]


def play(impl, script, rings, log):
    """Generator: appends what every step answers to the log, yields between steps."""
    clipper = impl.Wagyu(bool(script['reverse']))
    for name, *arguments in script['steps']:
        yield
        if name == 'add':
            index, kind = arguments
            log.append(clipper.add_linear_ring(rings[index], impl.kinds[kind]))
        elif name == 'add_polygon':
            indices, kind = arguments
            log.append(clipper.add_polygon(impl.Polygon([rings[index] for index in indices]), impl.kinds[kind]))
        elif name == 'bounds':
            log.append(list(impl.bounds(clipper)))
        elif name == 'minimums':
            log.append([[minimum.y, bool(minimum.minimum_has_horizontal)] for minimum in clipper.minimums])
        elif name == 'clear':
            clipper.clear()
        elif name == 'operate':
            try:
                log.append(nested(impl.plain(impl.execute(clipper, *arguments))))
            except RuntimeError as error:
                log.append(str(error))
        elif len(clipper.minimums):
            op, subject_fill, clip_fill = arguments
            manager = impl.manager()
            minimums = clipper.minimums
            try:
                manager.build_hot_pixels(minimums)
                yield
                manager.execute_vatti(minimums, getattr(impl.enums.OperationKind, OP_KINDS[op]),
                                      impl.fills[subject_fill], impl.fills[clip_fill])
                yield
                manager.correct_topology()
                yield
                log.append(nested(impl.plain(manager.build_result(bool(script['reverse'])))))
            except RuntimeError as error:
                log.append(str(error))
    for item in rings:
        log.append(nested(impl.plain_ring(item)))


def nested(value):
    return [nested(item) for item in value] if isinstance(value, (list, tuple)) else value


def alone(impl, script, pool):
    log = []
    for _ in play(impl, script, objects(impl, pool), log):
        pass
    return log
