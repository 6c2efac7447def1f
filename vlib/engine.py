"""Deterministic generated-input search with crash / hang isolation and shrinking.

A check is a module in checks/ with

    ID, RULE                      property id; how cases are made and which are non-trivial
    PLAN = {'quick': {stream: count}, 'thorough': {...}}
    def make(stream, rng)         -> case (JSON-able; first-class data, no objects)
    def run(case)                 -> Outcome
    def shrink(case)              -> iterable of smaller cases        (optional)
    def corpus()                  -> iterable of regression cases     (optional)

Case number i of a stream is a pure function of (property, seed, stream, i).
"""
import hashlib
import importlib
import json
import mmap
import multiprocessing
import os
import queue as queues
import random
import resource
import signal
import struct
import sys
import time
import traceback

from . import build, env

HANG_S = 60.
CONFIRM_S = 120.
SOFT_DEADLINE_S = {'quick': 420., 'thorough': 6 * 3600.}
MEMORY = 3 << 30


class Outcome:
    """`case`: what to report instead of the whole case; `weight`: how many executions the
    case stands for; `keys`: the distinct non-trivial ones among them."""
    __slots__ = 'problem', 'nontrivial', 'labels', 'case', 'weight', 'keys'

    def __init__(self, problem=None, nontrivial=True, labels=(), case=None, weight=1, keys=None):
        self.problem = problem
        self.nontrivial = nontrivial
        self.labels = labels
        self.case = case
        self.weight = weight
        self.keys = keys


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_rng(prop, seed, stream, index):
    return random.Random('%s/%d/%s/%d' % (prop, seed, stream, index))


def make_case(check, seed, stream, index):
    if stream == '#corpus':
        return list(check.corpus())[index]
    # through JSON, so that a replayed case is exactly what was run
    return json.loads(json.dumps(check.make(stream, case_rng(check.ID, seed,
                                                             stream, index))))


def run_case(check, case):
    """Outcome; whatever the code under test raises (or returns that cannot be read as a
    result) is a problem, except for failures of the environment."""
    try:
        return check.run(case)
    except (HarnessError, ImportError, OSError):
        raise
    except Exception as error:
        where = traceback.extract_tb(error.__traceback__)[-1]
        return Outcome('unexpected %s: %s (%s:%d)'
                       % (type(error).__name__, error,
                          os.path.basename(where.filename), where.lineno))


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------- workers
class Progress:
    """Shared memory: per worker (stream number, index, start time)."""

    SLOT = struct.Struct('qqd')

    def __init__(self, count):
        self.memory = mmap.mmap(-1, self.SLOT.size * count)

    def set(self, worker, stream, index, when):
        self.SLOT.pack_into(self.memory, worker * self.SLOT.size, stream,
                            index, when)

    def get(self, worker):
        # `pack_into` blanks the slot before it writes, the time last
        while True:
            result = self.SLOT.unpack_from(self.memory, worker * self.SLOT.size)
            if result[2]:
                return result
            time.sleep(.0001)


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def work(check, seed, jobs, worker, workers, progress, out, deadline):
    if not getattr(check, 'UNLIMITED', False):
        limit_memory()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats = {'evaluations': 0, 'nontrivial': set(), 'labels': {},
             'samples': {}, 'cut': False}
    try:
        for number, (stream, start, count) in enumerate(jobs):
            for index in range(start + worker, count, workers):
                now = time.time()
                if now > deadline:
                    stats['cut'] = True
                    break
                progress.set(worker, number, index, now)
                case = make_case(check, seed, stream, index)
                outcome = run_case(check, case)
                stats['evaluations'] += outcome.weight
                for label in outcome.labels:
                    stats['labels'][label] = stats['labels'].get(label, 0) + 1
                if outcome.problem:
                    out.put(('violation', worker, number, index,
                             outcome.problem, outcome.case))
                    out.close()
                    out.join_thread()
                    return
                if outcome.keys is not None:
                    stats['nontrivial'].update(outcome.keys)
                    if outcome.keys and stream not in stats['samples'] and worker == 0:
                        stats['samples'][stream] = case
                elif outcome.nontrivial:
                    digest = hashlib.blake2b(canonical(case).encode(),
                                             digest_size=8).digest()
                    stats['nontrivial'].add(digest)
                    if stream not in stats['samples'] and worker == 0:
                        stats['samples'][stream] = case
        progress.set(worker, -1, -1, time.time())
        stats['nontrivial'] = b''.join(stats['nontrivial'])
        out.put(('done', worker, stats))
    except BaseException as error:  # noqa: B902
        text = ''.join(traceback.format_exception(type(error), error,
                                                  error.__traceback__))
        out.put(('error', worker, text))
    out.close()
    out.join_thread()


def isolated(check, case, timeout):
    """Runs one case in a child: ('ok'|'problem'|'crash'|'hang'|'error', text)."""
    context = multiprocessing.get_context('fork')
    out = context.SimpleQueue()

    def target():
        if not getattr(check, 'UNLIMITED', False):
            limit_memory()
        try:
            outcome = run_case(check, case)
            out.put(('problem', outcome.problem) if outcome.problem
                    else ('ok', None))
        except BaseException:  # noqa: B902
            out.put(('error', traceback.format_exc()))

    process = context.Process(target=target)
    process.start()
    process.join(timeout)
    if process.is_alive():
        process.kill()
        process.join()
        return 'hang', 'no answer within %d s' % timeout
    if not out.empty():
        return out.get()
    return 'crash', 'the process died (exit code %s)' % process.exitcode


# ------------------------------------------------------------------------- shrinking
def default_shrink(value):
    """Generic structural candidates for nested lists and numbers."""
    if isinstance(value, dict):
        for key in sorted(value):
            for smaller in default_shrink(value[key]):
                yield {**value, key: smaller}
    elif isinstance(value, list):
        size = len(value)
        chunk = size // 2
        while chunk:
            for start in range(0, size, chunk):
                yield value[:start] + value[start + chunk:]
            chunk //= 2
        for index, item in enumerate(value):
            if isinstance(item, (list, dict)):
                for smaller in default_shrink(item):
                    yield value[:index] + [smaller] + value[index + 1:]


def shrink_numbers(value):
    """Candidates with simpler numbers (whole-case, coordinates kept consistent)."""
    numbers = set()

    def collect(item):
        if isinstance(item, bool):
            return
        if isinstance(item, int):
            numbers.add(item)
        elif isinstance(item, list):
            for sub in item:
                collect(sub)
        elif isinstance(item, dict):
            for sub in item.values():
                collect(sub)
    collect(value)

    def substitute(item, mapping):
        if isinstance(item, bool):
            return item
        if isinstance(item, int):
            return mapping(item)
        if isinstance(item, list):
            return [substitute(sub, mapping) for sub in item]
        if isinstance(item, dict):
            return {key: substitute(sub, mapping) for key, sub in item.items()}
        return item
    for number in sorted(numbers, key=abs, reverse=True):
        if abs(number) > 1:
            yield substitute(value, lambda x: number // 2 if x == number else x)


def simplify(case):
    yield from default_shrink(case)
    yield from shrink_numbers(case)


def shrink(check, case, kind, timeout=60.):
    deadline = time.time() + timeout
    propose = getattr(check, 'shrink', simplify)
    fails_fast = kind == 'problem'
    message = None
    sort = None

    def sort_of(problem):
        # an error must stay the same error: a mangled case fails in the harness itself
        if problem and problem.startswith('unexpected '):
            return problem.split(':')[0], problem.rsplit('(', 1)[-1]
        return None

    if fails_fast:
        try:
            sort = sort_of(run_case(check, case).problem)
        except Exception:
            return case, None

    def fails(candidate):
        if fails_fast:
            try:
                problem = run_case(check, candidate).problem
            except Exception:
                return None
            return problem if sort_of(problem) == sort else None
        status, text = isolated(check, candidate, 20)
        return text if status == kind else None
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for candidate in propose(case):
            if time.time() > deadline:
                break
            found = fails(candidate)
            if found:
                case, message, improved = candidate, found, True
                break
    return case, message


def shrink_isolated(check, case, kind):
    """Shrinking runs the broken code many times over: keep that in a child."""
    context = multiprocessing.get_context('fork')
    out = context.SimpleQueue()

    def target():
        if not getattr(check, 'UNLIMITED', False):
            limit_memory()
        out.put(shrink(check, case, kind))
    process = context.Process(target=target)
    process.start()
    end = time.time() + 100
    while process.is_alive() and time.time() < end and out.empty():
        process.join(.1)
    result = (case, None) if out.empty() else out.get()
    if process.is_alive():
        process.kill()
    process.join()
    return result


# ------------------------------------------------------------------------- driver
def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def write_replay(prop, case, kind, message):
    os.makedirs(env.REPLAYS, exist_ok=True)
    digest = hashlib.sha256(canonical(case).encode()).hexdigest()[:12]
    path = os.path.join(env.REPLAYS, '%s-%s.json' % (prop, digest))
    with open(path, 'w') as file:
        json.dump({'property': prop, 'kind': kind, 'message': message,
                   'case': case}, file, indent=1)
        file.write('\n')
    return path


def known_for(prop):
    if not os.path.exists(env.KNOWN):
        return []
    with open(env.KNOWN) as file:
        return [entry for entry in json.load(file)['findings']
                if entry['property'] == prop]


def report(prop, check, case, kind, message, do_shrink=True):
    if do_shrink and not os.environ.get('VERIF_NOSHRINK') and kind in ('problem', 'crash'):
        smaller, text = shrink_isolated(check, case, kind)
        if text:
            case, message = smaller, text
    path = write_replay(prop, case, kind, message)
    print('%s: %s' % (kind, message))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def replay(prop, path):
    check = load_check(prop)
    with open(path) as file:
        case = json.load(file)['case']
    kind, message = isolated(check, case, CONFIRM_S)
    if kind == 'ok':
        print('replay: property %s holds on %s' % (prop, path))
        return 0
    if kind == 'error':
        print(message, file=sys.stderr)
        return 2
    print('%s: %s' % (kind, message))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main(prop):
    started = time.time()
    tier, seed = env.tier(), env.seed()
    check = load_check(prop)
    plan = check.PLAN.get(tier) or check.PLAN['quick']
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = []
    corpus = list(check.corpus()) if hasattr(check, 'corpus') else []
    if corpus:
        jobs.append(('#corpus', 0, len(corpus)))
    jobs += [(stream, 0, max(1, int(count * scale)))
             for stream, count in plan.items()]
    if hasattr(check, 'prepare'):
        check.prepare()
    workers = min(env.workers(), getattr(check, 'WORKERS', 64))
    known_problems = []
    for entry in known_for(prop):
        kind, message = isolated(check, entry['case'], CONFIRM_S)
        if kind == 'error':
            print(message, file=sys.stderr)
            return 2
        if kind == 'ok':
            continue
        # only the recorded way of failing is known
        if entry['expect'] in (message or ''):
            print('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))
        else:
            known_problems.append((entry['case'], kind, message))
    status = 0
    stats = {'evaluations': 0, 'labels': {}, 'samples': {}, 'cut': False}
    distinct = set()
    violations = 0
    if known_problems:
        case, kind, message = known_problems[0]
        report(prop, check, case, kind, message, do_shrink=False)
        status, violations = 1, len(known_problems)
    else:
        status, violations = search(prop, check, seed, jobs, workers, started,
                                    tier, stats, distinct)
    if status == 2:
        return 2
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(check, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': stats['evaluations'],
            'distinct_nontrivial': len(distinct),
            'rule': check.RULE,
            'samples': [{'stream': key, 'case': value}
                        for key, value in sorted(stats['samples'].items())],
            'streams': {stream: count for stream, _, count in jobs},
            'classes': dict(sorted(stats['labels'].items())),
            'stopped_early': stats['cut'],
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - started, 3),
        'violations': violations,
    }
    os.makedirs(env.EVIDENCE, exist_ok=True)
    path = os.path.join(env.EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as file:
        json.dump(evidence, file, indent=1)
        file.write('\n')
    os.replace(path + '.tmp', path)
    if status == 0:
        print('%s: held on %d cases (%d distinct non-trivial) in %.1f s'
              % (prop, stats['evaluations'], len(distinct),
                 time.time() - started))
    return status


def search(prop, check, seed, jobs, workers, started, tier, stats, distinct, again=False):
    context = multiprocessing.get_context('fork')
    progress = Progress(workers)
    out = context.Queue()
    deadline = started + SOFT_DEADLINE_S[tier]
    hang_after = getattr(check, 'HANG_S', HANG_S) * (4 if again else 1)
    processes = {}
    for worker in range(workers):
        progress.set(worker, -1, -1, time.time())
        process = context.Process(target=work, args=(
            check, seed, jobs, worker, workers, progress, out, deadline))
        process.daemon = True
        process.start()
        processes[worker] = process
    found = []
    errors = []
    suspects = []
    finished = set()

    def take(timeout):
        try:
            message = out.get(timeout=timeout)
        except queues.Empty:
            return False
        kind, worker = message[:2]
        finished.add(worker)
        if kind == 'violation':
            found.append(message[2:])
        elif kind == 'error':
            errors.append(message[2])
        else:
            merge(message[2], stats, distinct)
        return True

    try:
        while len(finished) < workers and not found and not errors:
            if take(.2):
                continue
            for worker, process in processes.items():
                if worker in finished:
                    continue
                number, index, since = progress.get(worker)
                if not process.is_alive():
                    # its message may still be on the way
                    while take(.5):
                        pass
                    if worker in finished:
                        continue
                    suspects.append((number, index, 'crash'))
                    finished.add(worker)
                elif number >= 0 and time.time() - since > hang_after:
                    process.kill()
                    process.join()
                    suspects.append((number, index, 'hang'))
                    finished.add(worker)
            if suspects:
                break
    finally:
        for process in processes.values():
            if process.is_alive():
                if len(finished) == workers and not (found or errors or suspects):
                    process.join(5)
                if process.is_alive():
                    process.kill()
            process.join()
    if found:
        number, index, message, case = min(found, key=lambda item: item[:2])
        if case is None:
            case = make_case(check, seed, jobs[number][0], index)
        stats['evaluations'] = max(stats['evaluations'], 1)
        report(prop, check, case, 'problem', message)
        return 1, len(found)
    for number, index, _ in suspects:
        if number < 0:
            continue
        case = make_case(check, seed, jobs[number][0], index)
        kind, message = isolated(check, case, CONFIRM_S)
        if kind in ('crash', 'hang', 'problem'):
            report(prop, check, case, kind, message)
            return 1, 1
        if kind == 'error':
            errors.append(message)
    if suspects and not errors and not again:
        # (a busy machine, or an effect of the cases before)
        stats.update(evaluations=0, labels={}, samples={}, cut=False)
        distinct.clear()
        return search(prop, check, seed, jobs, workers, started, tier, stats, distinct, True)
    for number, index, kind in suspects:
        if number >= 0 and not errors:
            case = make_case(check, seed, jobs[number][0], index)
            stats['evaluations'] = max(stats['evaluations'], 1)
            report(prop, check, case, kind, 'twice, after the cases before this one in one process', do_shrink=False)
            return 1, 1
    if suspects and not errors:
        errors.append('a worker was lost at %r, not reproduced in isolation'
                      % (suspects,))
    if errors:
        print(errors[0], file=sys.stderr)
        return 2, 0
    return 0, 0


def merge(part, stats, distinct):
    stats['evaluations'] += part['evaluations']
    stats['cut'] = stats['cut'] or part['cut']
    for label, count in part['labels'].items():
        stats['labels'][label] = stats['labels'].get(label, 0) + count
    stats['samples'].update(part['samples'])
    digests = part['nontrivial']
    for start in range(0, len(digests), 8):
        distinct.add(digests[start:start + 8])
