"""Obtains the `_wagyu` extension built from /repo's *current* working tree.

`/opt/vp/build.sh` leaves a stamp with a hash of every input next to the module it built.
When the stamp still matches the working tree, that very module is loaded; otherwise the
extension is compiled here into /verif/.cache, keyed by the preprocessed source (so that a
comment does not cost a build), and /repo is left untouched.
"""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import sysconfig

from . import env


class BuildError(Exception):
    pass


_HASH_SCRIPT = r'''
cd "$1" || exit 1
PY=/opt/venv/bin/python
{ find src include -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
  sha256sum setup.py wagyu/__init__.py requirements.txt requirements-setup.txt README.md
  "$PY" -c 'import sys, pybind11, setuptools; print(sys.version, pybind11.__version__, setuptools.__version__)'
  g++ --version; } 2>&1 | sha256sum | cut -d' ' -f1
'''


def _clean_env():
    result = dict(os.environ)
    result.update(HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
                  PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    result.pop('PYTHONPATH', None)
    return result


def inputs_hash():
    done = subprocess.run(['bash', '-c', _HASH_SCRIPT, 'hash', env.REPO],
                          capture_output=True, text=True, env=_clean_env())
    return done.stdout.strip()


def in_place_extension():
    """Path of the module `build.sh` made, if it is the one for this tree."""
    modules = glob.glob(os.path.join(env.REPO, '_wagyu.*.so'))
    stamp = os.path.join(env.REPO, 'build', 'vp-stamp')
    if len(modules) != 1 or not os.path.exists(stamp):
        return None
    with open(stamp) as file:
        recorded = file.read().strip()
    if not recorded or recorded != inputs_hash():
        return None
    return modules[0]


def _include_flags():
    import pybind11
    return ['-I' + os.path.join(env.REPO, 'include'),
            '-I' + sysconfig.get_paths()['include'],
            '-I' + pybind11.get_include()]


def _preprocessed_hash(command):
    done = subprocess.run(command, capture_output=True, env=_clean_env())
    if done.returncode:
        raise BuildError(done.stderr.decode(errors='replace')[-4000:])
    # blank lines and indentation move when comments do
    text = re.sub(rb'\s+', b' ', done.stdout)
    return hashlib.sha256(text + ' '.join(command).encode()).hexdigest()[:24]


def _cached(kind, suffix, preprocess, compile_to):
    os.makedirs(env.CACHE, exist_ok=True)
    key = _preprocessed_hash(preprocess)
    directory = os.path.join(env.CACHE, kind + '-' + key)
    target = os.path.join(directory, suffix)
    if os.path.exists(target):
        return target
    with open(os.path.join(env.CACHE, kind + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return target
        # old builds of the same kind are of no more use
        olds = sorted(glob.glob(os.path.join(env.CACHE, kind + '-*')),
                      key=os.path.getmtime)
        for old in olds[:-3]:
            for name in os.listdir(old):
                os.unlink(os.path.join(old, name))
            os.rmdir(old)
        os.makedirs(directory, exist_ok=True)
        temporary = os.path.join(directory, 'tmp%d' % os.getpid())
        done = subprocess.run(compile_to(temporary), capture_output=True,
                              text=True, env=_clean_env())
        if done.returncode:
            if os.path.exists(temporary):
                os.unlink(temporary)
            raise BuildError(done.stderr[-4000:])
        os.rename(temporary, target)
    return target


def extension():
    found = in_place_extension()
    if found is not None:
        return found
    source = os.path.join(env.REPO, 'src', 'main.cpp')
    flags = ['-std=c++14', '-DNDEBUG', "-DVERSION_INFO=\"0\"",
             *_include_flags()]
    return _cached('ext', '_wagyu' + sysconfig.get_config_var('EXT_SUFFIX'),
                   ['g++', *flags, '-E', '-P', source],
                   lambda path: ['g++', *flags, '-O1', '-g0', '-fPIC',
                                 '-shared', '-fvisibility=hidden', '-w',
                                 source, '-o', path])


def fuzz_harness():
    source = os.path.join(env.VERIF, 'harness', 'fuzz.cpp')
    flags = ['-std=c++14', '-I' + os.path.join(env.REPO, 'include')]
    return _cached('fuzz', 'fuzz',
                   ['clang++', *flags, '-E', '-P', source],
                   lambda path: ['clang++', *flags, '-O1', '-gline-tables-only', '-w',
                                 '-fsanitize=fuzzer,address,undefined',
                                 '-fno-sanitize-recover=all',
                                 '-fno-omit-frame-pointer',
                                 '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR',
                                 source, '-o', path])


def memory_fuzz_harness():
    source = os.path.join(env.VERIF, 'harness', 'msan.cpp')
    flags = ['-std=c++14', '-I' + os.path.join(env.REPO, 'include')]
    return _cached('msan', 'fuzz',
                   ['clang++', *flags, '-E', '-P', source],
                   lambda path: ['clang++', *flags, '-O1', '-gline-tables-only', '-w', '-fsanitize=fuzzer,memory',
                                 '-fno-omit-frame-pointer', source, '-o', path])


def faults_harness():
    source = os.path.join(env.VERIF, 'harness', 'faults.cpp')
    flags = ['-std=c++14', '-I' + os.path.join(env.REPO, 'include')]
    return _cached('faults', 'faults',
                   ['clang++', *flags, '-E', '-P', source],
                   lambda path: ['clang++', *flags, '-O1', '-gline-tables-only', '-w', '-fsanitize=address,undefined',
                                 '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', source, '-o', path])


def threads_harness():
    source = os.path.join(env.VERIF, 'harness', 'threads.cpp')
    flags = ['-std=c++14', '-I' + os.path.join(env.REPO, 'include')]
    return _cached('threads', 'threads',
                   ['clang++', *flags, '-E', '-P', source],
                   lambda path: ['clang++', *flags, '-O1', '-gline-tables-only', '-w', '-fsanitize=thread',
                                 '-pthread', source, '-o', path])


def asan_extension():
    source = os.path.join(env.REPO, 'src', 'main.cpp')
    flags = ['-std=c++14', "-DVERSION_INFO=\"0\"", *_include_flags()]
    return _cached('asanext', '_wagyu' + sysconfig.get_config_var('EXT_SUFFIX'),
                   ['g++', *flags, '-E', '-P', source],
                   lambda path: ['g++', *flags, '-O1', '-g0', '-fPIC', '-shared', '-fvisibility=hidden', '-w',
                                 '-fsanitize=address', '-fno-omit-frame-pointer', source, '-o', path])


def asan_libraries():
    return [subprocess.run(['g++', '-print-file-name=' + name], capture_output=True, text=True,
                           check=True).stdout.strip() for name in ('libasan.so', 'libstdc++.so')]


def load():
    """Makes `_wagyu` and `wagyu` importable from the current tree."""
    import importlib.util
    import importlib.machinery
    path = os.environ.get('VERIF_EXT')
    if not path:
        path = extension()
        os.environ['VERIF_EXT'] = path
    if sys.path[:1] != [env.REPO]:
        sys.path.insert(0, env.REPO)
    if '_wagyu' not in sys.modules:
        loader = importlib.machinery.ExtensionFileLoader('_wagyu', path)
        spec = importlib.util.spec_from_file_location('_wagyu', path, loader=loader)
        module = importlib.util.module_from_spec(spec)
        loader.exec_module(module)
        sys.modules['_wagyu'] = module
    import wagyu.wagyu
    origin = os.path.dirname(os.path.dirname(os.path.abspath(wagyu.__file__)))
    if origin != os.path.abspath(env.REPO):
        raise BuildError('wagyu was imported from ' + origin)
    return sys.modules['_wagyu']


def reference_library():
    source = os.path.join(env.VERIF, 'harness', 'ref.cpp')
    return _cached('ref', 'ref.so', ['g++', '-std=c++14', '-E', '-P', source],
                   lambda path: ['g++', '-std=c++14', '-O2', '-fPIC', '-shared', source, '-o', path])


def native_library():
    source = os.path.join(env.VERIF, 'harness', 'native.cpp')
    flags = ['-std=c++14', '-DNDEBUG', '-DWITH_INT64', '-I' + os.path.join(env.REPO, 'include')]
    return _cached('native', 'native.so',
                   ['g++', *flags, '-E', '-P', source],
                   lambda path: ['g++', *flags, '-O1', '-g0', '-fPIC', '-shared', '-w',
                                 source, '-o', path])


def kernel_library():
    """None when the headers no longer offer what it wraps."""
    source = os.path.join(env.VERIF, 'harness', 'kernel.cpp')
    flags = ['-std=c++14', '-DNDEBUG', '-I' + os.path.join(env.REPO, 'include')]
    try:
        return _cached('kernel', 'kernel.so',
                       ['g++', *flags, '-E', '-P', source],
                       lambda path: ['g++', *flags, '-O1', '-g0', '-fPIC', '-shared', '-w', source, '-o', path])
    except BuildError:
        return None
