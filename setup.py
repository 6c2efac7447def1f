#!/opt/venv/bin/python
"""Prepares what the checks need (see MANIFEST.json): builds go to .cache, offline."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, env  # noqa: E402

if __name__ == '__main__':
    try:
        print('extension:', build.extension())
        print('reference:', build.reference_library())
        if os.path.exists(os.path.join(env.VERIF, 'harness', 'fuzz.cpp')):
            print('fuzz harness:', build.fuzz_harness())
        print('memory fuzz harness:', build.memory_fuzz_harness())
        print('native:', build.native_library())
        print('faults harness:', build.faults_harness())
        print('extension with AddressSanitizer:', build.asan_extension())
        print('kernel:', build.kernel_library())
    except build.BuildError as error:
        print(error, file=sys.stderr)
        sys.exit(2)
    os.makedirs(env.EVIDENCE, exist_ok=True)
    os.makedirs(env.REPLAYS, exist_ok=True)
