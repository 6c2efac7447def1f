#!/opt/venv/bin/python
"""run.py <property> [--replay FILE]: decides one property (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(arguments):
    from vlib import build
    try:
        build.load()
        from vlib import engine
        if len(arguments) == 3 and arguments[1] == '--replay':
            return engine.replay(arguments[0].upper(), arguments[2])
        return engine.main(arguments[0].upper())
    except build.BuildError as error:
        print('cannot build the code under test:\n%s' % error, file=sys.stderr)
        return 2


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
