#!/opt/venv/bin/python
"""check.py <property> [--replay FILE]: decide one property on the working tree of /repo by simulation."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.dont_write_bytecode != 1 or sys.flags.utf8_mode != 1:
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    pid = sys.argv[1]
    from sim import explore

    prop = importlib.import_module('props.' + pid.lower())
    sys.exit(explore.main(prop, pid, sys.argv[2:]))


if __name__ == '__main__':
    main()
