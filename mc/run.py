"""python -m mc.run <property> [--replay file]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from mc import load
    pid = sys.argv[1]
    needs = {'C25': dict(torch=True), 'C31': dict(torch=True), 'C30': dict(matplotlib=True),
             'C01': dict(torch=True), 'C09': dict(torch=True), 'C19': dict(torch=True), 'C20': dict(torch=True),
             'C27': dict(torch=True)}
    try:
        load.load(**needs.get(pid, {}))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ERROR: cannot import cbx', file=sys.stderr)
        return 2
    mod = importlib.import_module('mc.checks.' + pid.lower())
    from mc import core
    return core.main(mod, sys.argv[2:])


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
