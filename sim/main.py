import os
import sys


def main():
    from . import engine
    args = sys.argv[1:]
    if not args:
        print('usage: check PROPERTY | --replay FILE | --digest PROPERTY N')
        return 2
    if 'NIMSIM_SCRATCH' not in os.environ:
        if args[0] == '--replay':
            sys.argv[2] = os.path.abspath(args[1])
        return engine.reexec()
    if args[0] == '--replay':
        return engine.cmd_replay(args[1])
    if args[0] == '--digest':
        return engine.cmd_digest(args[1], int(args[2]))
    return engine.cmd_check(args[0])


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
