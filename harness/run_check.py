"""Entry point: run_check.py <property-id>.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: it is broken.  Exit 2: the machinery itself failed.
"""
import faulthandler
import importlib
import os
import sys
import traceback

import common

faulthandler.enable()


def main():
    pid = sys.argv[1]
    mod = None
    chk = common.Check(pid)
    try:
        mod = importlib.import_module('chk_' + pid.lower())
        mod.run(chk)
    except common.Machinery as exc:
        traceback.print_exc()
        print('MACHINERY-ERROR property=%s %s' % (pid, exc))
        sys.stdout.flush()
        if not chk.viol:
            os._exit(2)
    except BaseException as exc:      # noqa: total verdicts
        tb = traceback.extract_tb(exc.__traceback__)
        repo = os.path.realpath(common.REPO) + os.sep
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(repo)]
        if isinstance(exc, common.Stuck) or inrepo:
            chk.violation('the code under test raised outside every outcome the '
                          'specification allows: %s: %s'
                          % (type(exc).__name__, exc),
                          {'traceback': traceback.format_exc()})
        else:
            traceback.print_exc()
            print('MACHINERY-ERROR property=%s %s' % (pid, exc))
            sys.stdout.flush()
            if not chk.viol:
                os._exit(2)
    chk.finish()


if __name__ == '__main__':
    main()
