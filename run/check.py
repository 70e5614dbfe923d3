#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                     # noqa: E402
from core import Check, CheckError, quick   # noqa: E402
import props                    # noqa: E402


def main():
    pid = sys.argv[1]
    chk = Check(pid)
    rc = 2
    try:
        b = core.build()
        getattr(props, pid)(b, chk)
        rc = chk.finish()
    except CheckError as e:
        print('ERROR: %s' % e)
        # a violation found before the error is still one
        if chk.violations:
            rc = chk.finish()
    except Exception:
        traceback.print_exc()
        if chk.violations:
            rc = chk.finish()
    finally:
        core.cleanup()
    if rc == 0:
        print('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' %
              (pid, chk.states, chk.transitions, chk.traces, chk.events, core.time.time() - core.T0))
    sys.exit(rc)


main()
