#!/usr/bin/env python3
"""setup_cmd: nothing to keep; shows that the tools the checks need are there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core     # noqa: E402

for f in core.JARS.split(':'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
subprocess.run(['java', '-version'], check=True, capture_output=True)
subprocess.run(['gcc', '--version'], check=True, capture_output=True)
print('ok')
