#!/usr/bin/env python3
"""setup_cmd: pre-builds what the checks rebuild incrementally (never fails the run: each check builds what it needs)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import backends
rc, out = backends.build_native()
print('native harness:', 'built' if rc == 0 else 'not built\n' + out[-2000:])
sys.exit(0)
