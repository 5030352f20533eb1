#!/usr/bin/env python3-vt
"""Setup: nothing is built ahead (every check compiles /repo's current sources); checks that the tools are there."""
import shutil, sys
import z3, mpmath
missing = [t for t in ('/usr/bin/clang-18', 'opt-18', 'gcc', 'cbmc', 'goto-cc', 'goto-instrument') if not shutil.which(t)]
if missing: sys.exit('missing tools: %s' % missing)
print('ok')
