#!/usr/bin/env python3
"""Setup: nothing is prebuilt (every check builds from /repo's working tree); verifies that the tools the checks need are there."""
import shutil, sys
missing = [t for t in ('gcc', 'g++', 'clang-18', 'clang++-18', 'objdump', 'readelf', 'as', 'make') if not shutil.which(t)]
if missing: print('missing tools: ' + ', '.join(missing)); sys.exit(1)
print('ok')
