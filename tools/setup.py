"""Checks that the toolchain works offline and pre-builds the harness crates (every check can also build from cold)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import common
import llbuild
os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
try:
    llbuild.build()
    print('setup: IR harness built')
except common.BuildError as e:
    print(str(e)[-3000:])
    sys.exit(1)
