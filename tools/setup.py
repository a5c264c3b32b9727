#!/usr/bin/env python3
"""Prebuild the flavours of the native extension the checks use (cached by content)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor  # noqa: E402

from harness import build  # noqa: E402

os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
with ThreadPoolExecutor(3) as ex:
    for f in ex.map(build.build, ('release', 'asan', 'tsan')):
        print(f)
print(build.build_gomp_shim())
