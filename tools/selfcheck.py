#!/usr/bin/env python3
"""setup_cmd: the tools the checks call are there (nothing to build ahead; every check builds from /repo)."""
import shutil, subprocess, sys
for t in ('verus', 'cargo', 'rustup', 'cargo-kani', 'python3'):
    if not shutil.which(t):
        print('missing tool', t)
        sys.exit(1)
out = subprocess.run(['rustup', 'toolchain', 'list'], stdout=subprocess.PIPE, text=True).stdout
if 'nightly-2026-05-18' not in out:
    print('missing toolchain nightly-2026-05-18')
    sys.exit(1)
print('ok')
