#!/bin/bash
# Verifies the tools the checks need; nothing has to be built.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "
import Cython, sa.cxx, sa.pyx
print('clang:', sa.cxx.find_clang(), 'Cython:', Cython.__version__)
assert len(sa.cxx.sources()) >= 10
" || exit 1
mkdir -p evidence
