#!/bin/bash
# Builds what the checks need from the committed files (the file-system shim); offline.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import os
if os.path.exists('dst/shimbuild.py'):
    from dst import shimbuild
    print('shims', shimbuild.ensure(), shimbuild.ensure('heapshim'))
import numpy, scipy, jax
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'jax', jax.__version__)
P
