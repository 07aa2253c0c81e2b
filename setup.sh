#!/bin/bash
# Checks that the installed tools the monitors need are there; builds nothing that is kept.
cd "$(dirname "$0")" || exit 3
command -v gcc >/dev/null || { echo "gcc missing"; exit 3; }
exec /opt/venv/bin/python -B -c "import numpy, numba, scipy, astropy, cv2, matplotlib; print('ok')"
