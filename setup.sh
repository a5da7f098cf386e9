#!/bin/bash
# The framework is pure Python; verify that the toolchain it relies on is there.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python -W ignore -c "import torch, numpy, scipy, compressai; import mc.core" || exit 1
exit 0
