#!/bin/bash
# Prebuild what the checks build incrementally, so that each check starts warm.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
python3-vt -c 'from vp.build import build_extension; print(build_extension())' || exit 1
if [ -d rust ]; then
  python3-vt -c 'from vp.props.codec import build_codec; print(build_codec())' || exit 1
fi
exit 0
