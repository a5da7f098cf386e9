#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [extra args]
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
pid="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
mod="mc.$(echo "$pid" | tr 'A-Z' 'a-z')"
cd "$here" && exec python -W ignore -m "$mod" --tier "$tier" "$@"
