#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the engine when its sources are newer, then decides the property for
# the working tree of /repo.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -print -quit)" ]; then
  ./build.sh || exit 2
fi
exec bin/engine check "$1" -tier "${2:-quick}"
