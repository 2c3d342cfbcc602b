#!/bin/bash
# check.sh <property> [quick|thorough]: builds the checker and decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
bash checker/build.sh || exit 2
exec bin/checker "$@"
