#!/bin/bash
# check.sh <property> quick|thorough: builds against /repo's current tree and explores.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "$here/mc/target/release/mc" run "$1" "${2:-quick}"
