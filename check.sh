#!/bin/bash
# check.sh <property>: refresh the facts of /repo's working tree, decide the property.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
WORK="${VERIF_WORK:-$HERE/work}"
cd "$HERE" || exit 3
mkdir -p "$WORK" evidence
[ -x driver/target/release/factdriver ] || ./setup.sh >/dev/null 2>&1
(
  flock 9
  ./build_facts.sh >"$WORK/build.log" 2>&1 || { tail -30 "$WORK/build.log" >&2; echo "build of the current tree failed" >&2; exit 2; }
) 9>"$WORK/lock" || exit 2
exec env PYTHONPATH="$HERE" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 python3 -m an.core "$1"
