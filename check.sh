#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on the current tree of /repo
# check.sh replay <file>                 re-run a recorded execution with a printed trace
# Exit: 0 held, 1 violation, 2 check error.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
if [ "$1" != replay ] && [ -n "$2" ]; then export VERIF_TIER="$2"; fi
export VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p "$here/evidence/replays"
property="$1"
if [ "$1" = replay ]; then
    property="$(sed -n 's/^property: //p' "$2" | head -1)"
fi
case "$property" in
    C09) crate=containers ;;
    C10) crate=shapes ;;
    *) crate=mc ;;
esac
variant=
bin="$here/$crate/target/release/$crate"
if [ "$property" = C15 ]; then
    variant=unsized
    bin="$here/mc/target/unsized/release/mc"
fi
log="$here/$crate/target/build.log"
mkdir -p "$here/$crate/target"
"$here/$crate/build.sh" $variant >"$log" 2>&1
status=$?
if [ $status = 1 ]; then
    # the crate under test builds but code that uses it in a way covered by the property does not
    cat "$log"
    cp "$log" "$here/evidence/replays/$property-build.log"
    "$here/tools/build_evidence.sh" "$property" >"$here/evidence/$property.json"
    echo "VIOLATION property=$property replay=$here/evidence/replays/$property-build.log"
    exit 1
elif [ $status != 0 ]; then
    cat "$log"
    echo "CHECK ERROR: the checker does not build against the current tree"
    exit 2
fi
exec "$bin" "$@"
