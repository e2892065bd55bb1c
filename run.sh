#!/bin/bash
# run.sh PROPERTY TIER: analyse /repo's current tree for one property.
# The checker is built from /verif/checker when there's no up-to-date binary.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
bin="$here/bin/checker"
stale=1
if [ -x "$bin" ] && [ -z "$(find "$here/checker" -newer "$bin" -type f | head -1)" ]; then stale=0; fi
if [ $stale = 1 ]; then
	mkdir -p "$here/bin"
	(cd "$here/checker" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "the checker can't be built"; exit 2; }
fi
if [ "$1" = build ]; then exit 0; fi
exec "$bin" -tier "${2:-quick}" -out "$here" -repo /repo "$1"
