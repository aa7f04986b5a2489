#!/bin/bash
# run.sh <property> <quick|thorough>: builds the analyser and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/checker" && go build -o "$here/bin/checker" .) ; then
	echo "the analyser does not build"
	exit 3
fi
exec "$here/bin/checker" "$1" "${2:-quick}"
