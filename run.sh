#!/bin/bash
# run.sh check Cxx | replay FILE | setup
# Builds the driver and hands over.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/sim" || exit 2
mkdir -p "$here/.work" || exit 2
bin=$here/.work/driver.$$
go build -o "$bin" ./driver || { echo "check error: cannot build the driver" >&2; exit 2; }
cd "$here" || exit 2
trap 'rm -f "$bin"' EXIT
if [ "$1" = check ]; then
	prop=$2
	shift 2
	"$bin" check -prop "$prop" "$@"
else
	"$bin" "$@"
fi
