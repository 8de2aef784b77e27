#!/bin/bash
# build.sh WORLD... : make the simulator binaries of these worlds for the current sources; prints the path of the last one.
# Results are kept in build/<hash of everything that goes into them>, so an unchanged tree is not compiled twice and a
# changed one always is.
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
for W in "$@"; do
H=$( (cd "$R/include" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; g++ --version | head -1; echo "$W $R") | sha256sum | cut -c1-20)
D=$V/build/$H-$W
if [ ! -x "$D/sim_$W" ]; then
mkdir -p "$V/build"
T=$(mktemp -d "$V/build/tmp.XXXXXX") || exit 1
if ! REPO="$R" "$V/sim/build.sh" "$T" "$W" >"$V/build/$W.log" 2>&1; then
 grep -m5 -E "error" "$V/build/$W.log" >&2; find "$T" -delete; exit 1
fi
find "$T" -name '*.o' -delete
mv -T "$T" "$D" 2>/dev/null || find "$T" -delete # somebody else was faster
fi
done
[ -x "$D/sim_$W" ] && echo "$D/sim_$W"
