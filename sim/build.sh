#!/bin/bash
# Builds simrun, simrun-nouuid (no UUID library) and simrun-threads (unoptimised, every memory access
# of the library visible to the scheduler) from the working tree of /repo (or $1) into $2.
set -e
export LC_ALL=C
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${1:-/repo}
OUT=${2:-/verif/build}
mkdir -p "$OUT"
cd "$OUT"
tr -s ' \n' '\n' < "$HERE/seams.txt" | grep . | awk '{print $1" sim_"$1}' > seams.map
for f in $(grep -o 'DIRTY([a-z_]*)' "$HERE/dirty.cc" | sed 's/DIRTY(//; s/)//' | grep -vx f); do
	sed -i "s/^$f sim_$f\$/$f dirty_$f/" seams.map
done
SAN="-fsanitize=address,bounds,null,integer-divide-by-zero,unreachable,return -fno-sanitize-recover=all"
LIB="clang -c -x c -std=gnu99 -g -w -fno-omit-frame-pointer -U_FORTIFY_SOURCE $SAN -I$REPO/sml/include -I$REPO/examples"
CXX="clang++ -std=c++17 -O1 -g -Wall -fno-omit-frame-pointer -I$REPO/sml/include"
jobs_file=$(mktemp "$OUT/jobs.XXXXXX")
for v in uuid nouuid threads threads-nouuid; do
	mkdir -p "lib-$v"
	D="-O1 -fsanitize-coverage=trace-pc-guard,no-prune"
	case $v in threads*) D="-O0 -fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores";; esac
	case $v in *nouuid) D="$D -DSML_NO_UUID_LIB";; esac
	for f in "$REPO"/sml/src/*.c; do
		o="lib-$v/$(basename "$f" .c).o"
		echo "$LIB $D $f -o $o && objcopy --redefine-syms=seams.map $o"
	done
done > "$jobs_file"
echo "$LIB -O1 -fsanitize-coverage=trace-pc-guard,no-prune $REPO/examples/sml_server.c -o tool.o && objcopy --redefine-syms=seams.map --redefine-sym main=sml_server_main tool.o" >> "$jobs_file"
mkdir -p h
for f in "$HERE"/*.cc; do
	o="h/$(basename "$f" .cc).o"
	s=$(cat "$f" "$HERE"/*.h "$REPO"/sml/include/sml/*.h | sha256sum)
	[ -f "$o" ] && [ "$s" = "$(cat "$o.sum" 2>/dev/null)" ] && continue
	echo "$CXX -c $f -o $o && echo '$s' > $o.sum"
	[ "$(basename "$f")" = main.cc ] && echo "$CXX -DVARIANT='\"nouuid\"' -c $f -o h/main-nouuid.obj"
done >> "$jobs_file"
rm -f lib-*/*.o tool.o
if ! tr '\n' '\0' < "$jobs_file" | xargs -0 -P 10 -I{} bash -c '{}' 2> errors.txt; then
	cat errors.txt >&2; rm -f "$jobs_file"; exit 1
fi
rm -f "$jobs_file"
cat errors.txt >&2
OTHERS=$(ls h/*.o | grep -v '^h/main.o$')
LD="clang++ -fsanitize=address,undefined"
$LD lib-uuid/*.o tool.o h/main.o $OTHERS -lpthread -lm -o simrun &
$LD lib-nouuid/*.o tool.o h/main-nouuid.obj $OTHERS -lpthread -lm -o simrun-nouuid &
$LD lib-threads/*.o tool.o h/main.o $OTHERS -lpthread -lm -o simrun-threads &
$LD lib-threads-nouuid/*.o tool.o h/main-nouuid.obj $OTHERS -lpthread -lm -o simrun-threads-nouuid &
wait %1; wait %2; wait %3; wait %4
