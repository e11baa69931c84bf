#!/bin/bash
# Builds demo.cc with the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
flags="-std=gnu++17 -O2 -march=native -w -include cstdint -I$PWD/src -pthread -DCLIENT_CONNECT_SLEEP=20ms @FLAGS@"
n=0
for f in $(find "$PWD/src" -name '*.cc' ! -name 'exp_*') "$here/demo.cc"; do
  n=$((n + 1))
  g++ $flags -c "$f" -o "$w/$n.o" &
done
wait
g++ $flags "$w"/*.o -o "$w/demo" || exit 2
cd "$w"
timeout @TIMEOUT@ ./demo > "$w/out"
rc=$?
exit $rc
