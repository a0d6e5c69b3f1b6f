#!/bin/bash
# exit 0 when the behaviour is right; cwd is /repo after a build
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/lib/llvm-14/bin:$PATH
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
cp "$here"/*.llrl "$tmp"/
cd "$tmp" || exit 2
for cfg in -b,chibi -b,llvm,-O; do
  timeout 100 "$repo"/target/release/llrl0 ${cfg//,/ } -o demo.exe demo >build.log 2>&1 || { cat build.log; exit 3; }
  timeout 60 ./demo.exe >out.txt 2>err.txt || { echo "status $?"; head -c 600 err.txt; exit 4; }
  if ! cmp -s out.txt "$here/expected.txt"; then diff out.txt "$here/expected.txt" | head; exit 1; fi
done
exit 0
