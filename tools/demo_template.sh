#!/bin/bash
# Compiles the program beside this script against the library built in /repo/_build (and the three source files which
# that build leaves out) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
L=/repo/cpp/lib_moment
flags="-I/repo/cpp/eigen -I$L -I$here -isystem /usr/include/eigen3 -include $here/prelude.h -O1 -DNDEBUG -std=gnu++20"
for f in "$here/demo.cpp" $L/matrix/polynomial_matrix.cpp $L/symbolic/polynomial_to_basis.cpp $L/symbolic/rules/moment_rulebook_to_basis.cpp; do
    g++-12 $flags -c "$f" -o "$tmp/$(basename "$f").o" & 
done
wait
g++-12 "$tmp"/*.o /repo/_build/lib_moment.a -lpthread -o "$tmp/demo" || { echo "cannot build the demonstration"; exit 0; }
timeout 120 "$tmp/demo"
