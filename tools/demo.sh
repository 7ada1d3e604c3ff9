#!/bin/bash
# Compiles demo.cpp against the library /opt/vp/build.sh made (plus the sources that build leaves out) and runs it in scratch space.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
L=/repo/cpp/lib_moment
F=(-std=c++20 -w -O1 -include numeric -I"$L" -isystem /usr/include/eigen3 "-DEIGEN_SPARSEMATRIX_PLUGIN=\"$D/eigen_sorted_triplets.h\"")
X=(); for s in matrix/polynomial_matrix symbolic/polynomial_to_basis symbolic/rules/moment_rulebook_to_basis; do
  g++-12 "${F[@]}" -c "$L/$s.cpp" -o "$T/$(basename $s).o" & X+=("$T/$(basename $s).o"); done
g++-12 "${F[@]}" -c "$D/demo.cpp" -o "$T/demo.o" & wait
g++-12 "$T/demo.o" "${X[@]}" /repo/_build/lib_moment.a -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
