#!/bin/bash
# Runs the repository's own Kokkos tests on the stand-in of mc/kokkos: does the stand-in behave as they expect of Kokkos?
# Usage: bin/kokkos_conformance.sh   (not part of any check: it uses the repository's tests)
here=$(cd "$(dirname "$0")/.." && pwd); repo=${VERIF_REPO:-/repo}
T=$(mktemp -d /tmp/kokkos.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/checkpoint"
printf '#define checkpoint_has_fallocate\n#define checkpoint_has_mmap64\n' > "$T/checkpoint/cmake_config.h"
F="-std=c++17 -w -O0 -DMAGISTRATE_KOKKOS_ENABLED=1 -DMAGISTRATE_KOKKOS_KERNELS_ENABLED=0 -I$repo/src -I$repo/src/checkpoint -I$T -I$here/mc/kokkos -I$repo/tests/unit -I$repo/tests"
for f in "$repo"/tests/unit/test_kokkos_*.cc "$repo"/tests/unit/main.cc "$repo"/src/checkpoint/*/*.cc; do
  echo "$f"
done | xargs -P 8 -I{} sh -c "g++ $F -c {} -o $T/\$(basename {}).o || echo FAILED {}"
g++ "$T"/*.o -lgtest -lpthread -o "$T/run" && cd "$T" && ./run | tail -3
