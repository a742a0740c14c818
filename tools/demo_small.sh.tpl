#!/bin/bash
# compiles demo.cpp against the library built by build.sh and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=/repo; B=$R/_build; S=$R/source
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
I=""
for d in include core/drivers core/basic_statistics core/optimization core/utilities core/dynamic_dispatch core/csv core/metrics core/linear_model core/data_management core/factorization core/clustering core/decision_forest core/decision_forest/tree core/nlls core/nearest_neighbors core/svm core/kernel_functions core/interpolation core/approximate_neighbors core/dimension_reduction; do I="$I -I$S/$d"; done
I="$I -I$R/external/Lbfgsb.3.0 -I$R/external/RALFit -I$R/external/RALFit/libRALFit/include -I$R/external/kernel-templates -I/usr/include/x86_64-linux-gnu/openblas-pthread"
g++ -std=c++17 -O1 -fopenmp -march=x86-64 -mavx2 -mfma -fno-access-control  -DARCH_generic -DZNVER_MAX=generic -Dgeneric_AVAILABLE '-DAOCLDA_VERSION_STRING="x"' '-DAOCLDA_GIT_COMMIT="x"' '-DINT_LIB="LP64"' $I "$D/demo.cpp" -o "$T/demo" \
  $B/libda_partial.a $(find $B/Lbfgsb $B/RALFit $B -maxdepth 2 -name '*.a' ! -name 'libda_partial.a' | sort -u) /usr/lib/x86_64-linux-gnu/openblas-pthread/libopenblas.so -lgfortran -lm -no-pie -Wl,--unresolved-symbols=ignore-all
cd "$T"; OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 120 ./demo
