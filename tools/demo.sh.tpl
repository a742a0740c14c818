#!/bin/bash
# compiles the library from /repo's sources (with stand-ins, beside this file, for the AMD
# libraries missing here), links demo.cpp with it and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=/repo; S=$R/source
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
I="-I$D/shim"
for d in include core/drivers core/basic_statistics core/optimization core/utilities core/dynamic_dispatch core/csv core/metrics core/linear_model core/data_management core/factorization core/clustering core/decision_forest core/decision_forest/tree core/nlls core/nearest_neighbors core/svm core/kernel_functions core/interpolation core/approximate_neighbors core/dimension_reduction; do I="$I -I$S/$d"; done
I="$I -I$R/external/Lbfgsb.3.0 -I$R/external/RALFit -I$R/external/RALFit/libRALFit/include -I$R/external/kernel-templates -I/usr/include/x86_64-linux-gnu/openblas-pthread"
F="-O0 -w -fopenmp -march=x86-64 -mavx2 -mfma -DZNVER_MAX=generic -Dgeneric_AVAILABLE -DAOCLDA_VERSION_STRING=\"x\" -DAOCLDA_GIT_COMMIT=\"x\" -DINT_LIB=\"LP64\""
export F I T
comp() {
  o=$T/$(echo "$1" | tr / _).o; A=-DARCH_generic
  case $(basename "$1") in *_public.cpp|tokenizer.c|da_handle.cpp|interval_set.cpp|data_store.cpp|miscellaneous.cpp|context.cpp|fp16_helpers.cpp|aoclda_c_wrapper.cpp|model_persistence.cpp) A=;; esac
  case $1 in *.c) gcc -std=gnu11 $F $A $I -c "$1" -o "$o";; *) g++ -std=c++17 $F $A $I -c "$1" -o "$o";; esac
}
export -f comp
find $S/core "$D/shim" -name '*.cpp' -o -name '*.c' -path "$S/core/*" | xargs -P 8 -I{} bash -c 'comp {}'
g++ -std=c++17 -O1 -fno-access-control $F @FLAGS@ $I "$D/demo.cpp" -o "$T/demo" "$T"/*.o \
  $R/_build/Lbfgsb/CMakeFiles/lbfgsb*.dir/*.o $R/_build/libral_nlls_*.a /usr/lib/x86_64-linux-gnu/openblas-pthread/libopenblas.so -lgfortran -lm
cd "$T"; OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 100 ./demo
