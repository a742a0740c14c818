#!/bin/bash
# demo_try.sh demo.cpp [variant]: link a small program with the library built from /repo as it is now (development helper)
set -e
V=/verif; v=${2:-fast}; h=$([ $v = fast ] && echo c12f || echo c12)
python3 $V/tools/vbuild.py $h >/tmp/dt.log 2>&1 || { tail -5 /tmp/dt.log; exit 9; }
F=$(python3 - <<P
import sys; sys.path.insert(0,"$V/tools"); import vbuild as b
f,a,hf,l=b.VARIANTS["$v"]
print(" ".join("'"+x+"'" for x in hf+b.COMMON+["-I$V/mc","-I$V/harness","-DZNVER_MAX="+a[-1],"-fno-access-control"]+["-D%s_AVAILABLE"%x for x in a]+b.INCS+l))
P
)
o=/tmp/dt_$$
eval g++ -std=c++17 -fuse-ld=gold $F ${DT:-} "$1" -o $o $V/build/$v/libda.a $V/build/fortran/*/*.a $V/build/$v/libda.a -L/usr/lib/x86_64-linux-gnu/openblas-pthread -lopenblas -lgfortran -lmvec -lm -lgomp -lpthread -ldl ${DL:-} 2>&1 | tail -5 | cut -c1-300
set +e; OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 100 $o; r=$?; rm $o; echo "rc=$r"
