#!/bin/bash
# runtest.sh tests/unit_tests/x/y.cpp [more sources]: build one of the repository's test programs against our build and run it (development helper)
T=/repo/tests; f=$1; shift
d=$(dirname /repo/$f)
DL="-lgtest -lgtest_main" DT="-w -I$T -I$T/unit_tests $(for x in $(find $T/unit_tests $T/include -type d 2>/dev/null); do echo -I$x; done) -DDATA_DIR='\"/repo/tests/data/\"' -include gtest/gtest.h $*" bash /verif/tools/demo_try.sh /repo/$f 2>&1 | grep -v "  OK \|RUN  \|^$\|-----" | tail -${N:-8}
