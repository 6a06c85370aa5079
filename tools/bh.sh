#!/bin/bash
# bh.sh HARNESS [HINT]: builds one harness with the -O0 flag set (development helper)
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'tools')
import vbuild
b=vbuild.Builder('$1',flags=['-O0','-g1'])
print(b.build(['harness/$1.cpp','lib/pbt_main.cpp'],hint='${2:-e2e}',libs=['-lpthread'],shim_src=('shim/src/json.cpp',)))
"
