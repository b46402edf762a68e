#!/bin/sh
gdb -q -batch -ex "set follow-fork-mode child" -ex "catch throw" -ex run -ex bt --args .build/mpi/omsim replay $1 2>&1 | grep -E "^#" | grep -v "std::\|_invoke" | cut -c1-160| head -${2:-16}
