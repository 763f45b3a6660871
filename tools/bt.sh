#!/bin/bash
# bt.sh SCENARIO: stack of the crash of one scenario
f=/tmp/bt.$$; { echo "=== x"; grep -v '^#' "$1" | sed '/^# trace/,$d'; } > $f
exe=$(cd /verif && python3 lib/build.py)
VSIM_STDERR=/tmp/bt.err gdb -q -batch -ex "set follow-fork-mode child" -ex "set print thread-events off" -ex run -ex bt --args $exe /verif/sim/certs $f /tmp/bt.out 2>&1 | grep -E "^#|signal|ssert" | cut -c1-220 | head -${2:-30}
