#!/bin/bash
# cv.sh PROP SEED: commands, exceptions, operations of a plan
S=$(python3 "$(dirname "$0")"/../build.py ${FLAVOR:-fast}); $S one $1 $2 2 2>&1 | grep -aE "ARGV|line r|EXC|^  OP|label=|^  \[|^dev|^session|^Number|^ +[0-9]+ |region|write |OUT|^C[0-9]|commit" | cut -c1-${3:-170}
