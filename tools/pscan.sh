#!/bin/bash
# pscan.sh PROP COUNT [FROM]: scan COUNT seeds on 8 processes, grouped summary
S=$(python3 "$(dirname "$0")"/../build.py ${FLAVOR:-fast}); N=$2; F=${3:-1}; T=$(mktemp -d)
for i in 0 1 2 3 4 5 6 7; do $S scan $1 $((F+i*N/8)) $((N/8)) all > $T/o$i 2>$T/e$i & done; wait
cat $T/o? | python3 "$(dirname "$0")"/../tools/summ.py 230; grep -ah "SIMERR" $T/e? | sort | uniq -c; rm -rf $T
