#!/bin/bash
# mkbug.sh ID DIR: a copy of /repo with a planted bug applied, for tools/pscan.sh (PARTED_REPO=DIR)
/bin/cp -a /repo $2 && cd $2 && git apply /verif/seeded/$1/patch.diff
