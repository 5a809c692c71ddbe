#!/bin/bash
# runs several jobs: rj.sh harness "entry params" ...
H=$1; shift
for e in "$@"; do echo "== $e"; L=${L:-2} T=${T:-120} /verif/tools/runjob.sh $H $e || break; done
