#!/bin/sh
# extract into /verif/work and verify (development helper)
mkdir -p /verif/work
/verif/extract/target/debug/vx ${SRC:-/repo/src} /verif/specs /verif/prelude /verif/work/out.rs /verif/work/map.json $VXARGS && cd /verif/work && verus out.rs --crate-type lib --triggers-mode silent "$@"
