#!/bin/bash
# lib/prof.sh ID STAGE TASK: where one task (kept with HLC_KEEP=1) asks the solver
B=/verif/build/$1; R=$(ls $B/$2/ref?.bc 2>/dev/null | sed 's/^/--mod /'); mkdir -p /tmp/e
HLC_QPROF=1 /verif/build/hsx --hlc $B/hlc.bc --harness $B/$2/harness.bc --entry ${4:-diff_main} --out /tmp/e --root /repo --deadline ${5:-60} --jobs 1 --only-task $3 --verbose $R
