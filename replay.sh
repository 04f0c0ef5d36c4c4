#!/bin/sh
# replay.sh FILE [-v]: repeat the execution recorded in a replay file
cd "$(dirname "$0")" || exit 3
set -- "$@"
exec python3 - "$@" <<'P'
import os, sys
sys.path.insert(0, os.getcwd())
import build as B
exe, rtso = B.build()
rt = os.path.join(B.REPO, 'src/runtime')
os.environ.update(DIFFPYRUNTIME=rt, VSIM_RTSO=rtso, VSIM_RUNTIME=rt,
    VSIM_SCRATCH=os.path.join(B.BUILD, 'run-replay', 'scratch'))
os.makedirs(os.path.join(B.BUILD, 'run-replay'), exist_ok=True)
os.execv(exe, [exe, 'replay'] + sys.argv[1:])
P
