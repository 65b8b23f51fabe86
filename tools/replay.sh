#!/bin/bash
# replay.sh FILE: re-run a recorded history on the unmodified contract (build it with a check first)
V=$(cd "$(dirname "$0")/.." && pwd)
python3 -c 'import json,sys; print(json.dumps([json.load(open(sys.argv[1]))]))' "$1" | "${VERIF_TARGET:-$V/.target}/conch/release/conch" replay
