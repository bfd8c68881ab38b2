#!/bin/bash
# replay.sh evidence/replay/<file>.json : run the failing input of a VIOLATION against /repo's current code
set -e
cd "$(dirname "$0")"
exec python3-vt -m dv.replay "$@"
