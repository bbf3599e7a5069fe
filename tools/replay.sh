#!/bin/bash
# replay.sh evidence/replays/ID/NAME.json: rebuild the harness natively against /repo and run the recorded input.
exec python3 "$(dirname "$0")/replay.py" "$@"
