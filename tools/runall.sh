#!/bin/bash
# Run every check in parallel and print one line per check.
cd "$(dirname "$0")/.." || exit 2
ls checks/C*.py | xargs -P 8 -I{} bash -c 'o=$(timeout 900 python3 {} 2>&1); rc=$?; echo "$(basename {} .py) exit $rc: $(echo "$o" | grep -c "^VIOLATION") $(echo "$o" | head -1)"' | sort
