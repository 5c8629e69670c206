#!/bin/bash
# usage: run.sh PROP [extra pbt args]   -- builds (if needed) and runs one property
exec python3 "$(dirname "$0")/check.py" "$@"
