#!/bin/bash
# ./check.sh <property> quick|thorough   or   ./check.sh <property> replay <file>
cd "$(dirname "$0")" && exec python3 tools/run.py "$@"
