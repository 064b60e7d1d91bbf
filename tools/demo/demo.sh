#!/bin/bash
# Run in the repository's root: exit 0 when the library behaves as it should on the cases here.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py" "$PWD"
