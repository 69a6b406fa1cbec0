#!/bin/bash
# Warm the compiler cache; every check builds what it needs by itself as well.
cd "$(dirname "$0")" || exit 1
work=$(mktemp -d) || exit 1
python3 tools/warm.py "$work" >/dev/null 2>&1
rm -rf "${work:?}"
exit 0
