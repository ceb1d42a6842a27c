#!/bin/bash
# all registered checks on the current tree, in parallel
cd "$(dirname "$0")/.."
ls rules/p[0-9]*.py | sed 's/.*\/p\([0-9]*\).py/P\1/' | xargs -P 8 -I{} sh -c 'o=$(timeout 900 python3 check.py {} 2>&1); echo "{} exit $? $(echo "$o" | tail -1 | cut -c1-200)"' | sort
