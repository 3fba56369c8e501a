#!/bin/bash
# run one check, print violations grouped
cd /verif; ./check "$@" 2>&1 | grep -v '^VIOLATION' | cut -c1-${W:-420}
