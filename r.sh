#!/bin/bash
# r.sh MODULE [SUBSTR]: run units with loop traces, terse
CV_VERBOSE=1 python3-vt run1.py "$@" 2>&1 | grep -E "obl (False|None)|FAILED|^  loop|kept|dropped| (ok|failed|undecided) [0-9]|Error:" | grep -v '"error"' | cut -c1-${W:-260}
