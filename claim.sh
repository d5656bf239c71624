#!/bin/bash
# claim.sh ID modules...: enter a property as claimed, regenerate the manifest and run its check
ID=$1; python3 reg.py "$@"; sed -i "/prop(\"$ID\"/,/^\$/ s/\], UC)/])/" properties.py; python3 gen.py; time ./check.py $ID | tail -12
