#!/bin/bash
# prints the slowest harnesses of the last run of a property
python3 - $1 <<'P'
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
print(e['wall_s'], e['coverage']['problems'])
for p in sorted(e['coverage']['per_harness'],key=lambda p:-p['seconds'])[:12]: print(p['harness'],p['status'],p['seconds'])
P
