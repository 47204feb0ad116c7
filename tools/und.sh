#!/bin/bash
# show the undecided obligations of the last run
python3 - "$1" <<'P'
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for u in d['coverage']['undecided_list']: print(u[:400])
P
