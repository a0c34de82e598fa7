#!/bin/bash
# runs every check of the manifest (quick), 6 at a time
cd /verif
python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]" | xargs -P 6 -I{} sh -c 'python3-vt -m sa.check {} quick > /tmp/all.{} 2>&1; rc=$?; echo "{} rc=$rc $(grep -c KNOWN /tmp/all.{})$(grep -m1 UNDECIDED /tmp/all.{} | cut -c1-200) known | $(tail -1 /tmp/all.{} | cut -c1-150)"' | sort
