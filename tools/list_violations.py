#!/usr/bin/env python3
"""Print the violations of the last run of a check in the format of known_findings.txt (for review by hand; never run by a check)."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'evidence')
for p in sys.argv[1:]:
    f = os.path.join(here, f'{p}.violations.json')
    if not os.path.exists(f):
        continue
    for v in json.load(open(f))['violations']:
        print(f"finding: property={p} key={v['key']} -- {v['message'].splitlines()[0]}")
