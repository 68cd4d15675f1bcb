#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below and the commits in /repo."""
import json, subprocess
BUILT = json.load(open('/verif/tools/built.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hooks = subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks = [h.split()[0] for h in hooks if ' verif hook:' in ' '+h.split(' ',1)[1]]
m = {"version":1,"setup_cmd":"bash tools/setup.sh",
 "hooks":{"guard":"--cfg doodle_verif","enable":"RUSTFLAGS=\"--cfg doodle_verif\" (set by /verif/check.sh)","source_commits":hooks},
 "checks":[], "not_applicable":[]}
for p in props:
    i=p['id']
    if i in BUILT:
        b=BUILT[i]
        m['checks'].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":b['technique'],"level":"exploration","level_note":b['note']})
    else:
        m['not_applicable'].append({"property":i,"reason":"monitor not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
