#!/usr/bin/env python3
# Regenerates MANIFEST.json: every property of properties.jsonl is claimed unless listed in TODO.
import json,subprocess
TODO={}
NOTES={
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import re
import glob
src=''.join(open(f).read() for f in glob.glob('/verif/harness/src/props/*.rs'))
have=set(re.findall(r'Prop \{\s*id: "(C\d\d)"',src))
checks=[];na=[]
for p in props:
    i=p['id']
    if i not in have:
        na.append({"property":i,"reason":"no check registered yet (under construction)"});continue
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
      "technique":"stateless model checking of the real library: exhaustive enumeration of environment choices (deviation-bounded DFS) over a simulated kernel and robot",
      "level":"model_checking",
      "level_note":"Every execution of the bounded space runs the real code from /repo; bounds, number of executions, choice points and states are in the evidence file. Outside the bounds nothing is claimed."})
m={"version":1,"setup_cmd":"bash check.sh build","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo are needed: the harness interposes libc calls of the unmodified crate. fix: commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write("\n")
print(len(checks),len(na))
