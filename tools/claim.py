"""claim.py PID TECHNIQUE NOTE: registers a check in claims.json and regenerates the manifest."""
import json, subprocess, sys, os
d = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(d, 'claims.json')
j = json.load(open(f))
j['claimed'][sys.argv[1]] = [sys.argv[2], sys.argv[3]]
j['claimed'] = dict(sorted(j['claimed'].items()))
j['na'].pop(sys.argv[1], None)
json.dump(j, open(f, 'w'), indent=1)
subprocess.run([sys.executable, os.path.join(d, 'mkmanifest.py')], check=True)
