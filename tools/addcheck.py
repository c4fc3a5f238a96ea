"""tools/addcheck.py ID "note" : register a check in tools/checks.json and regenerate properties and manifest"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(R, "checks.json")
d = json.load(open(p))
d[sys.argv[1]] = {"technique": "TLA+ model checking; enumerated cases of a TLA+ specification replayed into the code, recorded events validated by TLC as traces", "note": sys.argv[2]}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
for t in ("mkprops.py", "mkmanifest.py"):
    subprocess.check_call([sys.executable, os.path.join(R, t)])
