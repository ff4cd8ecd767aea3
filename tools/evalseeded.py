"""evalseeded.py [ids]: runs the quick check of each planted bug's property against a patched copy of /repo and records in
tools/caught.json which sub-checks report it. A development tool; no check uses it or /verif/seeded."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "caught.json")
for i in sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="ev-") + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", w])
        subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
        r = subprocess.run(["./check", prop, "quick"], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=w))
    finally:
        shutil.rmtree(os.path.dirname(w), ignore_errors=True)
    subs = sorted(set(re.findall(rf"VIOLATION property={prop} replay=\S*/{prop}-(\w+)-\d+\.json", r.stdout)))
    print(i, prop, "rc", r.returncode, subs, flush=True)
    c = json.load(open(OUT)) if os.path.exists(OUT) else {}
    c[i] = subs if r.returncode == 1 else []
    json.dump(dict(sorted(c.items())), open(OUT, "w"), indent=0)
