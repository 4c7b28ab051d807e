"""Run the quick check of its property against each stored bug: replant.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = tempfile.mkdtemp(prefix="replant-")
S = os.path.join(D, "repo")
try:
    for b in sorted(os.listdir(HERE + "/seeded")):
        if sys.argv[1:] and b not in sys.argv[1:]:
            continue
        shutil.rmtree(S, ignore_errors=True)
        shutil.copytree("/repo", S, symlinks=True)
        p = json.load(open(HERE + "/seeded/" + b + "/meta.json"))["property"]
        if subprocess.run(["git", "-C", S, "apply", HERE + "/seeded/" + b + "/patch.diff"]).returncode:
            print(b, "DOES NOT APPLY")
            continue
        c = subprocess.run(["/opt/venv/bin/python", "-B", HERE + "/check.py", "--property", p],
                           env=dict(os.environ, VERIF_REPO=S), capture_output=True, text=True)
        print(b, p, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED rc=%d" % c.returncode,
              (c.stdout.strip().splitlines() or [""])[-1][-60:], flush=True)
finally:
    shutil.rmtree(D, ignore_errors=True)
