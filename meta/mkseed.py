"""mkseed.py SPEC: writes seeded/<id>/ from a spec module (development aid)"""
import json, os, subprocess, sys, tempfile, shutil
def seed(id, prop, file, reps, needs, breaks, demo):
    d = os.environ.get("VROOT","/verif")+"/seeded/" + id
    os.makedirs(d, exist_ok=True)
    files = file if isinstance(file, list) else [file]
    reps = reps if isinstance(file, list) else [reps]
    w = tempfile.mkdtemp()
    diff = ""
    subprocess.run(["git", "init", "-q", w]); 
    for f, rs in zip(files, reps):
        s = subprocess.run(["git", "-C", os.environ.get("RROOT","/repo"), "show", "HEAD:" + f], capture_output=True, text=True).stdout
        p = os.path.join(w, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(s)
    subprocess.run("git add -A; git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=w)
    for f, rs in zip(files, reps):
        p = os.path.join(w, f); s = open(p).read()
        for a, b in rs:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\nexec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
