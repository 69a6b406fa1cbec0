#!/usr/bin/env python3
"""Try a change on a scratch copy of the repository.
   trial.py [-R COMMIT | PATCH] PROPERTY...   prints each check's verdict"""
import os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
d = tempfile.mkdtemp(prefix="trial-")
try:
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    if a[0] == "-R":
        p = subprocess.run(["git", "-C", "/repo", "show", a[1]], stdout=subprocess.PIPE, check=True).stdout
        subprocess.run(["git", "-C", r, "apply", "-R", "-"], input=p, check=True)
        a = a[2:]
        name = "revert"
    else:
        subprocess.run(["git", "-C", r, "apply", os.path.abspath(a[0])], check=True)
        name = a[0]
        a = a[1:]
    for p in a:
        t = time.time()
        q = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r))
        o = q.stdout.decode(errors="replace").splitlines()
        print(name, p, "exit", q.returncode, "%.0fs" % (time.time() - t), "|", " ".join(o[-2:])[:int(os.environ.get("W","300"))], flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
