#!/usr/bin/env python3
"""Run the checks named by each entry of mutants.py on a scratch copy with that change.
   campaign.py [-j N] [-t] [NAME...]     -t: run the tests of the repository too (slow)"""
import concurrent.futures, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mutants
a = sys.argv[1:]
j = 2
if a and a[0] == "-j":
    j = int(a[1]); a = a[2:]
def put(repo, edits):
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            return "pattern occurs %d times in %s" % (s.count(old), f)
        open(p, "w", newline="").write(s.replace(old, new))
def one(m, want):
    name, props, f, old, new = m
    d = tempfile.mkdtemp(prefix="trial-")
    out = []
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        e = put(r, [(f, old, new)])
        if e:
            return ["?? %s %s" % (name, e)]
        for p in props.split():
            t = time.time()
            q = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r))
            o = q.stdout.decode(errors="replace").splitlines()
            ok = q.returncode == want
            out.append("%s %s %s exit %d %.0fs | %s" % ("ok" if ok else "MISS" if want else "FALSE" if q.returncode == 1 else "ERR", name, p,
                       q.returncode, time.time() - t, "" if ok else " ".join(o[-2:])[:300]))
            if not ok:
                out[-1] += " " + " ".join(x for x in o if "error:" in x)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
jobs = [(m, 1) for m in mutants.MUTANTS] + [(m, 0) for m in mutants.SAME]
jobs = [x for x in jobs if not a or x[0][0] in a]
if __name__ == "__main__":
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for r in concurrent.futures.as_completed([ex.submit(one, *x) for x in jobs]):
            for l in r.result():
                print(l, flush=True)
