#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, on which the checks must stay quiet.

usage: refactor.py [-c CHECK[,CHECK]] [-a] [-j N] [NAME-PREFIX...]
(-a: the checks of -c on every edit)
Each edit lives in refactor/*.py as  edit(name, checks, [(file, old, new), ...]).
Every edit is applied to a copy of /repo under a scratch directory, built, and checked there.
"""
import os, sys, subprocess, tempfile, shutil, glob, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
EDITS = []
def edit(name, checks, reps): EDITS.append((name, checks.split(), reps))
for f in sorted(glob.glob(here + "/refactor/*.py")):
    exec(compile(open(f).read(), f, "exec"))
only = None; jobs = 4; names = []; tests = False; force = False
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "-c": only = a.pop(0).split(",")
    elif x == "-j": jobs = int(a.pop(0))
    elif x == "-t": tests = True
    elif x == "-a": force = True
    else: names.append(x)
env = dict(os.environ)
for l in subprocess.run(". /opt/vp/env.sh; env", shell=True, capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("="); env[k] = v
SA = os.environ.get("SA", "/tmp/sa")
def run(e):
    name, checks, reps = e
    checks = list(only) if force else [c for c in checks if not only or c in only]
    if not checks: return
    d = tempfile.mkdtemp(prefix="rf.")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for f, old, new in reps:
            p = d + "/repo/" + f
            s = open(p).read() if os.path.exists(p) else ""
            if old == "": s = s + new
            else:
                if old not in s: return (name, "EDIT DOES NOT APPLY: " + old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=d + "/repo", env=env, capture_output=True, text=True)
        if b.returncode: return (name, "BUILD: " + b.stderr[:400])
        if tests:
            b = subprocess.run(["go", "test", "./shamir", "./krawczyk", "./csprng"], cwd=d + "/repo", env=env, capture_output=True, text=True)
            if b.returncode: return (name, "TESTS: " + b.stdout[-600:])
        out = []
        for c in checks:
            v = d + "/v"; os.makedirs(v, exist_ok=True)
            for f in ("properties.jsonl", "KNOWN_FINDINGS.txt"): shutil.copy("/verif/" + f, v)
            e2 = dict(env, VERIF_REPO=d + "/repo", VERIF_DIR=v)
            r = subprocess.run([SA, "check", c, "quick"], env=e2, capture_output=True, text=True)
            l = r.stdout.strip().splitlines()
            out.append(f"{c}={r.returncode} {l[-1].split(' in ')[-1] if l and not r.returncode else ''}" + ("" if r.returncode == 0 else "\n      " + "\n      ".join(x[:400] for x in l[:3])))
        return (name, "; ".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [e for e in EDITS if not names or any(e[0].startswith(n) for n in names)]
with cf.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(run, sel):
        if r: print(r[0], r[1], flush=True)
