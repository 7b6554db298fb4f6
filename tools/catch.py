#!/usr/bin/env python3
"""Which checks catch which planted bug: applies each patch to a scratch copy
and runs the checks against it. catch.py [-a] [ID...]; -a runs every check,
otherwise the one of the bug's property."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(root + "/seeded"))
subprocess.check_call([root + "/build.sh"])
props = [c["property"] for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
def one(i):
    d = root + "/seeded/" + i
    scratch = "/tmp/w/catch-%s" % i
    vv = "/tmp/w/catchv-%s" % i
    shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(vv, ignore_errors=True)
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", scratch])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=scratch)
        os.makedirs(vv); shutil.copy(root + "/KNOWN_FINDINGS.txt", vv)
        own = json.load(open(d + "/meta.json"))["property"]
        hit = []
        for p in (props if every else [own]):
            r = subprocess.run([root + "/bin/bondcheck", "-property", p, "-repo", scratch, "-verif", vv], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                rules = sorted({l.split(": rule ")[1].split(":")[0] for l in r.stdout.splitlines() if ": rule " in l})
                hit.append("%s(%s)" % (p, ",".join(rules)))
            elif r.returncode:
                hit.append(p + "(exit %d)" % r.returncode)
        return i, own, hit
    finally:
        shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(vv, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for i, own, hit in ex.map(one, ids):
        ok = any(h.startswith(own) for h in hit)
        print("%-34s %-5s %s %s" % (i, own, "caught" if ok else "MISSED", " ".join(hit)), flush=True)
