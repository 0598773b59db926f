#!/usr/bin/env python3
"""bugmatrix.py [-o] [ID ...]: applies each planted bug to a scratch copy and runs every check (-o: only its own) against it"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
M = "/tmp/mat/repo"


def sh(c, **k):
    p = subprocess.run(c, shell=True, cwd=k.pop("cwd", M), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    shutil.rmtree("/tmp/mat", ignore_errors=True)
    os.makedirs("/tmp/mat")
    subprocess.run(["git", "clone", "-q", "/repo", M], check=True)
    every = sorted(c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"])
    out = HERE + "/matrix.json"
    res = json.load(open(out)) if os.path.exists(out) else {}
    for b in ids:
        prop = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))["property"]
        sh("git checkout -q -f .")
        rc, o = sh("git apply %s/seeded/%s/patch.diff" % (ROOT, b))
        if rc:
            print(b, "DOES NOT APPLY", o)
            continue
        rc, o = sh("bash %s/check.sh --dump /tmp/mat/mir.json %s" % (ROOT, M))
        if rc:
            print(b, "dump failed", o[-300:])
            continue
        props = [prop] if "-o" in sys.argv else every
        hits = []
        work = list(props)
        while work:
            batch, work = work[:8], work[8:]
            ps = [(i, subprocess.Popen(["python3", ROOT + "/sa/main.py", i, "/tmp/mat/mir.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       env=dict(os.environ, VERIF_REPO=M, PYTHONHASHSEED="0", VERIF_EVIDENCE="/tmp/mat/ev", PYTHONDONTWRITEBYTECODE="1"))) for i in batch]
            for i, p in ps:
                o, _ = p.communicate()
                if p.returncode:
                    hits.append(i if p.returncode == 1 else i + "(rc%d)" % p.returncode)
                    if p.returncode == 2:
                        print(o[-800:])
                    elif "-v" in sys.argv:
                        print("\n".join("    " + x for x in o.splitlines()[:8]))
        print("%-26s %s  %s" % (b, "CAUGHT" if prop in hits else "MISSED by " + prop, hits), flush=True)
        res[b] = hits
        json.dump(res, open(out, "w"), indent=0, sort_keys=True)
    shutil.rmtree("/tmp/mat", ignore_errors=True)


main()
