#!/usr/bin/env python3
"""quiet.py [-t] [-k] SPEC... [-- ID...]: applies each behaviour-preserving edit of refactorings/ to a scratch copy and runs every check (or those named) against it; all have to stay quiet
-t: also builds and runs the repository's tests; -k FILE.json keeps the MIR dump"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/quiet/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.75.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/mut/repo/target",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(c, **k):
    p = subprocess.run(c, shell=True, cwd=k.pop("cwd", M), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def main():
    args = sys.argv[1:]
    only = args[args.index("--") + 1:] if "--" in args else []
    args = args[:args.index("--")] if "--" in args else args
    specs = [a for a in args if not a.startswith("-")] or sorted(os.listdir(ROOT + "/refactorings"))
    specs = [s for s in specs if s.endswith(".py")]
    shutil.rmtree("/tmp/quiet", ignore_errors=True)
    os.makedirs("/tmp/quiet")
    subprocess.run(["git", "clone", "-q", "/repo", M], check=True)
    every = only or sorted(c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"])
    for f in specs:
        p = f if os.path.exists(f) else ROOT + "/refactorings/" + os.path.basename(f)
        sp = importlib.util.spec_from_file_location("spec", p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        sh("git checkout -q -f .")
        for fn, old, new in m.EDITS:
            t = open(M + "/" + fn).read()
            if t.count(old) != 1:
                print(f, "edit matches %d times:" % t.count(old), old[:80])
                break
            open(M + "/" + fn, "w").write(t.replace(old, new))
        else:
            name = os.path.basename(f)[:-3]
            if "-t" in args:
                rc, o = sh("cargo test --locked --offline --lib 2>&1", env=ENV)
                rc = "31 passed; 0 failed" not in o
                print(name, "tests", "FAIL\n" + o[-2500:] if rc else "ok", flush=True)
                if rc:
                    continue
            mir = "/tmp/w/mir_%s.json" % name if "-k" in args else "/tmp/quiet/mir.json"
            rc, o = sh("bash %s/check.sh --dump %s %s" % (ROOT, mir, M))
            if rc:
                print(name, "dump failed", o[-1500:])
                continue
            bad, work = [], list(every)
            while work:
                batch, work = work[:8], work[8:]
                ps = [(i, subprocess.Popen(["timeout", "900", "python3", ROOT + "/sa/main.py", i, mir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                           env=dict(os.environ, VERIF_REPO=M, PYTHONHASHSEED="0", VERIF_EVIDENCE="/tmp/quiet/ev", PYTHONDONTWRITEBYTECODE="1"))) for i in batch]
                for i, q in ps:
                    o, _ = q.communicate()
                    if q.returncode:
                        bad.append("%s rc=%d" % (i, q.returncode))
                        print("  " + "\n  ".join(x[:230] for x in o.splitlines()[:6] + o.splitlines()[-1:]))
            print("%-24s %s" % (name, "quiet" if not bad else "ALARMS " + str(bad)), flush=True)
    shutil.rmtree("/tmp/quiet", ignore_errors=True)


main()
