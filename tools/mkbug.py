#!/usr/bin/env python3
"""mkbug.py SPEC.py...: makes /verif/seeded/<id> from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO), after confirming in a scratch copy that the
change builds, passes the unit tests, and is told apart by the demo. With -c also runs the checks against it."""
import json
import os
import shutil
import subprocess
import sys

M = "/tmp/mut/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.75.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=M + "/target",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(cmd, cwd=M, env=ENV):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def fresh():
    if not os.path.isdir(M):
        os.makedirs("/tmp/mut", exist_ok=True)
        sh("cp -a /repo " + M, cwd="/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")


def demo(d):
    return sh("bash %s/demo.sh" % d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    fresh()
    rc, o = sh("cargo build --locked --offline")
    assert rc == 0, o
    specs = []
    for f in args:
        g = {}
        exec(open(f).read(), g)
        specs.append(g)
    good = []
    for g in specs:
        d = "/tmp/mut/new/" + g["ID"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(ROOT + "/demo/harness.rs", d)
        shutil.copy(ROOT + "/demo/demo.sh", d)
        open(d + "/demo.rs", "w").write('include!("harness.rs");\n' + g["DEMO"].strip() + "\n")
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = demo(d)
        if rc != 0:
            print(g["ID"], "DEMO FAILS ON CLEAN TREE", rc, o[-1500:])
            continue
        good.append(g)
    for g in good:
        d = "/tmp/mut/new/" + g["ID"]
        sh("git checkout -q -f .")
        ok = True
        for f, a, b in g["EDITS"]:
            p = M + "/" + f
            s = open(p).read()
            if s.count(a) != 1:
                print(g["ID"], "edit text found %d times in %s: %r" % (s.count(a), f, a[:80]))
                ok = False
                break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        sh("git diff > %s/patch.diff" % d)
        rc, o = sh("cargo build --locked --offline")
        if rc:
            print(g["ID"], "DOES NOT BUILD", o[-1500:])
            continue
        rc, o = demo(d)
        if rc == 0:
            print(g["ID"], "DEMO PASSES WITH THE BUG")
            continue
        if rc != 1:
            print(g["ID"], "demo rc", rc, o[-500:])
            continue
        dm = o.strip().splitlines()[-3:]
        rc, o = sh("cargo test --locked --offline --lib 2>&1 | grep -E '^test result|FAILED|failed'")
        if "31 passed; 0 failed" not in o:
            print(g["ID"], "TESTS:", o[-600:])
            continue
        out = ROOT + "/seeded/" + g["ID"]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print(g["ID"], "kept;", " | ".join(dm))
        if "-c" in sys.argv:
            check(g["ID"], g["PROP"], "-a" in sys.argv)
    sh("git checkout -q -f .")


def check(id, prop, every=False):
    env = dict(os.environ)
    rc, o = sh("bash %s/check.sh --dump /tmp/mut/mir.json %s" % (ROOT, M), env=env)
    if rc:
        print("  dump failed", o[-500:])
        return
    ids = [prop]
    if every:
        ids = sorted(c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"])
    hits = []
    procs = [(i, subprocess.Popen(["python3", ROOT + "/sa/main.py", i, "/tmp/mut/mir.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  env=dict(os.environ, VERIF_REPO=M, PYTHONHASHSEED="0", VERIF_EVIDENCE="/tmp/mut/ev", PYTHONDONTWRITEBYTECODE="1"))) for i in ids]
    for i, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            hits.append(i if p.returncode == 1 else i + "(rc%d)" % p.returncode)
            if i == prop:
                print("   ", "\n    ".join(o.strip().splitlines()[1:4]))
            if p.returncode == 2:
                print(o[-800:])
    print("  %s caught by own=%s; all: %s" % (id, prop in hits, hits))


if __name__ == "__main__":
    main()
