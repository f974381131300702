#!/usr/bin/env python3
"""try_bug.py DIR PROP [PROP..]: apply DIR/patch.diff to a copy of /repo, build, run the repository's tests and DIR/demo.sh,
then run the quick checks of the given properties against the copy.  Development aid; no check uses it."""
import os, shutil, subprocess, sys, tempfile, json
d = os.path.abspath(sys.argv[1]); props = sys.argv[2:]
w = tempfile.mkdtemp(prefix="try-"); r = os.path.join(w, "repo")
try:
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    def sh(c, cwd=r, t=900, **kw):
        p = subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", **kw); return p.returncode, p.stdout
    build = "make -B -s -j8 CC=gcc all >b.log 2>&1; c=$?; grep -iE \"error:|warning:\" b.log | head -5; rm -f b.log; exit $c"
    demo = os.path.join(d, "demo.sh")
    if os.path.exists(demo):
        c, o = sh("bash %s" % demo, t=300); print("demo clean:", c, o.strip()[-200:] if c else "")
    c, o = sh("git apply %s/patch.diff" % d)
    if c: print("patch does not apply", o); sys.exit(1)
    c, o = sh(build); print("build:", c, o[-300:])
    tests = json.load(open("/opt/vp/BASELINE.json"))
    c, o = sh("make -s test 2>&1 | tail -5; exit ${PIPESTATUS[0]}", t=300); print("make test:", c, o.strip()[-200:] if c else "")
    if os.path.exists(demo):
        try:
            c, o = sh("bash %s" % demo, t=300); print("demo patched:", c, o.strip()[-200:])
        except subprocess.TimeoutExpired: print("demo patched: TIMEOUT")
    for p in props:
        e = dict(os.environ, DHARA_REPO=r)
        c, o = sh("timeout 900 python3 check.py %s quick" % p, cwd="/verif", env=e)
        print(p, "exit", c, "|", " / ".join(l for l in o.splitlines() if l.startswith(("VIOLATION", "counterexample", "ERROR")))[:400])
finally:
    shutil.rmtree(w)
