#!/usr/bin/env python3
"""
Plant a bug in a scratch copy of /repo, confirm it (tests pass, demo 0 on the clean tree and not 0 with
the bug), then keep it under seeded/.  Used by hand only, no check reads it.

usage: mkseed.py DIR   with DIR/seed.py defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python)
"""
import json
import os
import shutil
import subprocess
import sys

HEAD = '''# -*- coding: utf-8 -*-
import os
import tempfile

_tmp = tempfile.TemporaryDirectory()
TMP = _tmp.name
os.environ["NUMBA_CACHE_DIR"] = os.path.join(TMP, "numba")
os.environ["MPLCONFIGDIR"] = os.path.join(TMP, "mpl")
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main(spec):
    ns = dict()
    exec(open(spec).read(), ns)
    name = ns["ID"]
    out = f"/verif/seeded/{name}"
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    work = f"/tmp/seedwork/{name}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    open(f"{out}/demo.py", "w").write(HEAD + ns["DEMO"])
    open(f"{out}/demo.sh", "w").write(SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    r = sh([f"{out}/demo.sh"], cwd="/repo")
    ok = r.returncode == 0
    print("clean demo", r.returncode, (r.stdout + r.stderr)[-400:] if not ok else "")
    for f, old, new in ns["EDITS"]:
        s = open(f"/repo/{f}").read()
        nb = s.count(old)
        if nb != 1:
            sh("git -C /repo checkout -- .")
            sys.exit(f"{nb} matches of {old!r} in {f}")
        b = sh(["git", "-C", "/repo", "show", f"{base}:{f}"]).stdout
        for line in old.splitlines():
            if line.strip() and line not in b and line not in new:
                sh("git -C /repo checkout -- .")
                sys.exit(f"not an original line: {line}")
        open(f"/repo/{f}", "w").write(s.replace(old, new))
    try:
        diff = sh("git -C /repo diff").stdout
        r = sh([f"{out}/demo.sh"], cwd="/repo")
        bad = r.returncode != 0
        print("bug demo", r.returncode, (r.stdout + r.stderr)[-300:])
        t = sh("bash /opt/vp/test.sh /tmp/seedwork/out.json | tail -1").stdout.strip() if ok and bad else "skipped"
        print("tests", t)
        good = ok and bad and t.startswith("23 passed, 0 failed")
        if good:
            open(f"{out}/patch.diff", "w").write(diff)
            json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
            c = sh(["/verif/check", ns["PROPERTY"]], cwd="/verif")
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print("check", ns["PROPERTY"], "exit", c.returncode, "CAUGHT" if v and c.returncode == 1 else "MISSED", v[:1])
        else:
            shutil.rmtree(out)
            print("REJECTED")
    finally:
        sh("git -C /repo checkout -- .")


for s in sys.argv[1:]:
    print("==", s)
    main(s)
