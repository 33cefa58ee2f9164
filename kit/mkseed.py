#!/usr/bin/env python3
"""mkseed.py SPEC...: writes /verif/seeded/<id>/ from a spec file (kit/src/<id>.py)."""
import json, os, shutil, subprocess, sys, tempfile
KIT = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(KIT)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    sid = os.path.basename(spec)[:-3]
    d = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(d, True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    files = {f for f, _, _ in g["EDITS"]}
    subprocess.check_call(["git", "init", "-q", w])
    for f in files:
        os.makedirs(os.path.dirname(os.path.join(w, f)), exist_ok=True)
        shutil.copy(os.path.join("/repo", f), os.path.join(w, f))
    subprocess.check_call(["git", "-C", w, "add", "-A"])
    for f, old, new in g["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (sid, f, n, old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": g["PROP"], "needs": " ".join(g["NEEDS"].split()), "what_it_breaks": " ".join(g["BREAKS"].split())},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "PY" in g:
        pre = ""
        if "C" in g:
            shutil.copy(os.path.join(KIT, "lfprog.h"), d)
            shutil.copy(os.path.join(KIT, "build.sh"), os.path.join(d, "lfbuild.sh"))
            open(os.path.join(d, "demo.c"), "w").write(g["C"])
            pre = """t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
. "$here/lfbuild.sh"
CONF=%s %s lf_build "$t/demo" "$here/demo.c" "-I$here" %s || exit 4
export PROG=$t/demo
""" % (g.get("CONF", "multi"), g.get("ENV", ""), g.get("FLAGS", ""))
        shutil.copy(os.path.join(KIT, "rtikit.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from rtikit import *\n" + g["PY"] + "\nmain(demo)\n")
        pre += g.get("PRE", "")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n' + pre +
            'PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$here/demo.py"\n')
    else:
        shutil.copy(os.path.join(KIT, "lfprog.h"), d)
        shutil.copy(os.path.join(KIT, "build.sh"), os.path.join(d, "lfbuild.sh"))
        open(os.path.join(d, "demo.c"), "w").write(g["C"])
        open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
. "$here/lfbuild.sh"
CONF=%s %s lf_build "$t/demo" "$here/demo.c" "-I$here" %s || exit 4
cd "$t"
%s
""" % (g.get("CONF", "multi"), g.get("ENV", ""), g.get("FLAGS", ""), g.get("RUN", 'timeout 60 "$t/demo"')))
    print(sid)
