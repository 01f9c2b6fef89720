#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id> from a spec file: a list SEEDS of dicts
id, property, needs, breaks, edits [(file, old, new)], demo (Go test source), pkg (default "."), race."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="mkseed.")
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
        for f, a, b in s["edits"]:
            p = os.path.join(t, "repo", f)
            x = open(p).read()
            assert x.count(a) == 1, (s["id"], f, x.count(a), a)
            open(p, "w").write(x.replace(a, b))
        subprocess.check_call(["gofmt", "-l", "."], cwd=t + "/repo", stdout=subprocess.DEVNULL)
        diff = subprocess.check_output(["git", "diff"], cwd=t + "/repo", text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo_test.go.txt"), "w").write(s["demo"].lstrip())
        pkg = s.get("pkg", ".")
        open(os.path.join(d, "demo.sh"), "w").write(f'''#!/bin/bash
# runs demo_test.go.txt inside the package through an overlay
export CGO_ENABLED=0
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -r "$T"' EXIT
P={pkg}
printf '{{"Replace":{{"%s/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}}}' "$PWD" "$P" "$D" > "$T/overlay.json"
go test -vet=off -overlay "$T/overlay.json" -count=1 -timeout 120s {"-race " if s.get("race") else ""}-run '^TestDemo' "./$P"
''')
        shutil.rmtree(t)
        print(s["id"])
