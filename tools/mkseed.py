"""mkseed.py: helper to write a planted bug: edits on a scratch copy -> patch.diff."""
import json, os, subprocess, sys, textwrap
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package {pkg} of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
cd "$repo"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{{\\"Replace\\":{{\\"$repo/{pkg}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}" > "$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZZDemo' ./{pkg}
'''
def seed(id, prop, needs, breaks, edits, pkg, demo, sh=None, extra=None):
    # pkg "world": the demo is package identity_test, with the helpers of tools/demoworld
    w = "/tmp/mkseed"; subprocess.run(["rm", "-rf", w]); 
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = f"{w}/{f}"; s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    if pkg == "world":
        subprocess.run(["cp", "-r", "/verif/tools/demoworld/.", d], check=True); sh = open(d + "/demo.sh").read()
    open(d + "/demo.sh", "w").write(sh or DEMO.format(pkg=pkg)); os.chmod(d + "/demo.sh", 0o755)
    if demo: open(d + "/demo_test.go", "w").write(demo)
    for k, v in (extra or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{k}"), exist_ok=True); open(f"{d}/{k}", "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", w])
