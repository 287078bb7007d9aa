#!/usr/bin/env python3
"""mkplant.py: reads a Python literal dict from stdin: id, property, needs, breaks, edits=[(file, old, new)], demo (Go test body)."""
import sys, os, json, subprocess, shutil, ast
d = eval(sys.stdin.read(), {"dict": dict})
r = "/tmp/mkplant"
subprocess.run(["rm", "-rf", r]); subprocess.run(["cp", "-a", "/repo", r], check=True)
for f, a, b in d["edits"]:
    p = os.path.join(r, f); s = open(p).read()
    assert s.count(a) >= 1, (f, a)
    assert s.count(a) == 1, ("not unique", f, a, s.count(a))
    open(p, "w").write(s.replace(a, b))
diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
o = "/verif/seeded/" + d["id"]
os.makedirs(o, exist_ok=True)
open(o + "/patch.diff", "w").write(diff)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo.sh", o + "/demo.sh")
imports = '"testing"' + "".join('\n\t"%s"' % i for i in d.get("imports", []))
open(o + "/demo_test.go", "w").write("package parser\n\nimport (\n\t%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (imports, d["demo"]))
subprocess.run(["rm", "-rf", r])
