#!/usr/bin/env python3
"""mkseed.py NAME DIFF PROPERTY REPLAY 'OPTS' 'PARAMS' NEEDS BREAKS: seeded bug with a trace demo built from a replay file."""
import sys, os, json, shutil, subprocess
name, diff, prop, replay, opts, params, needs, breaks = sys.argv[1:9]
d = "/verif/seeded/" + name
os.makedirs(d, exist_ok=True)
shutil.copy(diff, d + "/patch.diff")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
t = open(replay).read()
if "# generated problem" in t:
    t = t[t.index("# generated problem"):].split("---- generated code ----")[0]
open(d + "/in.cloog", "w").write(t)
shutil.copy("/verif/tools/demo/run.py", d + "/run.py")
sort = " | LC_ALL=C sort" if prop in ("C01",) else ""
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Generates code for in.cloog, compiles and runs it, and compares the executed instances with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
set -o pipefail
python3 "$here/run.py" ./_build/cloog "%s" "%s" "$here/in.cloog"%s > "$t/out" || exit 2
diff "$t/out" "$here/expected.txt"
""" % (opts, params, sort))
out = subprocess.run("cd /repo && python3 %s/run.py ./_build/cloog '%s' '%s' %s/in.cloog%s" % (d, opts, params, d, sort), shell=True, stdout=subprocess.PIPE).stdout
open(d + "/expected.txt", "wb").write(out)
print(name, len(out.splitlines()), "lines expected")
