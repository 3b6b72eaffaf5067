#!/usr/bin/env python3
"""mkcdemo.py NAME DIFF PROPERTY demo.c NEEDS BREAKS: seeded bug whose demo is a C program linked with the built library.
demo.c exits 0 when the behaviour is right."""
import sys, os, json, shutil
name, diff, prop, src, needs, breaks = sys.argv[1:7]
d = "/verif/seeded/" + name
os.makedirs(d, exist_ok=True)
shutil.copy(diff, d + "/patch.diff")
shutil.copy(src, d + "/demo.c")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Compiles demo.c with the built library and runs it; demo.c exits 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
lib=$(find "$PWD/_build" -name libcloog-isl.a | head -1)
gcc -w -g -o "$t/demo" -I_build/include -Iinclude "$here/demo.c" "$lib" -lisl -lgmp || exit 2
cd "$t" && timeout 60 "$t/demo"
""")
