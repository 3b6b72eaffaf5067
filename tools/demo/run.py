#!/usr/bin/env python3
"""run.py CLOOG 'OPTIONS' 'M=3 N=2' in.cloog: generate code, compile it, print the executed instances."""
import re, subprocess, sys, tempfile, os, shutil
cloog, opts, params, inp = sys.argv[1:5]
t = tempfile.mkdtemp()
try:
    code = subprocess.run([cloog] + opts.split() + [inp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100).stdout.decode()
    vs = sorted(set(re.findall(r"for \((\w+)=", code)) | set(re.findall(r"^\s*(\w+) = ", code, re.M)))
    c = "#include <stdio.h>\n#include <stdarg.h>\n"
    c += "#define floord(n,d) (((n)<0) ? -((-(n)+(d)-1)/(d)) : (n)/(d))\n#define ceild(n,d) (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))\n"
    c += "#define max(x,y) ((x) > (y) ? (x) : (y))\n#define min(x,y) ((x) < (y) ? (x) : (y))\n"
    for s in sorted(set(re.findall(r"\b(S\d+)\b", code))):
        c += '#define %s(...) tr("%s", (long[]){0,##__VA_ARGS__}, sizeof((long[]){0,##__VA_ARGS__})/sizeof(long))\n' % (s, s)
    c += "static long cnt;\nvoid exit(int);\nstatic void tr(const char *s, long *a, int n) { printf(\"%s\", s); for (int i = 1; i < n; i++) printf(\" %ld\", a[i]); printf(\"\\n\"); if (++cnt > 3000) { printf(\"...\\n\"); exit(0); } }\n"
    c += "int main(void) {\n"
    for p in params.split():
        c += "long %s;\n" % p
    for v in vs:
        c += "long %s;\n" % v
    c += code + "\nreturn 0;}\n"
    open(t + "/a.c", "w").write(c)
    subprocess.run(["gcc", "-w", "-o", t + "/a", t + "/a.c"], check=True)
    r = subprocess.run(["timeout", "20", t + "/a"], stdout=subprocess.PIPE)
    sys.stdout.write(r.stdout.decode())
    sys.exit(0 if r.returncode == 0 else 3)
finally:
    shutil.rmtree(t, ignore_errors=True)
