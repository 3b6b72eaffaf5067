#!/usr/bin/env python3
"""Build the code under test from /repo's working tree together with the harness.

  build.py CONFIG...     CONFIG in fast, san, cli, cli-san; prints nothing on success

Objects are cached by content hash in /verif/build (git-ignored), so a changed
working tree is always rebuilt and an unchanged one is not.
"""
import hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, "build"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
CONFIGS = {
    "fast": dict(c=["-O2", "-g"], cxx=["-O1", "-g"], ld=[]),
    "san": dict(c=["-O1", "-g"] + SAN, cxx=["-O1", "-g", "-DVH_SAN"] + SAN, ld=SAN),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(path, data):
    if os.path.exists(path) and read(path) == data:
        return
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def gen_headers():
    """The headers that configure would generate (GMP integers, version)."""
    inc = os.path.join(BUILD, "include")
    os.makedirs(os.path.join(inc, "cloog"), exist_ok=True)
    t = read(os.path.join(REPO, "include/cloog/int.h.in")).decode()
    write_if_changed(os.path.join(inc, "cloog/int.h"), t.replace("@CLOOG_INT_CONFIGURE@", "CLOOG_INT_GMP").encode())
    ac = read(os.path.join(REPO, "configure.ac")).decode(errors="replace")
    ver = {}
    for k in ("MAJOR", "MINOR", "REVISION"):
        m = re.search(r"m4_define\(\[version_%s\],\s*\[(\d+)" % k.lower(), ac)
        ver[k] = m.group(1) if m else "0"
    t = read(os.path.join(REPO, "include/cloog/version.h.in")).decode()
    for k, v in ver.items():
        t = t.replace("@VERSION_%s@" % k, v)
    write_if_changed(os.path.join(inc, "cloog/version.h"), t.encode())
    head = "%s.%s.%s" % (ver["MAJOR"], ver["MINOR"], ver["REVISION"])
    write_if_changed(os.path.join(inc, "version.h"), ('#define CLOOG_HEAD "%s-verif"\n' % head).encode())
    t = read(os.path.join(REPO, "source/version.c.in")).decode()
    write_if_changed(os.path.join(inc, "version.c"), t.replace("@BITS@", "gmp").encode())
    return inc


def repo_sources():
    skip = {"cloog.c", "mp_get_memory_functions.c"}
    out = []
    for d in ("source", "source/isl"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and f not in skip:
                out.append(os.path.join(REPO, d, f))
    return out


def headers_hash(dirs):
    parts = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(".h"):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, d), read(p)]
    return sha(*parts)


WRAPPED = ["isl_set_coalesce", "isl_set_compute_divs", "isl_set_detect_equalities", "isl_set_remove_divs_involving_dims",
           "isl_set_gist", "isl_basic_set_gist", "isl_set_subtract", "isl_set_convex_hull", "isl_set_simple_hull",
           "isl_set_affine_hull", "isl_basic_set_remove_redundancies", "isl_set_dim_residue_class_val"]
WRAP = ["-Wl,--wrap=" + w for w in WRAPPED]


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def compile_one(args):
    cmd, obj = args
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d.o" % os.getpid()
    run(cmd + ["-o", tmp])
    os.replace(tmp, obj)


def build(config):
    """Returns (harness binary, cloog command line binary)."""
    cfg = CONFIGS[config]
    inc = gen_headers()
    od = os.path.join(BUILD, "obj-" + config)
    os.makedirs(od, exist_ok=True)
    hh = headers_hash([inc, os.path.join(REPO, "include"), os.path.join(REPO, "source")])
    base = ["-I", inc, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "source")]
    jobs, lib, main_o = [], [], None
    for src in repo_sources() + [os.path.join(inc, "version.c"), os.path.join(REPO, "source/cloog.c")]:
        cmd = ["gcc", "-std=gnu11", "-w"] + cfg["c"] + base + ["-c", src]
        obj = os.path.join(od, os.path.basename(src)[:-2] + "-" + sha(hh, read(src), " ".join(cmd)) + ".o")
        jobs.append((cmd, obj))
        if src.endswith("source/cloog.c"):
            main_o = obj
        else:
            lib.append(obj)
    vs = os.path.join(VERIF, "src")
    vh = headers_hash([vs])
    har = []
    for f in sorted(os.listdir(vs)):
        if not f.endswith(".cc"):
            continue
        src = os.path.join(vs, f)
        cmd = ["g++", "-std=gnu++17", "-w"] + cfg["cxx"] + base + ["-c", src]
        obj = os.path.join(od, "h_" + f[:-3] + "-" + sha(hh, vh, read(src), " ".join(cmd)) + ".o")
        jobs.insert(0, (cmd, obj))
        har.append(obj)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(compile_one, jobs))
    libs = ["-lisl", "-lgmp"]
    key = sha(*(lib + har + cfg["ld"] + WRAP))
    vhbin = os.path.join(od, "vh-" + key)
    if not os.path.exists(vhbin):
        run(["g++"] + cfg["ld"] + WRAP + har + lib + libs + ["-ldl", "-lpthread", "-rdynamic", "-o", vhbin + ".tmp"])
        os.replace(vhbin + ".tmp", vhbin)
    cli = os.path.join(od, "cloog-" + sha(*(lib + [main_o] + cfg["ld"])))
    if not os.path.exists(cli):
        run(["gcc"] + cfg["ld"] + [main_o] + lib + libs + ["-o", cli + ".tmp"])
        os.replace(cli + ".tmp", cli)
    return vhbin, cli


if __name__ == "__main__":
    for c in sys.argv[1:] or ["fast", "san"]:
        print(*build(c))
