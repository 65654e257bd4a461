#!/usr/bin/env python3
"""iface.py ROOT LIB ORDER OUT: a program part that uses the public headers of ROOT, included in an
order chosen by ORDER, and lists every function and object they declare with the address the
linker gave it (weakly, so a missing one is 0), the version, and the global names of LIB."""
import glob, os, random, re, subprocess, sys

def decls(root, h):
    """what the header declares, comments, directives and bodies of inline functions taken away"""
    s = open(h, errors="replace").read()
    s = re.sub(r"/\*.*?\*/|//[^\n]*", " ", s, flags=re.S)
    s = re.sub(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*", " ", s, flags=re.M)
    while True:
        t = re.sub(r"\{[^{}]*\}", ";", s)
        if t == s:
            break
        s = t
    for d in s.split(";"):
        d = " ".join(d.split())
        d = re.sub(r'extern "C"', "extern", d)
        if re.search(r"\b(typedef|static|struct \w+$)", d) or "kripto_" not in d:
            continue
        m = re.match(r"(?:extern )?[^()]*?\b(kripto_\w+) ?\(", d)
        if m:
            yield m.group(1), 1
        elif d.startswith("extern "):
            m = re.search(r"\b(kripto_\w+)(?: ?\[[^\]]*\])*$", d)
            if m:
                yield m.group(1), 0

def main(root, lib, order, out):
    inc = root + "/include"
    base = ["kripto/%s.h" % b for b in ("block", "stream", "hash", "mac", "ae")]
    hs = sorted(os.path.relpath(h, inc) for h in glob.glob(inc + "/kripto/**/*.h", recursive=True))
    rest = [h for h in hs if h not in base]
    r = random.Random(int(order))
    r.shuffle(base)
    r.shuffle(rest)
    if int(order) % 3 == 2:
        rest += rest[:20]       # including twice changes nothing
    names = {}
    for h in hs:
        for n, f in decls(root, inc + "/" + h):
            names[n] = (f, h)
    syms = []
    for l in subprocess.run(["nm", "-D", "--defined-only", lib], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and f[1].isupper():
            syms.append((f[2].split("@")[0], f[1]))
    o = ["#include <stddef.h>", "#include <stdint.h>", "#ifdef __cplusplus", 'extern "C" {', "#endif"]
    o += ["#include <%s>" % h for h in base + rest]
    o += ["#pragma weak %s" % n for n in sorted(names)]
    o.append("struct kv_ent { const char *name, *where; int func; const void *at; };")
    o.append("extern const struct kv_ent kv_iface[];\nextern const char *const kv_syms[];\nextern const unsigned int kv_version[];\nextern unsigned int kv_lib_version(int);")
    o.append("const struct kv_ent kv_iface[] = {")
    o += ['{"%s", "%s", %d, (const void *)&%s},' % (n, h, f, n) for n, (f, h) in sorted(names.items())]
    o.append("{0, 0, 0, 0}};\nconst char *const kv_syms[] = {")
    o += ['"%s %s",' % s for s in sorted(syms)]
    o.append("0};\nconst unsigned int kv_version[] = {KRIPTO_VERSION_MAJOR, KRIPTO_VERSION_MINOR, KRIPTO_VERSION_REVISION};")
    o.append("unsigned int kv_lib_version(int i) { return i == 0 ? kripto_version_major : i == 1 ? kripto_version_minor : kripto_version_revision; }")
    o += ["#ifdef __cplusplus", "}", "#endif"]
    open(out, "w").write("\n".join(o) + "\n")

main(*sys.argv[1:5])
