#!/usr/bin/env python3
"""shim.py ROOT OUT.c: wrap the public inline helpers of ROOT/include/kripto (rotate.h and
loadstore.h) into a table, so that a build of them can be loaded and called by the monitor."""
import re, sys

def main(root, out):
    o = ["#include <stdint.h>", "#include <stddef.h>"]
    ent, inc = [], []
    for h in ("rotate", "loadstore"):
        try:
            s = open("%s/include/kripto/%s.h" % (root, h), errors="replace").read()
        except OSError:
            continue
        inc.append("#include <kripto/%s.h>" % h)
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        for m in re.finditer(r"(RO[LR])(8|16|32|64)(?:_(\d+))?\s*\(\s*(?:const\s+)?uint\d+_t\s+\w+\s*(,)?", s):
            d, w, k, var = m.group(1), int(m.group(2)), m.group(3), m.group(4)
            n = m.group(0).split("(")[0].strip()
            ent.append('{"%s", %d, %d, %d, (void *)w_%s},' % (n, 0 if d == "ROL" else 1, w, int(k) if k else -1, n))
            o.append("static uint64_t w_%s(uint64_t x, unsigned int r) { return %s((uint%d_t)x%s); }" % (n, n, w, ", r" if var else ""))
        for m in re.finditer(r"(LOAD|STORE)(16|32|64)([LB])(_ARRAY)?\s*\(\s*const\s+(?:void|uint)", s):
            op, w, e, a = m.group(1), int(m.group(2)), m.group(3), m.group(4) or ""
            n = op + m.group(2) + e + a
            kind = {("LOAD", ""): 2, ("STORE", ""): 3, ("LOAD", "_ARRAY"): 4, ("STORE", "_ARRAY"): 5}[op, a]
            ent.append('{"%s", %d, %d, %d, (void *)w_%s},' % (n, kind, w, e == "B", n))
            o.append({2: "static uint64_t w_%s(const void *p) { return %s(p); }",
                      3: "static void w_%s(uint64_t x, void *p) { %s(x, p); }",
                      4: "static void w_%s(const void *p, void *d, unsigned int n) { %s(p, d, n); }",
                      5: "static void w_%s(const void *p, unsigned int k, void *d, unsigned int n) { %s(p, k, d, n); }"}[kind] % (n, n))
    o[2:2] = inc
    o.append("const struct { const char *name; int kind, width, k; void *fn; } kv_shim[] = {\n" + "\n".join(ent) + "\n{0, 0, 0, 0, 0}};")
    open(out, "w").write("\n".join(o) + "\n")

main(*sys.argv[1:3])
