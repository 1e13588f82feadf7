#!/usr/bin/env python3
"""Writes harness/bitfields.h: structures of bit-fields of every width, at many positions, for every base type."""
import os
bases = [("int8_t", 8), ("uint8_t", 8), ("int16_t", 16), ("uint16_t", 16), ("int32_t", 32), ("uint32_t", 32), ("int64_t", 64), ("uint64_t", 64),
         ("mr_int128_t", 128), ("mr_uint128_t", 128)]
W64 = list(range(1, 17)) + [17, 20, 23, 24, 25, 29, 31, 32, 33, 34, 39, 40, 41, 47, 48, 55, 56, 57, 62, 63, 64]
W128 = [1, 5, 8, 17, 31, 33, 63, 64, 65, 71, 72, 80, 96, 100, 120, 121, 126, 127, 128]
out = ["/* generated by lib/gen_bitfields.py */"]
setters = []
for b, bits in bases:
    ws = list(range(1, bits + 1)) if bits <= 32 else W64 if bits == 64 else W128
    for kind in ("up", "down", "odd"):
        fs = list(ws)
        if kind == "down":
            fs.reverse()
        if kind == "odd":
            fs = [w for p in zip(ws, reversed(ws)) for w in p][:len(ws)]
            fs = [3 if bits > 3 else 1] + fs
        if bits == 32:  # keep declarations of moderate size
            parts = [fs[:len(fs) // 2], fs[len(fs) // 2:]]
        else:
            parts = [fs]
        for k, part in enumerate(parts):
            name = "bf_%s_%s%d" % (b.replace("mr_", "").replace("_t", ""), kind, k)
            mem = ["(%s, m%d, : %d)" % (b, i, w) for i, w in enumerate(part)]
            out.append("TYPEDEF_STRUCT (%s, (char, head), %s, (char, tail))" % (name, ", ".join(mem)))
            zf = ["ZRAW (%s, head)" % name]
            sw = []
            for i, w in enumerate(part):
                out.append("static long long %s_l%d (void * o) { return (((%s*)o)->m%d); }" % (name, i, name, i))
                zf.append("{ .kind = Z_BITS, .name = \"m%d:%d\", .get = %s_l%d }" % (i, w, name, i))
                if w > 64:
                    out.append("static long long %s_h%d (void * o) { return (((%s*)o)->m%d >> 64); }" % (name, i, name, i))
                    zf.append("{ .kind = Z_BITS, .name = \"hi\", .get = %s_h%d }" % (name, i))
                sw.append("case %d: x->m%d = v; break;" % (i, i))
            zf.append("ZRAW (%s, tail)" % name)
            out.append("static const zf_t zf_%s[] = { %s, ZEND };" % (name, ", ".join(zf)))
            out.append("static const zt_t zt_%s = { \"%s\", sizeof (%s), zf_%s };" % (name, name, name, name))
            out.append("Z_OPS (%s)" % name)
            out.append("static void set_%s (void * o, int m, mr_uint128_t v) { %s * x = o; switch (m) { %s } }" % (name, name, " ".join(sw)))
            out.append("static const int w_%s[] = { %s, 0 };" % (name, ", ".join(map(str, part))))
            setters.append("{ &ops_%s, &zt_%s, set_%s, w_%s }" % (name, name, name, name))
out.append("static const struct { const z_ops_t * ops; const zt_t * zt; void (*set) (void *, int, mr_uint128_t); const int * width; } bf_all[] = {\n  %s };" % ",\n  ".join(setters))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "bitfields.h"), "w").write("\n".join(out) + "\n")
