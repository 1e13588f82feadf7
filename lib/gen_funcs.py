"""harness/funcs.h: functions with names of every length, and with names that mean something in some format."""
import os
lens = list(range(1, 141)) + [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000, 4095, 4096, 4097]
odd = ["_", "__", "a_1", "_1", "A", "Z9", "e1", "E5", "p0", "x0", "t", "nil", "nan", "nan0", "inf", "infinity", "I", "i", "NaN", "INF",
       "null", "nan_", "info", "True", "False", "yes", "no", "on", "off", "y", "n", "ref", "ref_idx", "MR_REF_IDX", "value", "type",
       "MR_VOID_", "int_", "_ZN3foo3barEv", "_Z1fv", "string", "eof", "quote", "sizeof_", "INFINITY", "NAN", "d", "f1", "L", "U", "u", "l", "o7", "b1"]
def main():
    o = ["/* generated by lib/gen_funcs.py: functions with names of every length, and with names that mean something in some format */"]
    syms = []
    def add(sym):
        syms.append(sym)
        o.append('asm (".pushsection .text\\n.balign 16\\n.globl %s\\n.type %s, @function\\n%s: xorl %%eax, %%eax\\nret\\n.size %s, .-%s\\n.popsection");' % ((sym,) * 5))
    seen = set()
    for n in lens:
        add(("q" + "w" * (n - 1)))
    n0 = len(syms)
    for s in odd:
        add(s)
    for i, s in enumerate(syms):
        o.append('extern int mcf_%d (int) asm ("%s");' % (i, s))
    o.append("typedef int (*mcf_t) (int);")
    o.append("static const mcf_t mcf[] = { %s };" % ", ".join("mcf_%d" % i for i in range(len(syms))))
    o.append("static const char * const mcf_name[] = { %s };" % ", ".join('"%s"' % s for s in syms))
    o.append("#define MCF_N %d" % len(syms))
    o.append("#define MCF_ODD %d" % n0)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "funcs.h"), "w") as f:
        f.write("\n".join(o) + "\n")
main()
