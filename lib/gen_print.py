"""writes harness/print_lists.h: functions that print all pairs of kinds and long lists."""
import os
K = "ch bo i8 u8 i16 u16 i32 u32 i64 u64 lo ul i128 u128 fl dl lg cf cd cl st cs pt cv".split()
out = ["/* written by lib/gen_print.py */"]
names = []
for a in K:
    for b in K:
        out.append(f"PAIR ({a}, {b})")
        names.append(f"pair_{a}_{b}")
out.append("static void (* const pairs[]) (void) = { " + ", ".join(names) + " };")
names = []
for i in range(len(K)):
    for step in (1, 5, 7):
        l = [K[(i + j * step) % len(K)] for j in range(5)]
        n = "list_" + "_".join(l)
        out.append(f"QUINT ({n}, {', '.join(l)})")
        names.append(n)
out.append("static void (* const quints[]) (void) = { " + ", ".join(names) + " };")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "print_lists.h"), "w").write("\n".join(out) + "\n")
