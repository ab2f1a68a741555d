#!/usr/bin/env python3
"""Writes ma/src/table.rs: tuples of every arity in several orders, and every position of each."""
import os
def orders(k):
    o = {"ascending": list(range(k))}
    if k > 1:
        o["descending"] = list(range(k))[::-1]
        o["high"] = [15 - i for i in range(k)]
    if k > 2:
        s = 7
        o["mixed"] = sorted(range(k), key=lambda i: (i * s + 3) % 17)
    return o
out = ["// Generated by tools/gen_arity.py.", "", "entries! {"]
for k in range(1, 17):
    for name, o in orders(k).items():
        parts = " ".join(f"(T{c} v{i} {i})" for i, c in enumerate(o))
        out.append(f"    {k} \"{name}\" {parts};")
out.append("}")
out.append("")
out.append("positions! {")
for k in range(2, 17):
    for name in ["mixed" if k % 2 else "ascending"]:
        o = orders(k)[name]
        for p in range(k):
            l = " ".join(f"(T{c} v{i} {i})" for i, c in enumerate(o) if i < p)
            r = " ".join(f"(T{c} v{i} {i})" for i, c in enumerate(o) if i > p)
            out.append(f"    {k} \"{name}\" [{l}] (T{o[p]} v{p} {p}) [{r}];")
out.append("}")
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root, "ma/src/table.rs"), "w").write("\n".join(out) + "\n")
