#!/usr/bin/env python3
"""mkgolden.py LIST OUT.rb: one snippet per line of LIST (⏎ stands for a newline)."""
import sys
ls = [l for l in open(sys.argv[1], encoding="utf-8").read().split("\n") if l.strip()]
seen = []
for l in ls:
    if l not in seen:
        seen.append(l)
open(sys.argv[2], "w", encoding="utf-8").write("\n---\n".join(l.replace("⏎", "\n") for l in seen) + "\n---\n")
