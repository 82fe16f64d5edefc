#!/usr/bin/env python3
"""Prints the interesting part of a saved replay file."""
import json, sys, re
d = json.load(open(sys.argv[1]))
log = d["log"]
i = log.find("[rapid] failed"); j = log.find("[rapid] panic"); k=log.find("[rapid] flaky")
c = [x for x in (i, j, k) if x >= 0]
s = log[min(c):] if c else log[-6000:]
lines = [l[:int(sys.argv[2]) if len(sys.argv) > 2 else 400] for l in s.splitlines()]
print("\n".join(lines[:120]))
