#!/usr/bin/env python3
"""Development aid: executions and steps per family, from the output of 'mc bench'."""
import sys, re, collections
n = int(sys.argv[1]) if len(sys.argv) > 1 else 3
e, s, k = collections.Counter(), collections.Counter(), collections.Counter()
for l in sys.stdin:
    m = re.match(r"(\S.*?)\s+p\d bound \S+ execs (\d+) steps (\d+)", l)
    if m:
        f = "/".join(m.group(1).split("/")[:n])
        e[f] += int(m.group(2)); s[f] += int(m.group(3)); k[f] += 1
for f, v in s.most_common():
    print(f"{v:14d} steps {e[f]:10d} execs {k[f]:6d} jobs  {f}")
