#!/usr/bin/env python3
"""mkbug.py ID PROPERTY: reads from stdin blocks
@@ file
<<<<
old
====
new
>>>>
needs: ...
breaks: ...
demo:
C++ body"""
import sys, os, subprocess, json, re
V = "/verif"; pid, prop = sys.argv[1:3]; t = sys.stdin.read()
d = V + "/seeded/" + pid; os.makedirs(d, exist_ok=True)
head, demo = t.split("demo:\n", 1)
for m in re.finditer(r"@@ (\S+)(?: (\d+))?\n<<<<\n(.*?)====\n(.*?)>>>>\n", head, re.S):
    p = "/repo/" + m[1]; s = open(p).read()
    if (s.count(m[3]) != 1 and not m[2]) or not s.count(m[3]): print("pattern occurs", s.count(m[3]), "times in", m[1], repr(m[3][:60])); subprocess.run(["git", "-C", "/repo", "checkout", "--", "."]); sys.exit(1)
    q = s.split(m[3]); k = int(m[2] or 1); open(p, "w").write(m[3].join(q[:k]) + m[4] + m[3].join(q[k:]))
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
g = lambda k: re.search(r"^%s: (.*)$" % k, head, re.M)[1]
json.dump(dict(property=prop, needs=g("needs"), what_it_breaks=g("breaks")), open(d + "/meta.json", "w"), indent=1)
subprocess.run([sys.executable, V + "/engine/dev/mkdemo.py", pid], input=demo, text=True, check=True)
