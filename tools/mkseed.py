#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  < spec on stdin: sections separated by lines '@@@@': OLD, NEW, NEEDS, BREAKS, DEMO (C++ body or full)
FILE relative to /repo.  Writes seeded/ID."""
import sys, os, subprocess, json, shutil
i, prop, f = sys.argv[1:4]
parts = sys.stdin.read().split("\n@@@@\n")
old, new, needs, breaks, demo = [p.strip("\n") for p in parts]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
w = "/tmp/mkseed"
shutil.rmtree(w, ignore_errors=True)
os.makedirs(os.path.dirname(w + "/a/" + f)); os.makedirs(os.path.dirname(w + "/b/" + f))
s = open("/repo/" + f).read()
pairs = list(zip(old.split("\n==AND==\n"), new.split("\n==AND==\n")))
t = s
for o, n in pairs:
    if t.count(o) != 1: sys.exit("old text occurs %d times: %s" % (t.count(o), o[:60]))
    t = t.replace(o, n)
open(w + "/a/" + f, "w").write(s); open(w + "/b/" + f, "w").write(t)
p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout
open(d + "/patch.diff", "w").write(p)
shutil.rmtree(w)
if "int main" not in demo:
    demo = "int main() {\n" + demo + "\n  return 0;\n}"
hdr = "\n".join('#include "viennamath/%s"' % h for h in ["expression.hpp"] + ["manipulation/" + m + ".hpp" for m in
   ["apply_coordinate_system", "coefficient", "diff", "drop_dependent_terms", "eval", "expand", "integrate", "latex", "simplify", "substitute"]] + ["runtime/numerical_quadrature.hpp"])
open(d + "/demo.cpp", "w").write("#include <cmath>\n#include <cstdio>\n#include <string>\n#include <vector>\n#include <iostream>\n" + hdr +
  "\nusing namespace viennamath;\n#define CHECK(c) do { if (!(c)) { std::printf(\"failed: %s\\n\", #c); return 1; } } while (0)\n" + demo + "\n")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with the repository as working directory; exit 0 if the property holds for the example in demo.cpp
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
g++ -w -std=gnu++14 -I"$PWD" "$here/demo.cpp" -o "$out/demo" || { rm -rf "$out"; exit 2; }
timeout 60 "$out/demo"; rc=$?
rm -rf "$out"
exit $rc
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
