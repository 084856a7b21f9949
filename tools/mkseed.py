"""tools/mkseed.py ID PROPERTY FILE <<< old/new text blocks    (helper used while planting bugs)
stdin: JSON {"edits":[[file,old,new],...],"demo":"c++ body or full program","needs":..,"breaks":..,"flags":..}"""
import sys, json, os, subprocess, shutil, tempfile
ID, P = sys.argv[1:3]
d = {}; exec(sys.stdin.read(), d)
out = "/verif/seeded/" + ID; os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
subprocess.check_call("git -C /repo archive HEAD include | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm b" % (tmp, tmp), shell=True)
for f, old, new in d["edits"]:
    p = os.path.join(tmp, "include/dd", f); s = open(p).read()
    n = s.count(old)
    k = d.get("occ", {}).get(old)
    if k is None:
        assert n == 1, (f, n, old)
        s = s.replace(old, new)
    else:
        parts = s.split(old); s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    open(p, "w").write(s)
diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
open(out + "/patch.diff", "w").write(diff)
shutil.rmtree(tmp)
HEAD = """#include <cstdio>
#include <memory>
#include <vector>
#include <set>
#include <complex>
#include <cmath>
#include <sstream>
#include <bitset>
#include <algorithm>
#define private public
#include "dd/Package.hpp"
#include "dd/Export.hpp"
#undef private
using namespace dd;
#define CHECK(c) do { if (!(c)) { printf("wrong: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
static bool near(double a, double b) { return std::abs(a - b) < 1e-9; }
static bool near(std::complex<double> a, std::complex<double> b) { return std::abs(a - b) < 1e-9; }
"""
demo = d["demo"]
if "int main" not in demo: demo = d.get("pre", "") + "int main() {\n" + demo + "\n    return 0;\n}\n"
inc = "#include <sstream>\n#include <iostream>\n#include <fstream>\n#include <random>\n#include <unordered_map>\n#include <unordered_set>\n#include <map>\n#include <queue>\n#include <stack>\n#include <regex>\n#include <array>\n#include <bitset>\n#include <algorithm>\n#include <iomanip>\n"
open(out + "/demo.cpp", "w").write(inc + HEAD + demo)
open(out + "/demo.sh", "w").write("""#!/bin/bash
# cwd: /repo
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG %s -I"$PWD/include" "$here/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout %d ./demo
""" % (d.get("flags", ""), d.get("timeout", 120)))
json.dump(dict(property=P, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
