"""mkseed: helper to write /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from text replacements."""
import os, json, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC="-I/repo/include -I/repo/pch -I/repo/_build"
g++ -std=c++17 -O1 -w $INC "$D/demo.cpp" -L/repo/_build/bin -llm -lfmt -lpthread -ldl -o "$T/demo" || exit 3
cd "$T" && LD_LIBRARY_PATH=/repo/_build/bin timeout 200 ./demo
'''
PRE = '''#include <lm/lm.h>
#include <cstdio>
#include <cmath>
#include <random>
using namespace lm;
static int bad = 0;
static void chk(bool ok, const char* what) { if (!ok) { std::printf("FAIL %s\\n", what); bad = 1; } }
static bool near_(double a, double b, double e = 1e-6) { return std::abs(a - b) <= e * (1 + std::abs(a) + std::abs(b)); }
static bool near3(Vec3 a, Vec3 b, double e = 1e-6) { return near_(a.x, b.x, e) && near_(a.y, b.y, e) && near_(a.z, b.z, e); }
struct RootC final : public Component {
    std::vector<std::pair<std::string, Component*>> kids;
    RootC() { comp::detail::Access::loc(this) = "$"; comp::detail::register_root_comp(this); }
    Component* underlying(const std::string& n) const override { for (auto& k : kids) if (k.first == n) return k.second; return nullptr; }
    void foreach_underlying(const ComponentVisitor& visit) override { for (auto& k : kids) visit(k.second, false); }
    void add(const char* n, Component* c) { kids.push_back({n, c}); comp::detail::Access::loc(c) = std::string("$.") + n; }
};
'''
def seed(id, prop, reps, needs, breaks, cpp, pre=True, demo=None):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD src include pch plugin lightmetrica | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm b" % (t, t), shell=True)
    for f, old, new in reps:
        p = t + "/" + f; s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: old = old.replace("\r\n", "\n").replace("\n", "\r\n"); new = new.replace("\r\n", "\n").replace("\n", "\r\n")
        assert s.count(old) == 1, (id, f, s.count(old)); open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t, "diff"]); open(d + "/patch.diff", "wb").write(diff); shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(demo or DEMO); os.chmod(d + "/demo.sh", 0o755)
    if cpp: open(d + "/demo.cpp", "w").write((PRE if pre else "") + cpp)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
