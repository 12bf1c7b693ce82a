"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ main body source) or DEMO_SH."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
PRE = """#include "gdx.hpp"
#include "gxfile.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace std;
using gdx::TGXFileObj;
static unique_ptr<TGXFileObj> mk() { string m; auto g = make_unique<TGXFileObj>( m ); g->gdxAutoConvert( 0 ); return g; }
#define NEED( c ) do { if( !( c ) ) { printf( "failed: line %d: %s\\n", __LINE__, #c ); return 1; } } while( 0 )
"""
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
for f, o, n in ns["EDITS"]:
    p = f"{t}/r/{f}"
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, "w").write(s.replace(o, n))
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout)
shutil.rmtree(t)
json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
if "DEMO_SH" in ns:
    open(d + "/demo.sh", "w").write(ns["DEMO_SH"])
    for f, c in ns.get("FILES", {}).items():
        open(f"{d}/{f}", "w").write(c)
else:
    open(d + "/demo.cpp", "w").write(PRE + ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: property holds in this scenario
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DGC_NO_MUTEX -I"$R/src" -I"$R/generated" -I"$R/src/gdlib" -I"$R/src/global" -I"$R/src/rtl" "$D/demo.cpp" "$R/build/libgdx-static.a" -lz -ldl -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
''')
