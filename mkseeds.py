#!/usr/bin/env python3
"""writes seeded/<id>/ from the table in seeds.py: patch.diff against /repo's HEAD, demo.sh + demo.cpp, meta.json"""
import os, sys, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.abspath(__file__)); R = '/repo'
exec(open(os.path.join(H, 'seeds.py')).read())
DEMO = '''#!/bin/bash
# cwd: the repository after its build; exit 0 when the property holds
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; L=$R/_build/tree/linux/lib
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -w -O1 -fopenmp -include functional -include stdexcept -DBOOST_ALL_DYN_LINK -I "$R/src" "$D/demo.cpp" -o "$T/demo" \\
  -L "$L" -Wl,-rpath,"$L" -lslat -lboost_log -lboost_thread -lboost_system -lgsl -lgslcblas -lpthread
cd "$T"; timeout 120 ./demo
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <memory>
#include <vector>
#include "functions.h"
#include "lognormaldist.h"
#include "fragility.h"
#include "loss_functions.h"
#include "relationships.h"
#include "comp_group.h"
#include "structure.h"
#include "maq.h"
#include "caching.h"
#include "context.h"
using namespace SLAT; using namespace std;
static int bad = 0;
static void near(const char *what, double got, double want, double tol = 1e-9) {
    bool ok = (std::isnan(got) && std::isnan(want)) || got == want || fabs(got - want) <= tol * (1e-300 + fabs(want));
    if (!ok) { printf("%s: got %.15g, expected %.15g\\n", what, got, want); bad++; }
}
static void is(const char *what, bool ok) { if (!ok) { printf("%s: does not hold\\n", what); bad++; } }
'''
only = sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only: continue
    d = os.path.join(H, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    edits = {}
    for f, old, new in s['edits']:
        t = edits.get(f) or open(os.path.join(R, f), encoding='utf-8').read()
        assert t.count(old) == 1, (s['id'], f, old, t.count(old))
        edits[f] = t.replace(old, new)
    out = ''
    for f, t in edits.items():
        with tempfile.NamedTemporaryFile('w', suffix='.x', delete=False, encoding='utf-8') as g: g.write(t)
        p = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, os.path.join(R, f), g.name], capture_output=True, text=True)
        os.unlink(g.name); out += 'diff --git a/%s b/%s\n' % (f, f) + p.stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('sh', DEMO)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'demo' in s: open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + s['demo'])
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(s['id'])
