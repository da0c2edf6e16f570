# usage: from mkseed import seed
import os, json, shutil, subprocess
ROOT='/verif/seeded'
DEMO='''#!/bin/bash
# Exit 0: the property holds on this input. Runs in the repository, after its build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
g++ -std=c++17 -w -I"$d" -I"$PWD/include" -I"$PWD/src" -I"$PWD/test" -I/usr/include/eigen3 "$d/demo.cc" -o "$t/demo" \\
  -L"$PWD/_build/lib" -Wl,-rpath,"$PWD/_build/lib" -Wl,--no-as-needed %s -lyaml-cpp -lpthread || exit 1
(cd "$t" && %s "$t/demo"); rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
'''
LIBS='-lmaliput_base -lmaliput_routing -lmaliput_geometry_base -lmaliput_utility -lmaliput_plugin -lmaliput_api -lmaliput_math -lmaliput_common'
def seed(id, prop, edits, needs, breaks, demo, libs=LIBS, wrap='timeout 120'):
    d=f'{ROOT}/{id}'; os.makedirs(d,exist_ok=True)
    assert subprocess.run('git status --porcelain',shell=True,cwd='/repo',capture_output=True,text=True).stdout=='', 'dirty'
    try:
        for f,old,new in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,'w').write(s.replace(old,new))
        diff=subprocess.run('git diff',shell=True,cwd='/repo',capture_output=True,text=True).stdout
    finally:
        subprocess.run('git checkout -- .',shell=True,cwd='/repo')
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cc','w').write(demo)
    if 'line_' in demo: shutil.copy('/verif/tools/line_road.h', d)
    if 'line_net.h' in demo: shutil.copy('/verif/tools/line_net.h', d)
    open(d+'/demo.sh','w').write(DEMO%(libs,wrap)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
