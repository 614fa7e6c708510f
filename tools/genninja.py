#!/usr/bin/env python3
"""Write /verif/build/<variant>/build.ninja: the library from /repo's working tree + the simulator."""
import os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('VERIF_REPO','/repo')
B=sys.argv[1]; os.makedirs(B+'/gen',exist_ok=True)
dirs=set(); srcs=[]
for base in ('core/lib','ext/lib'):
    for d,ds,fs in os.walk(f'{R}/{base}'):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.hpp','.h')): dirs.add(d)
            if f.endswith('.cpp'): srcs.append(os.path.join(d,f))
            if f.endswith('.c'): srcs.append(os.path.join(d,f))
# build_config.h from its template, as the project's own cmake does
t=open(f'{R}/build_config.h.in').read()
import re
t=re.sub(r'#cmakedefine\s+(\w+).*',r'/* #undef \1 */',t); t=re.sub(r'@(\w+)@',lambda m:{'GPSTK_VERSION_MAJOR':'8','GPSTK_VERSION_MINOR':'0','GPSTK_VERSION_PATCH':'0'}.get(m.group(1),''),t)
p=B+'/gen/build_config.h'
if not os.path.exists(p) or open(p).read()!=t: open(p,'w').write(t)
open(B+'/gen/pch.hpp','a').close()
ph=''.join(f'#include <{h}>\n' for h in 'string vector map set list deque iostream fstream sstream iomanip algorithm cmath cstdlib cstring cstdio functional memory limits stdexcept exception typeinfo utility iterator complex numeric queue stack bitset cctype ctime cassert cstdint cstddef'.split())
if open(B+'/gen/pch.hpp').read()!=ph: open(B+'/gen/pch.hpp','w').write(ph)
inc=' '.join('-I'+d for d in sorted(dirs))+f' -I{B}/gen'
o=[]
o.append(f'''ninja_required_version = 1.5
inc = {inc}
rule pch
 command = g++ -MD -MF $out.d -O1 -g0 -w -std=gnu++11 -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS -fno-pie -x c++-header -c $in -o $out
 description = PCH
 depfile = $out.d
 deps = gcc
rule cxx
 description = CXX $out
 command = g++ -include gen/pch.hpp -MD -MF $out.d -O1 -g0 -w -std=gnu++11 -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS -fno-pie $inc -c $in -o $out
 depfile = $out.d
 deps = gcc
rule app
 description = APP $out
 command = g++ -include gen/pch.hpp -MD -MF $out.d -O1 -g0 -w -std=gnu++11 -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS -fno-pie $inc -c $in -o $out && objcopy --redefine-sym main=$appmain $out
 depfile = $out.d
 deps = gcc
rule cc
 description = CC $out
 command = gcc -MD -MF $out.d -O1 -g0 -w -fno-pie $inc -c $in -o $out
 depfile = $out.d
 deps = gcc
rule hx
 description = HX $out
 command = g++ -MD -MF $out.d -O1 -g0 -w -std=gnu++14 -fno-pie -fno-builtin-stat $inc -I{R}/ext/apps/rfw -c $in -o $out
 depfile = $out.d
 deps = gcc
rule link
 description = LINK $out
 command = g++ -no-pie -o $out @$out.rsp -ldl -lpthread
 rspfile = $out.rsp
 rspfile_content = $in
''')
objs=[]
o.append('build gen/pch.hpp.gch: pch gen/pch.hpp')
def add(rule,s,o_):
    o.append(f'build {o_}: {rule} {s}'+(' | gen/pch.hpp.gch' if rule=='cxx' else '')); objs.append(o_)
for s in srcs:
    add('cc' if s.endswith('.c') else 'cxx', s, 'lib/'+os.path.relpath(s,R).replace('/','_')+'.o')
for s in [f'{R}/ext/apps/rfw/{x}' for x in ('TCPStreamBuff.cpp','FDStreamBuff.cpp')]:
    if os.path.exists(s): add('cxx',s,'app/'+os.path.basename(s)+'.o')
# whole programs, their main renamed
APPS=[(f'{R}/ext/apps/rfw/rfw.cpp','rfw_main')]+[(f'{R}/core/apps/{d}/{x}.cpp',m) for d,x,m in (('mergetools','mergeRinObs','mergeobs_main'),('mergetools','mergeRinNav','mergenav_main'),('mergetools','mergeRinMet','mergemet_main'),('difftools','rowdiff','rowdiff_main'),('difftools','rnwdiff','rnwdiff_main'),('difftools','rmwdiff','rmwdiff_main'),('checktools','rowcheck','rowcheck_main'),('checktools','rnwcheck','rnwcheck_main'),('checktools','rmwcheck','rmwcheck_main'))]
for s,m in APPS:
    o.append(f'build app/{m}.o: app {s} | gen/pch.hpp.gch\n appmain = {m}'); objs.append(f'app/{m}.o')
for d in ('core','props'):
    for f in sorted(os.listdir(f'{V}/sim/{d}')):
        if f.endswith('.cpp'): add('hx',f'{V}/sim/{d}/{f}',f'sim/{d}_{f}.o')
o.append('build sim.exe: link '+' '.join(objs)); o.append('default sim.exe')
n='\n'.join(o)+'\n'; p=B+'/build.ninja'
if not os.path.exists(p) or open(p).read()!=n: open(p,'w').write(n)
