import json,os,subprocess,sys
"""mk(id, prop, file, [(old,new)...], demo, needs, breaks)"""
R="/tmp/seedsrc"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.exists(R): sh("git clone -q /repo "+R)
SH='''#!/bin/bash
# Compiles demo.cpp against the headers of the working directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 %s-DGOOSEFEM_ENABLE_ASSERT '-DGOOSEFEM_VERSION="0.0"' -Iinclude -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" || exit 2
"$tmp/demo"
'''
PRE='''#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>
#include <cmath>
#include <cstdio>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)

'''
def mk(id, prop, edits, demo, needs, breaks, flags=""):
    sh("git fetch -q && git reset -q --hard FETCH_HEAD",cwd=R)
    for f,old,new in edits:
        p=R+"/include/GooseFEM/"+f
        s=open(p).read()
        assert s.count(old)>=1,(id,f,"not found",old)
        if s.count(old)>1: print(id,"warning: %d occurrences, first taken"%s.count(old))
        s=s.replace(old,new,1)
        open(p,"w").write(s)
    d=sh("git diff",cwd=R).stdout
    o="/verif/seeded/"+id
    os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","w").write(d)
    open(o+"/demo.cpp","w").write(PRE+demo)
    open(o+"/demo.sh","w").write(SH%flags)
    os.chmod(o+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+"/meta.json","w"),indent=1)
    sh("git checkout -q .",cwd=R)
