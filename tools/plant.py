#!/usr/bin/env python3
# usage: plantlib.py <plants-file.py> [--nocheck] [ids...]: build, verify and check each planted bug
import sys, os, re, json, subprocess, shutil, time
V="/verif"; R="/repo"
BUGS=[]
def bug(id, prop, needs, breaks, edits, demo, flags="", main=True):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
DEMO_SH='''#!/bin/bash
# Run with cwd /repo: exit 0 when the library behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/lc/smart_dnn"
for d in "$PWD"/smart_dnn/*/; do
    d=${d%%/}; n=$(basename "$d"); l=$(printf %%s "$n" | tr A-Z a-z)
    [ "$n" = "$l" ] || ln -s "$d" "$tmp/lc/smart_dnn/$l"
done
inc=""
for h in algorithm cassert cmath functional iostream limits memory numeric optional sstream stdexcept string tuple vector unordered_map utility; do inc="$inc -include $h"; done
%(cxx)s -std=c++17 -O1 -w %(flags)s $inc -I"$PWD" -I"$tmp/lc" "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 2
cd "$tmp" && %(env)s timeout 120 ./demo
'''
HEAD='''#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
using namespace smart_dnn;
typedef Tensor<float> TF; typedef Tensor<double> TD;
typedef AdvancedTensorOperations<float> OF; typedef AdvancedTensorOperations<double> OD;
#define CHECK(c) do { if (!(c)) { std::cerr << "line " << __LINE__ << ": " #c << "\\n"; return 1; } } while (0)
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static bool near(double a, double b, double tol = 1e-4) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean(): sh(f"git -C {R} checkout -- .")
def main(ns, args):
    nocheck="--nocheck" in args; checkonly="--checkonly" in args; ids=[a for a in args if not a.startswith("--")]
    assert not sh(f"git -C {R} status --short").stdout.strip()
    log=open("/tmp/plant/results.txt","a")
    for b in BUGS:
        if ids and b["id"] not in ids: continue
        d=f"{V}/seeded/{b['id']}"
        try:
            res=plant(b,d,nocheck,checkonly)
        except AssertionError as e:
            res="BAD "+str(e)[:600]
            shutil.rmtree(d, ignore_errors=True)
        finally:
            clean()
        line=f"{b['id']} {b['prop']}: {res}"
        print(line,flush=True); log.write(line+"\n"); log.flush()
def plant(b,d,nocheck,checkonly):
    if not checkonly:
        os.makedirs(d,exist_ok=True)
        base=sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
        # demo on the clean tree
        extra=b["flags"]; env=""; cxx="g++"
        if "@clang" in extra: cxx="clang++"; extra=extra.replace("@clang","")
        m=re.search(r"@env\((.*?)\)",extra)
        if m: env=m.group(1); extra=extra.replace(m.group(0),"")
        open(d+"/demo.sh","w").write(DEMO_SH%dict(flags=extra,env=env,cxx=cxx)); os.chmod(d+"/demo.sh",0o755)
        open(d+"/demo.cpp","w").write(HEAD+b["demo"].strip()+"\n")
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
        r=sh(f"cd {R} && bash {d}/demo.sh"); assert r.returncode==0, "demo fails on clean tree: "+r.stdout[-500:]
        for f,old,new in b["edits"]:
            p=f"{R}/smart_dnn/{f}"; s=open(p).read()
            assert s.count(old)==1, f"{f}: {s.count(old)} matches of {old!r}"
            open(p,"w").write(s.replace(old,new))
        diff=sh(f"git -C {R} diff").stdout
        open(d+"/patch.diff","w").write(diff); 
        # changed lines original?
        orig=0; mine=0
        for f in set(e[0] for e in b["edits"]):
            bl=sh(f"git -C {R} blame -s HEAD -- smart_dnn/{f}").stdout.splitlines()
            for m in re.finditer(r"^-(?!--)", "", re.M): pass
            fd=sh(f"git -C {R} diff -U0 -- smart_dnn/{f}").stdout
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
                a=int(h.group(1)); n=int(h.group(2) or 1)
                for l in range(a,a+n):
                    if bl[l-1].startswith("^"): orig+=1
                    else: mine+=1
        assert orig>0, "no original line changed"
        note=f"orig={orig} mine={mine}" + (" MINE!" if mine else "")
        r=sh("bash /opt/vp/build.sh"); assert r.returncode==0, "build: "+r.stdout[-600:]
        sh("bash /opt/vp/test.sh /tmp/plant/out.json")
        base=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/plant/out.json"))
        def passed(x):
            for k in ("passed","pass","stable"):
                if k in x: return set(x[k])
        miss=sorted(passed(base)-passed(o)); assert not miss, "tests fail: "+str(miss[:5])
        r=sh(f"cd {R} && bash {d}/demo.sh"); assert r.returncode!=0, "demo passes with the bug"
        assert r.returncode==1 or "line" in r.stdout or r.returncode>=128 or "Sanitizer" in r.stdout, "demo strange: %d "%r.returncode+r.stdout[-500:]
    else:
        note=""
        r=sh(f"git -C {R} apply {d}/patch.diff"); assert r.returncode==0, r.stdout
    if nocheck: return "OK "+note
    t=time.time()
    r=sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {b['prop']}")
    open(f"/tmp/plant/{b['id']}.log","w").write(r.stdout)
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    own=[l for l in v if f"property={b['prop']} " in l]
    return f"{note} check rc={r.returncode} {'CAUGHT' if r.returncode==1 and own else 'MISSED'} {time.time()-t:.0f}s {len(v)} violations"
if __name__=="__main__":
    src=open(sys.argv[1]).read()
    g={"bug":bug}
    exec(compile(src,sys.argv[1],"exec"),g)
    main(g,sys.argv[2:])
