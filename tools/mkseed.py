#!/usr/bin/env python3
"""Make /verif/seeded/<id> from tools/seeds.py: apply the edit in a scratch copy, confirm that it builds, passes
the stable tests and that the demonstration tells the two apart.  python3 tools/mkseed.py [ids...]"""
import os,re,subprocess,sys,json,shutil,tempfile
sys.path.insert(0,os.path.dirname(__file__))
from seeds import SEEDS, HELP
BASE="5d5c66a"
V="/verif/seeded"
ENV=dict(os.environ,PATH="/root/.cargo/bin:"+os.environ["PATH"],RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true")
SC="/tmp/sc"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,env=ENV,**k)
DEMO='''#!/bin/bash
# Compiles the library from the working tree with a small program and runs it.
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$t"' EXIT
rustc --edition 2021 --crate-type rlib --crate-name sql_parse -C debug-assertions=on -A warnings -o "$t/libsql_parse.rlib" src/lib.rs || exit 2
rustc --edition 2021 --crate-name demo --extern sql_parse="$t/libsql_parse.rlib" -A warnings -o "$t/demo" "$here/demo.rs" || exit 2
timeout 60 "$t/demo"
'''
stable=set(json.load(open("/opt/vp/BASELINE.json")).get("stable",[])) if False else None
def tests(d):
    r=sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1",cwd=d)
    ok=sum(int(x) for x in re.findall(r"test result: \w+\. (\d+) passed",r.stdout)); bad=sum(int(x) for x in re.findall(r"(\d+) failed",r.stdout))
    return ok,bad,r.stdout
ids=sys.argv[1:]
if not os.path.exists(SC): subprocess.run(["cp","-a","/repo",SC],check=True)
sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD",cwd=SC)
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    if not ids and os.path.exists(f"{V}/{s['id']}/patch.diff") : continue
    sh("git checkout -q -- .",cwd=SC)
    msgs=[]
    # lines of ours are not to be touched
    for f,old,new in s["edits"]:
        p=f"{SC}/{f}"; t=open(p).read()
        if t.count(old)!=1: msgs.append(f"{f}: {t.count(old)} matches of {old[:60]!r}"); continue
        open(p,"w").write(t.replace(old,new))
    d=sh("git diff",cwd=SC).stdout
    if not msgs:
        for f,_,_ in s["edits"]:
            base=set(l.strip() for l in sh(f"git show {BASE}:{f}",cwd=SC).stdout.splitlines())
            cur=None
            for l in d.splitlines():
                if l.startswith("--- a/"): cur=l[6:]
                elif cur==f and l.startswith("-") and not l.startswith("---") and l[1:].strip() not in base:
                    msgs.append(f"changes a line of our own: {l}")
    ok,bad,out=tests(SC) if not msgs else (0,0,"")
    if not msgs and (ok!=36 or bad): msgs.append(f"tests: {ok} passed {bad} failed\n"+out[-1500:])
    o=f"{V}/{s['id']}"
    tmp=tempfile.mkdtemp(); 
    open(tmp+"/demo.sh","w").write(DEMO); open(tmp+"/demo.rs","w").write(HELP+"fn main() {\n"+s["demo"].strip("\n")+"\n}\n")
    if not msgs:
        a=sh(f"bash {tmp}/demo.sh",cwd="/repo"); b=sh(f"bash {tmp}/demo.sh",cwd=SC)
        if a.returncode!=0: msgs.append("demo fails on the unchanged tree: "+(a.stdout+a.stderr)[-1500:])
        if b.returncode in (0,2): msgs.append(f"demo: {b.returncode} with the change "+(b.stdout+b.stderr)[-600:])
    if msgs: print("FAIL",s["id"],*msgs,sep="\n  ")
    else:
        os.makedirs(o,exist_ok=True)
        open(o+"/patch.diff","w").write(d)
        for f in ("demo.sh","demo.rs"): shutil.copy(tmp+"/"+f,o)
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(o+"/meta.json","w"),indent=1)
        print("ok",s["id"])
    shutil.rmtree(tmp)
sh("git checkout -q -- .",cwd=SC)
