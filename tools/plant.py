#!/usr/bin/env python3
"""Plant the bugs of a batch file and try the checks on them.
  plant.py BATCH.py [id...]   build patch + demo + meta in /verif/seeded/<id>, verify in a scratch copy, then run the check
A batch file defines BUGS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new), ...], demo=rust main body)].
Scratch copy: /tmp/gb (made once, removed by hand at the end)."""
import sys, os, subprocess, json, shutil, re
V='/verif'; S='/tmp/gb'; BASE='eb26e50'
ENV=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
ENV.pop('CARGO_TARGET_DIR',None)
def sh(c, cwd=None, t=900, env=ENV):
    p=subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, executable='/bin/bash')
    return p.returncode, p.stdout+p.stderr
DEMO='''#!/bin/bash
# Builds demo.rs against the working tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}" CARGO_PROFILE_DEV_DEBUG=0 PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
unset RUSTFLAGS
mkdir -p "$tmp/demo/src"
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cp "$here/demo.lock" "$tmp/demo/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ngraphbench = { path = "%s" }\\n' "$repo" > "$tmp/demo/Cargo.toml"
cd "$tmp/demo" || exit 2
cargo build --offline --quiet || exit 3
mkdir "$tmp/work" && cd "$tmp/work" && timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
PRE='''#![allow(non_snake_case, unused_imports, dead_code)]
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::editgraph::EditGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::ordgraph::OrdGraph;
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::*;
use graphbench::reachgraph::*;
use graphbench::algorithms::*;
use graphbench::operations::*;
use graphbench::compare::*;
use graphbench::io::*;
'''
def main():
    ns={}; exec(open(sys.argv[1]).read(), ns); only=sys.argv[2:]
    if not os.path.isdir(S): sh(f'cp -a /repo {S}')
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        sh('git checkout -q -- . && git clean -qfd src', S); sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
        ok=True; msg=[]
        for f,old,new in b['edits']:
            p=f'{S}/{f}'; s=open(p).read()
            if s.count(old)!=1: msg.append(f'{f}: old occurs {s.count(old)} times'); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: print(b['id'],'EDIT FAIL',msg); continue
        _,d=sh('git diff', S)
        # the removed lines must be original ones
        orig=False; bad=[]
        for f in set(e[0] for e in b['edits']):
            _,dd=sh(f'git diff -U0 -- {f}', S)
            _,bl=sh(f'git blame -s -l HEAD -- {f}', S); bl=bl.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
                a=int(m[1]); c=int(m[2]) if m[2] is not None else 1
                for l in range(a,a+c):
                    if bl[l-1].lstrip('^').startswith(BASE): orig=True
                    else: bad.append(bl[l-1])
        if not orig or bad: msg.append(f'ORIG={orig} bad={bad}')
        D=f'{V}/seeded/{b["id"]}'; os.makedirs(D,exist_ok=True)
        open(D+'/patch.diff','w').write(d); open(D+'/demo.sh','w').write(DEMO); os.chmod(D+'/demo.sh',0o755)
        open(D+'/demo.rs','w').write(PRE+b.get('pre','')+'\nfn main() {\n'+b['demo']+'\n}\n')
        shutil.copy(V+'/tools/demo.lock', D+'/demo.lock')
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(D+'/meta.json','w'),indent=1)
        denv=dict(ENV,DEMO_TARGET_DIR='/tmp/demo_target')
        r,o=sh(f'bash {D}/demo.sh','/repo',env=denv)
        if r!=0: msg.append('DEMO FAILS ON CLEAN: '+o[-1500:]); ok=False
        r,o=sh('cargo build --offline -q && rm -f resources/{temp,set,vec}.txt{,.gz} && timeout 300 cargo test --offline -q --no-fail-fast -- --test-threads 8', S)
        fails=[x for x in re.findall(r'^    (\S+)$',o,re.M) if '::' in x]
        if r!=0: msg.append('TESTS: '+str(fails)+(o[-1200:] if not fails else '')); ok=False
        r,o=sh(f'bash {D}/demo.sh',S,env=denv)
        if r in(0,3): msg.append(f'DEMO WITH PATCH rc={r} '+o[-800:]); ok=False
        line='INVALID' if not ok else ''
        if ok:
            H='/tmp/gbh'
            if not os.path.isdir(H): os.makedirs(H+'/evidence')
            sh(f"rsync -a --delete /verif/harness/ {H}/harness/ && cp /verif/known_findings.txt {H}/ && sed -i 's#\"/repo\"#\"{S}\"#' {H}/harness/Cargo.toml")
            henv=dict(ENV,CARGO_TARGET_DIR=H+'/target',VERIF_DIR=H)
            r,o=sh(f'cargo build -q --release --offline --manifest-path {H}/harness/Cargo.toml && {H}/target/release/gbcheck run {b["prop"]} quick', H, env=henv)
            v=[l for l in o.split('\n') if l.startswith('VIOLATION')]
            line=f'rc={r} {"CAUGHT" if r==1 and v else "MISSED"} {v[:1]}'
            if r!=1: msg.append(o[-600:])
            else:
                i=o.find('VIOLATION'); msg.append(o[max(0,i-10):i+500] if b.get('show') else '')
        print(b['id'],b['prop'],line,*msg,flush=True)
main()
