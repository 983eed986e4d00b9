#!/usr/bin/env python3
"""Sensitivity sweep (development aid, no check uses it): small syntactic mutants of /repo/src in a scratch copy,
each judged by the checks of the properties anchored in the mutated file, at a reduced number of cases.
usage: mutate.py list | run START STEP OUT [SCALE]"""
import re, os, sys, subprocess, shutil, random, json
SRC='/repo/src'
FILES={
 'editgraph.rs':'C01 C03 C04 C05 C06','editdigraph.rs':'C02 C04 C05 C06 C07','graph.rs':'C01 C02 C08 C17 C33 C34 C26 C20 C27','iterators.rs':'C07 C17 C29 C01 C06',
 'ordgraph.rs':'C17 C18 C22 C16','degengraph.rs':'C17 C19 C16','reachgraph.rs':'C22 C17 C07 C08 C23','algorithms/graph.rs':'C14 C15 C16',
 'algorithms/lineargraph.rs':'C20 C21 C23 C24 C25 C26 C27','dtfgraph.rs':'C28 C29 C30','datastructures/sreach_trace_oracle.rs':'C31 C32',
 'io.rs':'C09 C10','operations.rs':'C11 C12','compare.rs':'C13'}
def mutants():
    out=[]
    for f in FILES:
        L=open(f'{SRC}/{f}').read().split('\n')
        for i,l in enumerate(L):
            if '#[cfg(test)]' in l: break
            s=l.strip()
            if not s or s.startswith(('//','use ','#','pub fn','fn ','impl','pub struct','struct','where','mod ','pub mod','pub trait','type ','pub type')): continue
            if 'assert' in s or 'println' in s or 'with_capacity' in s or 'unimplemented!' in s: continue
            if f=='reachgraph.rs' and 'index_u + r + 1] as usize' in s: continue  # private, unused fn segment
            if f=='algorithms/lineargraph.rs' and 'improved' in s: continue # only the number of classes
            code=l.split('//')[0] if '//' in l else l
            def add(new,kind):
                if new!=code: out.append((f,i,kind,new))
            for a,bs in {' < ':[' <= '],' <= ':[' < '],' > ':[' >= '],' >= ':[' > '],' == ':[' != '],' != ':[' == '],' && ':[' || '],' || ':[' && '],
                         'true':['false'],'false':['true'],'min(':['max('],'max(':['min('],' + 1':[' + 2',''],'+1':['+2',''],' - 1':[''],'-1':[''],'..=':['..'],
                         '.rev()':[''],' as u32':[' as u8 as u32'],' as usize':[' as u8 as usize'],'2*':['1*','3*'],' - ':[' + '],' + ':[' - '],' += ':[' -= '],' -= ':[' += '],
                         'u.min':['u.max'],'0..':['1..'],'1..':['0..','2..'],'.left':['.right'],'.right':['.left'],'in_neighbours':['out_neighbours'],'out_neighbours':['in_neighbours'],
                         '(u, v)':['(v, u)'],'(u,v)':['(v,u)'],'Some(0)':['Some(1)','None'],' 0 ':[' 1 '],'= 0;':['= 1;'],'= 1;':['= 0;'],'.is_empty()':['.is_empty() == false'],
                         '!':[''],'union':['intersection'],'difference':['union'],'.skip(1)':['.skip(0)','.skip(2)'],'break':['continue'],'continue':['break'],
                         'contains(u)':['contains(v)'],'contains(v)':['contains(u)']}.items():
                p=-1
                while True:
                    p=code.find(a,p+1)
                    if p<0: break
                    if a=='!' and (code[p:p+2]=='!=' or (p and code[p-1].isalnum())): continue
                    if a in('true','false') and (p and (code[p-1].isalnum() or code[p-1]=='_')): continue
                    for b in bs: add(code[:p]+b+code[p+len(a):],f'{a.strip()}->{b.strip()}@{p}')
            if s.endswith(';') and not s.startswith(('let ','return','}',')','.','pub ','const ')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'):
                add(code[:len(code)-len(code.lstrip())]+';','delete')
            if s.startswith('return') and s.endswith(';') : add(code[:len(code)-len(code.lstrip())]+'if true {} else {'+s+'}','noreturn')
            m=re.match(r'^(\s*)(\} else )?if (?!let)(.*) \{\s*$',code)
            if m:
                pre=m.group(1)+(m.group(2) or '')
                add(f'{pre}if false && ({m.group(3)}) {{','if-false'); add(f'{pre}if true || ({m.group(3)}) {{','if-true')
    r=random.Random(7); r.shuffle(out)
    seen=set(); res=[]
    for o in out:
        k=(o[0],o[1],o[3])
        if k not in seen: seen.add(k); res.append(o)
    return res
def main():
    ms=mutants()
    if sys.argv[1]=='list': print(len(ms)); return
    start,step,outf=int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
    scale=sys.argv[5] if len(sys.argv)>5 else '0.15'
    W=f'/tmp/mut{start}'
    if not os.path.exists(W):
        os.makedirs(W); shutil.copytree('/repo',W+'/repo',ignore=shutil.ignore_patterns('target','.git'))
        shutil.copytree('/verif/harness',W+'/harness',ignore=shutil.ignore_patterns('target'))
        t=open(W+'/harness/Cargo.toml').read().replace('"/repo"',f'"{W}/repo"').replace('../../repo',f'{W}/repo'); open(W+'/harness/Cargo.toml','w').write(t)
        shutil.copy('/verif/known_findings.txt',W)
    env=dict(os.environ,CARGO_TARGET_DIR=W+'/target',VERIF_DIR=W,GB_SCALE=scale,CARGO_PROFILE_RELEASE_INCREMENTAL='true',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true')
    os.makedirs(W+'/evidence',exist_ok=True)
    done=set()
    import glob
    for q in glob.glob(os.path.dirname(os.path.abspath(outf))+'/mut_*.jsonl'):
        done|={(e['file'],e['old'],e['new']) for e in map(json.loads,open(q))}
    for n in range(start,len(ms),step):
        f,i,kind,new=ms[n]
        orig=open(f'{SRC}/{f}').read(); L=orig.split('\n'); old=L[i]; L[i]=new
        if (f,old.strip(),new.strip()) in done: continue
        open(f'{W}/repo/src/{f}','w').write('\n'.join(L))
        b=subprocess.run(['cargo','build','--release','--offline','--manifest-path',W+'/harness/Cargo.toml'],env=env,capture_output=True,text=True)
        verdict='nobuild'
        if b.returncode==0:
            verdict='SURVIVED'
            for p in FILES[f].split():
                try: r=subprocess.run(['prlimit','--as=8000000000',W+'/target/release/gbcheck','run',p,'quick'],env=env,capture_output=True,text=True,timeout=90)
                except subprocess.TimeoutExpired: verdict='timeout '+p; break
                if r.returncode!=0: verdict=('killed ' if r.returncode==1 else f'exit{r.returncode} ')+p; break
        subprocess.run(['pkill','-f',W+'/target/release/gbcheck'])
        open(f'{W}/repo/src/{f}','w').write(orig)
        open(outf,'a').write(json.dumps(dict(n=n,file=f,line=i+1,kind=kind,old=old.strip(),new=new.strip(),verdict=verdict))+'\n')
main()
