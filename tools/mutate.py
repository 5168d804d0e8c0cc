#!/usr/bin/env python3
"""Small mutation tester for the checks (never used by a check).
  mutate.py list OUT.json FILE...      write mutants of /repo's files
  mutate.py run IN.json OUT.jsonl N    run them in N scratch worktrees under /tmp/mut
A mutant counts if it builds, passes the stable tests (partial build) and the checks build."""
import json, os, re, subprocess, sys, random, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
REPO='/repo'
OPS=[
 (r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),
 (r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r'\+= ','-= '),(r'-= ','+= '),
 (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\bcontinue\b','break'),(r'\bbreak\b','continue'),
 (r'if !','if '),(r'\.is_empty\(\)','.len() == 1'),(r'\.reverse\(\)',''),(r'\.next_back\(\)','.next()'),
 (r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),(r'\bOk\(\(\)\)','Ok(())'),
 (r'\bmin\(','max('),(r'\bmax\(','min('),(r'\.trim\(\)',''),(r'\.any\(','.all('),(r'\.all\(','.any('),
 (r'\.start\(\)','.end()'),(r'\.end\(\)','.start()'),(r'_start\b','_end'),(r'\b(\d+)\b',None),
 (r'\.\.=','..'),(r'\bNone\b =>','None if false =>'),(r'/ ','* '),(r'% ','/ '),
]
def src_lines(path):
    out=[];
    lines=open(path).read().split('\n')
    skip=False;depth=0
    for i,l in enumerate(lines):
        if re.match(r'\s*#\[cfg\(test\)\]',l): skip=True;depth=0;started=False;out.append((i,l,False));continue
        if skip:
            out.append((i,l,False))
            depth+=l.count('{')-l.count('}')
            if '{' in l: started=True
            if (started and depth<=0) or (not started and l.rstrip().endswith(';')): skip=False
            continue
        s=l.strip()
        ok=not(s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod') or s.startswith('debug_assert') or s=='' )
        out.append((i,l,ok))
    return lines,out
def gen(files):
    ms=[]
    for f in files:
        p=os.path.join(REPO,f)
        lines,info=src_lines(p)
        for i,l,ok in info:
            if not ok: continue
            code=l.split('//')[0] if '"' not in l else l
            for pat,rep in OPS:
                for m in re.finditer(pat,code):
                    if rep is None:
                        n=int(m.group(1))
                        if '"' in code and code.count('"',0,m.start())%2==1: continue
                        for r in {n+1,max(0,n-1)}-{n}:
                            ms.append((f,i,l,code[:m.start()]+str(r)+code[m.end():]))
                    else:
                        r=re.sub(pat,rep,m.group(0))
                        new=code[:m.start()]+r+code[m.end():]
                        if new!=l: ms.append((f,i,l,new))
            s=code.strip()
            if s.endswith(';') and not re.match(r'(let|return|pub|const|static|type|fn|use|\}|\)|new_key)',s) and s not in('});',');') and s.count('(')==s.count(')'):
                ms.append((f,i,l,'/* deleted */'))
            m=re.match(r'^(\s*)if (?!let)(.*) \{$',code)
            if m:
                ms.append((f,i,l,m.group(1)+'if true {')); ms.append((f,i,l,m.group(1)+'if false {'))
    seen=set();out=[]
    for f,i,l,n in ms:
        k=(f,i,n)
        if k in seen or n==l: continue
        seen.add(k); out.append(dict(id=len(out),file=f,line=i,old=l,new=n))
    return out
def sh(cmd,cwd=None,env=None,timeout=600):
    import signal
    q=subprocess.Popen(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=q.communicate(timeout=timeout)
        return q.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired:
        os.killpg(q.pid,signal.SIGKILL); q.communicate()
        return 124,''
BASE=json.load(open('/opt/vp/BASELINE.json'))
STABLE=None
def setup(w):
    d=f'/tmp/mut/w{w}'
    if os.path.exists(d+'/ready'):
        sh(f'git -C {d}/repo checkout -- .'); return d
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    sh(f'cp -a /repo {d}/repo; mkdir -p {d}/verif; cp -a /verif/sim {d}/verif/sim; cp -a /verif/known-findings.txt {d}/verif/; cp -a /opt/vp/partial {d}/partial; rm {d}/partial/sds/data; ln -s {d}/repo/sds/data {d}/partial/sds/data')
    sh(f"sed -i 's#/repo/#{d}/repo/#g' {d}/partial/sds/src/lib.rs {d}/partial/sds/build.rs {d}/partial/bindings/Cargo.toml")
    open(d+'/ready','w').close()
    return d
def env_for(d,part):
    e=dict(os.environ); e.update(HOME='/root',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUST_BACKTRACE='0',CARGO_BUILD_JOBS='2')
    e['PATH']='/root/.cargo/bin:'+e['PATH']
    if part: e.update(RUSTUP_TOOLCHAIN='1.83.0',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTC_WRAPPER='',CARGO_TARGET_DIR=d+'/partial/target')
    else: e.update(VERIF_DIR=d+'/verif',SIM_WORKERS=os.environ.get('MUT_WORKERS','1'),VERIF_SEED='1',SIM_MIN_SECS='3')
    return e
ALL=['C%02d'%i for i in range(1,14)]
def one(d,m,secs,props):
    # either one changed line, or "edits": [file, old text, new text]...
    origs={}
    def load(f):
        if f not in origs: origs[f]=open(os.path.join(REPO,f)).read()
        return origs[f]
    if 'edits' in m:
        new={}
        for f,a,b in m['edits']:
            t=new.get(f) or load(f)
            assert t.count(a)>=1,(m['id'],f,a)
            new[f]=t.replace(a,b,1)
        props=m.get('props',props)
    else:
        lines=load(m['file']).split('\n'); assert lines[m['line']]==m['old']; lines[m['line']]=m['new']
        new={m['file']:'\n'.join(lines)}
    for f in new: open(os.path.join(d,'repo',f),'w').write(new[f])
    try:
        if not m.get('skip_tests'):
            rc,o=sh('cargo test -p dd-sds -p sds-bindings-utils --no-fail-fast --offline --locked -- --test-threads 2',d+'/partial',env_for(d,True),120)
            if 'could not compile' in o: return 'nobuild',''
            if rc==124: return 'testfail','timeout'
            if re.search(r'^test .* FAILED$',o,re.M): return 'testfail',''
        rc,o=sh('cargo build --release --offline --locked',d+'/verif/sim',env_for(d,False))
        if rc!=0: return 'nobuild',o[-300:]
        caught=[]
        for pr in props:
            e=env_for(d,False); e['SIM_SECS']=str(secs)
            rc,o=sh(f'./target/release/sdsim check {pr} quick',d+'/verif/sim',e,secs*4+120)
            if rc==1:
                mm=re.search(r'class[ =]\S+|VIOLATION.*',o)
                caught.append(pr); break
            elif rc!=0: caught.append(pr+'!%d'%rc); break
        return ('caught' if caught else 'MISSED'),','.join(caught)
    finally:
        for f in origs: open(os.path.join(d,'repo',f),'w').write(origs[f])
def run(inp,outp,n,secs=4,props=ALL):
    ms=json.load(open(inp)); done=set()
    if os.path.exists(outp):
        for l in open(outp): done.add(json.loads(l)['id'])
    ms=[m for m in ms if m['id'] not in done]
    lock=threading.Lock(); q=list(ms)[::-1]
    def worker(w):
        d=setup(w)
        while True:
            with lock:
                if not q or os.path.exists('/tmp/mut/stop'): return
                m=q.pop()
            r,info=one(d,m,secs,props)
            with lock:
                m2=dict(m,result=r,info=info)
                open(outp,'a').write(json.dumps(m2)+'\n')
    ts=[threading.Thread(target=worker,args=(w,)) for w in range(n)]
    [t.start() for t in ts];[t.join() for t in ts]
if __name__=='__main__':
    if sys.argv[1]=='list':
        ms=gen(sys.argv[3:]); json.dump(ms,open(sys.argv[2],'w'),indent=0); print(len(ms))
    else:
        run(sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5]) if len(sys.argv)>5 else 4,sys.argv[6].split(',') if len(sys.argv)>6 else ALL)
