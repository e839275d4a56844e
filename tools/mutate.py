#!/usr/bin/env python3
"""Mutation sweep of the library against the quick checks, in scratch copies under /tmp/mut.
usage: mutate.py gen FILE...            print the mutants
       mutate.py run OUT.jsonl WORKERS FILE...   (resumable: mutants already in OUT are skipped)
Not a registered check: it measures the checks."""
import re,sys,os,json,subprocess,shutil,time,threading,queue
REPO='/repo'; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER={
 'network.rs':'C01 C02 C09 C20 C21 C04 C06 C03 C22',
 'gripper.rs':'C21 C22 C20 C01 C02','gripper/gripper_state.rs':'C21 C22','gripper/types.rs':'C21 C22 C20',
 'robot.rs':'C06 C07 C14 C01 C03 C20 C09 C08 C15 C13 C10 C18 C19 C23',
 'utils.rs':'C05 C16 C24 C10 C13 C14 C11 C12','model.rs':'C18 C19',
 'model/model_library.rs':'C19 C18','model/library_downloader.rs':'C19',
 'robot/control_loop.rs':'C06 C23 C13 C14 C15 C10','robot/control_tools.rs':'C23 C10',
 'robot/control_types.rs':'C14 C10 C13 C15 C16 C24 C06',
 'robot/error.rs':'C25','robot/errors.rs':'C25','robot/logger.rs':'C17',
 'robot/low_pass_filter.rs':'C15 C14','robot/rate_limiting.rs':'C11 C12 C13',
 'robot/robot_impl.rs':'C06 C07 C08 C17 C20 C03 C19 C09 C04','robot/robot_state.rs':'C05 C25 C04',
 'robot/service_types.rs':'C20 C01 C03','robot/types.rs':'C04 C05 C06 C07','robot/virtual_wall_cuboid.rs':'C01 C03',
 'exception.rs':'C03 C07'}
HEAVY=['C04','C09','C12','C11','C02']
ALL=['C%02d'%i for i in range(1,26) if 'C%02d'%i not in HEAVY]+HEAVY
def muts(f):
    L=open(f'{REPO}/src/{f}').read().split('\n')
    out=[]
    for n,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        if f=='robot/types.rs' and 60<n<160: continue
        s=l.strip()
        if not s or s.startswith(('//','use ','pub use','#','*','mod ','pub mod')): continue
        code=l.split(' //')[0]
        strs=[(m.start(),m.end()) for m in re.finditer(r'"[^"]*"',code)]
        instr=lambda p:any(a<=p<b for a,b in strs)
        def rep(pat,new,name):
            for m in re.finditer(pat,code):
                if instr(m.start()): continue
                r=m.expand(new) if isinstance(new,str) else new(m)
                if r is None: continue
                out.append((n,name,code[:m.start()]+r+code[m.end():]))
        rep(r' < ',' <= ','rel'); rep(r' > ',' >= ','rel'); rep(r' <= ',' < ','rel'); rep(r' >= ',' > ','rel')
        rep(r' == ',' != ','rel'); rep(r' != ',' == ','rel')
        rep(r' < ',' > ','rel2'); rep(r' > ',' < ','rel2'); rep(r' <= ',' >= ','rel2'); rep(r' >= ',' <= ','rel2')
        rep(r' \+ ',' - ','ar'); rep(r' - ',' + ','ar'); rep(r' \* ',' / ','ar'); rep(r' / ',' * ','ar')
        rep(r' \+= ',' -= ','ar'); rep(r' -= ',' += ','ar'); rep(r' \*= ',' /= ','ar')
        rep(r'&&','||','log'); rep(r'\|\|(?= |$)','&&','log')
        rep(r'\btrue\b','false','bool'); rep(r'\bfalse\b','true','bool')
        rep(r'(?<![\w.])(\d+)(?![\w.]|\s*\.\.)',lambda m:str(int(m.group(1))+1),'int')
        rep(r'(?<![\w.])(\d+\.\d*(e-?\d+)?)(?![\w])',lambda m:repr(float(m.group(1))*1.25+(1.0 if float(m.group(1))==0 else 0)),'flt')
        rep(r'\.max\(','.min(','mm'); rep(r'\.min\(','.max(','mm'); rep(r'\.abs\(\)','','mm')
        rep(r'(?<=[ (])!(?=[a-z(])','','not')
        rep(r'(?<=[=(,] )-(?=[\w(])','','neg'); rep(r'(?<=\()-(?=[\w(])','','neg')
        m=re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$',code)
        if m:
            for c in('true','false'): out.append((n,'if'+c,m.group(1)+c+m.group(3)))
        if s.endswith(';') and not re.match(r'(let|return|use|const|static|pub|type|break|continue|\}|\)|\.|\])',s) and code.count('(')==code.count(')') and re.match(r'[a-z_*]',s):
            prev=L[n-1].strip()
            if prev.endswith((';','{','}')) : out.append((n,'del',''))
        for a,b in (('o_t_ee_c','o_t_ee_d'),('last','newest')): pass
    seen=set(); res=[]
    for n,k,t in out:
        if t==L[n] or (n,t) in seen: continue
        seen.add((n,t)); res.append(dict(id=f'{f}:{n+1}:{k}:{t.strip()}',f=f,n=n,new=t,old=L[n]))
    return res
def sh(c,cwd,env,t):
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,''
def worker(i,q,out,lock):
    d=f'/tmp/mut/w{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    sh(f'git -C {REPO} archive --prefix=repo/ HEAD | tar x -C {d}; cp -a {REPO}/Cargo.lock {d}/repo/ 2>/dev/null; cp -a {V}/harness {d}/; sed -i "s#/repo#{d}/repo#" {d}/harness/Cargo.toml; sed -i "s/incremental = false/incremental = true/" {d}/harness/Cargo.toml; mkdir -p {d}/v/evidence {d}/v/out','/',os.environ,60)
    env=dict(os.environ,MC_ROOT=f'{d}/v',CARGO_NET_OFFLINE='true')
    while True:
        try:m=q.get_nowait()
        except queue.Empty:break
        p=f'{d}/repo/src/{m["f"]}'; src=open(p).read(); L=src.split('\n'); assert L[m['n']]==m['old']
        L[m['n']]=m['new']; open(p,'w').write('\n'.join(L)); t0=time.time()
        rc,o=sh(f'cargo build --offline --target-dir {d}/t','%s/harness'%d,env,600)
        r=dict(id=m['id'],old=m['old'].strip())
        if rc: r['res']='nobuild'
        else:
            r['res']='SURVIVED'
            pri=ORDER[m['f']].split(); odd=[]
            a=os.environ.get('ALL')
            for c in pri+[c for c in ALL if a and c not in pri and (a=='2' or c not in HEAVY)]:
                rc,o=sh(f'{d}/t/debug/mc check {c} quick',d,env,300)
                if rc==1: r['res']='caught '+c; break
                if rc: odd.append((c,rc,o[-300:]))
            if odd: r['odd']=odd
        open(p,'w').write(src); r['t']=round(time.time()-t0)
        with lock: open(out,'a').write(json.dumps(r)+'\n')
if __name__=='__main__':
    fs=sys.argv[4:] if sys.argv[1]=='run' else sys.argv[2:]
    fs=fs or list(ORDER)
    ms=[m for f in fs for m in muts(f)]
    if sys.argv[1]=='gen':
        for m in ms: print(m['id'])
    else:
        out=sys.argv[2]; done=set()
        if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
        import random; random.Random(1).shuffle(ms)
        q=queue.Queue(); [q.put(m) for m in ms if m['id'] not in done]; lock=threading.Lock()
        T=[threading.Thread(target=worker,args=(i,q,out,lock)) for i in range(int(sys.argv[3]))]
        [t.start() for t in T]; [t.join() for t in T]
