#!/usr/bin/env python3
"""mut.py FILE(rel to /repo) N harness.cpp 'extra flags' [mult] [first-last] [np]: random token mutants, run the harness, report survivors"""
import sys,re,random,subprocess,os,shutil,concurrent.futures as cf
f,n,h,extra=sys.argv[1],int(sys.argv[2]),sys.argv[3],sys.argv[4].split(';')
mult=sys.argv[5] if len(sys.argv)>5 else '1'
rng=sys.argv[6] if len(sys.argv)>6 else ''
np=int(sys.argv[7]) if len(sys.argv)>7 else 0
src=open('/repo/'+f).read().split('\n')
cand=[]
lo,hi=(map(int,rng.split('-')) if rng else (1,len(src)))
incomment=False
for i,l in enumerate(src):
    s=l.strip()
    if '/*' in s and '*/' not in s: incomment=True
    if '*/' in s: incomment=False; continue
    if incomment or s.startswith('//') or s.startswith('*') or s.startswith('#') or s.startswith('assert') or 'std::cout' in s or ('throw' in s and not os.environ.get('STR')) or 'template' in s or 'cerr' in s or 'const_cast' in s or ('"' in s and not os.environ.get('STR')): continue
    if not (lo<=i+1<=hi): continue
    code=l.split('//')[0]
    for pat,reps in [(r'(?<![\w.])\d+(?![\w.])',None),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),(r'(?<![<-])< (?=[\w])',['<= ']),(r' > ',[' >= ',' < ']),(r' == ',[' != ']),(r'\+\+',['--']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'&&',['||']),(r'\|\|',['&&']),(r'\+=',['-=','=']),(r'\bUP\b',['DOWN']),(r'\bLEFT\b',['RIGHT']),(r'\bRIGHT\b',['LEFT']),(r'\bDOWN\b',['UP']),(r'\brow\b',['col']),(r'\bcol\b',['row']),(r'\brows\b',['cols']),(r'\bsite1\b',['site2']),(r'\bDag\(',['(']),(r'ComplexConjugate\(',['(']),(r'std::conj\(',['(']),(r'std::abs\(',['(']),(r'\bif \((?!constexpr)',['if (!','if (0 && ']),(r'^\s+[\w\[\]().>-]+\([^;{}]*\);$',['DEL']),(r'std::max',['std::min']),(r'std::min',['std::max'])]:
        for m in re.finditer(pat,code):
            if reps is None:
                v=int(m.group()); rs=[str(x) for x in {v+1,max(v-1,0),v^1} if x!=v]
            else: rs=reps
            for r in rs:
                new = '' if r=='DEL' else l[:m.start()]+r+l[m.end():]
                if r.startswith('if (!') or r.startswith('if (0'):
                    continue
                cand.append((i,l,new))
random.seed(int(os.environ.get('MS','1'))); random.shuffle(cand)
cand=cand[:n]
def run(k):
    i,l,new=cand[k]; d=f'/tmp/mut_{os.getpid()}/{k}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/repo')
    subprocess.run(['cp','-a','/repo/include',d+'/repo/'],check=True)
    s=src[:]; s[i]=new; open(f'{d}/repo/{f}','w').write('\n'.join(s))
    res=None; fails=0
    for j,ex in enumerate(extra):
        c=subprocess.run(['mpicxx','-std=c++20','-O1','-w','-I/verif/pbt','-I/verif/standin','-I/verif/harness','-I'+d+'/repo/include']+ex.split()+['/verif/harness/'+h,'-o',d+f'/h{j}'],capture_output=True,text=True)
        if c.returncode: fails+=1; continue
        try:
            cmd=[d+f'/h{j}','--seed','1','--mult',mult,'--out',d+'/o.json','--shrink','0']
            if np: cmd=['mpirun','--allow-run-as-root','--oversubscribe','-np',str(np)]+cmd
            r=subprocess.run(cmd,capture_output=True,text=True,timeout=300,cwd=d,env=dict(os.environ,PBT_SCRATCH=d))
            if r.returncode: res='killed'
        except subprocess.TimeoutExpired: res='killed'
        if res: break
    if not res: res='nocompile' if fails==len(extra) else 'SURVIVED'
    shutil.rmtree(d,ignore_errors=True)
    return k,res
tot={}
with cf.ThreadPoolExecutor(8) as ex:
    for k,res in ex.map(run,range(len(cand))):
        tot[res]=tot.get(res,0)+1
        if res=='SURVIVED': print(f'{cand[k][0]+1}: {cand[k][1].strip()[:110]}  ==>  {cand[k][2].strip()[:110]}',flush=True)
print(tot)
