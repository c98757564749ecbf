#!/usr/bin/env python3
# Decides one property by symbolic execution of the code in /repo/CEX.   usage: check.py ID [-e entry] [--strict] [--keep]
import sys,os,re,json,subprocess,hashlib,glob,time,shutil,threading,queue
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('CEX_REPO','/repo'); B=os.path.join(V,'build')
VP='/opt/vp'; NCPU=os.cpu_count() or 8
BASE=('--target=x86_64-w64-mingw32 -std=c++17 -O2 -w -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2 -fno-strict-aliasing -fwrapv -femulated-tls -fcxx-exceptions -mxsave -D_M_X64=100 -D_M_AMD64=100 -DNDEBUG -D_CONSOLE -DUNICODE -D_UNICODE -fdelayed-template-parsing -fgnuc-version=4.2.1 -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -D__EXCEPTIONS=1 -D__STDC__=1').split()
IRF='-fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -emit-llvm'.split()
def prelude():
    # the build's prelude names /repo/CEX/CexConfig.h: same file, same place
    return ['-include',f'{VP}/compat/prelude.h',f'-I{VP}/compat/inc',f'-I{REPO}/CEX',f'-I{V}/harness']
def run(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**k)
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p,'rb') as f: return f.read()
_hdr=None
def hdrhash():
    global _hdr
    if _hdr is None: _hdr=sha(*[rd(p) for p in sorted(glob.glob(f'{REPO}/CEX/*.h'))],*[rd(p) for p in sorted(glob.glob(f'{V}/harness/*.h'))+[f'{VP}/compat/prelude.h']])
    return _hdr
class BuildError(Exception): pass
def engine():
    src=sorted(glob.glob(f'{V}/engine/*')); h=sha(*[rd(p) for p in src]); d=f'{B}/engine'; st=f'{d}/stamp'
    if os.path.exists(st) and open(st).read()==h and os.path.exists(f'{d}/symx'): return f'{d}/symx'
    os.makedirs(d,exist_ok=True); r=run(['bash',f'{V}/engine/Makefile.sh',d])
    if r.returncode: raise BuildError('engine: '+r.stderr[-2000:])
    open(st,'w').write(h); return f'{d}/symx'
def source(tu):
    p=f'{REPO}/CEX/{tu}.cpp'
    if tu=='FileStream': # accepted by MSVC only; the project's own build compiles the same edited copy
        s=rd(p).decode('utf-8','replace').replace('static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))','static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))')
        os.makedirs(f'{B}/gen',exist_ok=True); p=f'{B}/gen/FileStream.cpp'; open(p,'w').write(s)
    return p
def compile1(path,mode,extra=()):
    fl=BASE+(IRF if mode=='bc' else [])+prelude()+list(extra)
    inc=[rd(f'{REPO}/CEX/{x}') for x in re.findall(r'^#include "(\w+\.cpp)"',rd(path).decode('utf-8','replace'),re.M) if os.path.exists(f'{REPO}/CEX/{x}')]
    key=sha(hdrhash(),rd(path),' '.join(fl),mode,path,*inc); out=f'{B}/{mode}/{os.path.basename(path)[:-4]}-{key}.{"bc" if mode=="bc" else "o"}'
    if not os.path.exists(out):
        os.makedirs(f'{B}/{mode}',exist_ok=True); tmp=f'{out}.{os.getpid()}.{threading.get_ident()}.tmp'
        r=run(['clang++']+fl+['-c',path,'-o',tmp])
        if r.returncode: raise BuildError(f'{path}: {r.stderr[-3000:]}')
        os.rename(tmp,out)
    return out
_files=None; _cls={}
def tu_of(sym):
    global _files
    if _files is None:
        _files={os.path.basename(p)[:-4] for p in glob.glob(f'{REPO}/CEX/*.cpp')}
        for t in sorted(_files): # classes whose members are defined in a file of another name
            for c in set(re.findall(r'^(?:[\w:&<>*]+[ \t]+)+&?\*?(\w+)::\w+\(',rd(f'{REPO}/CEX/{t}.cpp').decode('utf-8','replace'),re.M)): _cls.setdefault(c,t)
    s=re.sub(r'^(vtable for|typeinfo for|typeinfo name for|VTT for|guard variable for) ','',sym)
    s=s.split('(')[0]; s=re.sub(r'<.*','',s)
    for c in reversed(re.findall(r'\w+',s)):
        if c in _files: return c
        if c in _cls: return _cls[c]
    return None
def undefined(bc):
    r=run(['llvm-nm-18','--undefined-only','--just-symbol-name',bc]); names=[l.strip() for l in r.stdout.split('\n') if l.strip()]
    r=run(['llvm-cxxfilt-18'],input='\n'.join(names)); return list(zip(names,r.stdout.split('\n')))
POOL=ThreadPoolExecutor(NCPU+2); LINKLOCK=threading.Lock()
def ni(h,t): return ['-fno-inline'] if t in h['noinline'] else [] # functions the harness replaces must not be inlined inside their own file
def build_module(h,ex=()):
    """compiles the harness and every translation unit it reaches, links them, returns (bc, list of TUs)"""
    entries=[e['name'] for e in h['entries']]; out=f'{B}/mod/{h["base"]}'; os.makedirs(out,exist_ok=True)
    tus=list(h['with']); todo=[POOL.submit(compile1,h['path'],'bc',h['flags']),POOL.submit(compile1,f'{V}/harness/env.cpp','bc'),POOL.submit(compile1,f'{V}/harness/rt.cpp','bc')]+[POOL.submit(compile1,source(t),'bc',ni(h,t)) for t in tus]
    own=[f.result() for f in todo]; fallback=False; cached=f'{out}/{sha(hdrhash(),' '.join(entries),*[rd(o) for o in own],*[rd(p) for p in sorted(glob.glob(f"{REPO}/CEX/*.cpp"))])}'
    if os.path.exists(cached+'.bc') and os.path.exists(cached+'.json'): return cached+'.bc',json.load(open(cached+'.json'))
    for rnd in range(40):
        link=f'{out}/l{os.getpid()}.bc'; fin=f'{out}/m{os.getpid()}.bc'
        r=run(['llvm-link-18','-o',link]+own[2:]+[f'--override={own[1]}',f'--override={own[0]}'])
        if r.returncode: raise BuildError('llvm-link: '+r.stderr[-2000:])
        r=run(['opt-18','-passes=internalize,globaldce','-internalize-public-api-list='+','.join(entries+['memcpy','memset']),link,'-o',fin])
        if r.returncode: raise BuildError('opt: '+r.stderr[-2000:])
        need=[]; miss=[]
        for n,d in undefined(fin):
            t=tu_of(d) if 'CEX::' in d else None
            if t and t in h['exclude']: continue
            if t and t not in tus and t not in need and t not in ('CpuDetect','ParallelTools'): need.append(t)
            elif 'CEX::' in d and not t: miss.append(d)
        if not need:
            if miss and not fallback:
                fallback=True; need=[t for t in sorted(_files) if t not in tus and t not in ('CpuDetect','ParallelTools') and t not in h['exclude']]
                def tryc(t):
                    try: return t,compile1(source(t),'bc',ni(h,t))
                    except BuildError: return t,None
                for t,o in POOL.map(tryc,need):
                    if o: own.append(o); tus.append(t)
                continue
            break
        for f in [POOL.submit(compile1,source(t),'bc',ni(h,t)) for t in need]: own.append(f.result())
        tus+=need
    os.remove(link); 
    for o in glob.glob(f'{out}/*.json')+[x for x in glob.glob(f'{out}/*.bc') if x!=fin]: os.remove(o)
    os.rename(fin,cached+'.bc'); json.dump(tus,open(cached+'.json','w')); return cached+'.bc',tus
def parse_harness(path,tier):
    s=open(path).read(); h={'path':path,'base':os.path.basename(path)[:-4],'entries':[],'flags':[],'with':[],'exclude':[],'noinline':[]}
    m=re.search(r'^//@flags (.*)$',s,re.M); h['flags']=m.group(1).split() if m else []
    m=re.search(r'^//@with (.*)$',s,re.M); h['with']=m.group(1).split() if m else []
    m=re.search(r'^//@noinline (.*)$',s,re.M); h['noinline']=m.group(1).split() if m else []
    m=re.search(r'^//@exclude (.*)$',s,re.M); h['exclude']=m.group(1).split() if m else []
    m=re.search(r'^//@t (\d+)',s,re.M); deft=int(m.group(1)) if m else 120
    for m in re.finditer(r'^ENTRY\s+(\w+)\s*\(\)[^\n]*?//@(.*)$',s,re.M):
        e={'name':m.group(1),'t':deft,'at':30,'reach':[],'tier':'quick','b':''}
        for k,q,v in re.findall(r'(\w+)=("([^"]*)"|\S+)',m.group(2)):
            val=v if q.startswith('"') else q
            if k in('t','at','rl'): e[k]=int(val)
            elif k=='reach': e[k]=[int(x) for x in val.split(',')]
            else: e[k]=val
        if e['tier']=='quick' and tier=='thorough' or e['tier']==tier: h['entries'].append(e)
        if tier=='thorough': e['t']=e['t']*6; e['at']=e['at']*6
    return h
NATIVE={}
def native(h,entry,tus):
    k=(h['path'],entry)
    if k in NATIVE: return NATIVE[k]
    try:
        fs=[POOL.submit(compile1,h['path'],'o',h['flags']),POOL.submit(compile1,f'{V}/harness/env.cpp','o'),POOL.submit(compile1,f'{V}/harness/rt_native.cpp','o',[f'-DREPLAY_ENTRY={entry}'])]
        def tryc(t):
            try: return compile1(source(t),'o',ni(h,t))
            except BuildError: return None
        objs=[f.result() for f in fs]+[o for o in POOL.map(tryc,tus) if o]
        os.makedirs(f'{B}/exe',exist_ok=True); exe=f'{B}/exe/{h["base"]}-{entry}-{os.getpid()}.exe'
        have=set(tus); extra=[]
        for rnd in range(12):
            r=run(['x86_64-w64-mingw32-g++-posix','-static','-o',exe]+objs+extra+['-Wl,--allow-multiple-definition','-lws2_32','-liphlpapi','-lcrypt32','-lnetapi32','-lpsapi','-ladvapi32','-lole32','-Wl,--stack,67108864'])
            if r.returncode==0: break
            und=set(re.findall(r"undefined reference to `([^']*)'",r.stderr)); new={t for t in map(tu_of,und) if t and t not in have and t not in ('CpuDetect','ParallelTools')}
            if not new: break
            have|=new; extra+=[o for o in POOL.map(tryc,sorted(new)) if o]
        if r.returncode: sys.stderr.write('native link: '+'\n'.join([l for l in r.stderr.split('\n') if 'duplicate section' not in l][-12:])+'\n'); exe=None
    except BuildError as e: sys.stderr.write(f'native: {e}\n'); exe=None
    NATIVE[k]=exe; return exe
def wine(exe,inp):
    pfx=f'{B}/wine-{os.getpid()}'
    if not os.path.exists(pfx): shutil.copytree(f'{VP}/wine',pfx,symlinks=True)
    e=dict(os.environ,WINEPREFIX=pfx,WINEDEBUG='-all')
    try: r=run(['/usr/lib/wine/wine64',exe,inp],env=e,timeout=120); return r.returncode,r.stdout[-1000:]
    except subprocess.TimeoutExpired: return -1,'timeout'
def known(pid):
    p=f'{V}/known_findings.json'
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f.get("property")==pid]
def main():
    a=sys.argv[1:]
    if a[0]=='--setup': engine(); return
    pid=a[0]; only=a[a.index('-e')+1] if '-e' in a else None; strict='--strict' in a
    tier=os.environ.get('VERIF_TIER','quick'); tier=tier if tier in('quick','thorough') else 'quick'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); budget=float(os.environ.get('VERIF_BUDGET','780' if tier=='quick' else '14000'))
    title=pid
    eng=engine(); hs=[parse_harness(p,tier) for p in sorted(glob.glob(f'{V}/harness/{pid.lower()}*.cpp'))]
    if only:
        for h in hs: h['entries']=[e for e in h['entries'] if re.fullmatch(only,e['name'])]
    hs=[h for h in hs if h['entries']]
    work=f'{B}/run/{pid}'; shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    tok=f'{work}/tokens'; jobs=[]; res=[]; problems=[]; viols=[]; lk=threading.Lock()
    with ThreadPoolExecutor(6) as bp:
        fs=[(h,bp.submit(build_module,h)) for h in hs]
        for h,f in fs:
            try: h['bc'],h['tus']=f.result()
            except BuildError as e: problems.append(f'{h["base"]}: does not build: {e}'); continue
            for e in h['entries']: jobs.append((h,e))
    tb=time.time()-t0
    jobs.sort(key=lambda j:-j[1]['t'])
    def job(he):
        h,e=he; left=budget-(time.time()-t0)
        if left<5: 
            with lk: problems.append(f'{e["name"]}: not run, out of time'); 
            return
        d=f'{work}/{e["name"]}'; os.makedirs(d)
        r=run([eng,h['bc'],'--entry',e['name'],'--out',d,'--time',str(min(e['t'],left)),'--assert-time',str(e['at']),'--procs',str(NCPU),'--seed',str(seed),'--shared',tok]+(['--assert-rl',str(e['rl'])] if 'rl' in e else [])+(['-v'] if strict else []))
        try: j=json.loads(r.stdout.strip().split('\n')[-1])
        except Exception: j=None
        with lk:
            if j is None: problems.append(f'{e["name"]}: engine failed: {r.stderr[-500:]}'); return
            j['entry']=e['name']; j['bound']=e['b']; j['functions']=sorted(set(open(d+'/funcs.txt').read().split())) if os.path.exists(d+'/funcs.txt') else []
            res.append(j)
            if j['errors']: problems.append(f'{e["name"]}: {j["errors"]} engine errors: '+' | '.join(open(x).read()[:600 if strict else 200] for x in sorted(glob.glob(d+'/err-*.txt'))[:1])+('' if j['errors'] and glob.glob(d+'/err-*.txt') else r.stderr[-300:]))
            if j['timeouts']: problems.append(f'{e["name"]}: time limit reached on {j["timeouts"]} paths')
            if j['inconclusive']: problems.append(f'{e["name"]}: {j["inconclusive"]} queries undecided within limits')
            if not j['violations']:
                miss=[k for k in e['reach'] if not j['reach'].get(str(k))]
                if miss or not j['completed']: problems.append(f'{e["name"]}: reachability witness missing {miss} completed={j["completed"]}')
            if strict: print(f'{e["name"]}: paths {j["paths"]} asserts {j["asserts"]} (rw {j["asserts_rewritten"]}, smt {j["asserts_smt"]}) queries {j["queries"]} solver {j["solver_s"]:.1f}s viol {j["violations"]} err {j["errors"]} inc {j["inconclusive"]} to {j["timeouts"]} nodes {j["max_nodes"]} reach {j["reach"]} wall {j["wall_s"]}'); sys.stdout.flush()
            if strict and '-v' in a: print(r.stderr[-6000:])
            for t in sorted(glob.glob(d+'/viol-*.txt')): viols.append((h,e,t))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(job,jobs))
    # violations: replay each on the real code before reporting it
    reported=[]; kn=[]; unconf=[]; seen={}
    demang={}
    for h,e,t in viols:
        lines=open(t,errors='replace').read().split('\n'); msg=lines[0]; key=(e['name'],msg)
        if seen.get(key,0)>=2 or len(reported)>=4: continue
        seen[key]=seen.get(key,0)+1
        inp=t[:-4]+'.in'; ok=False; how=''
        if strict: print('CANDIDATE',e['name'],msg,'\n  '+'\n  '.join(lines[1:24]))
        engine_kind=msg.startswith('fault:') or msg.startswith('data race') or msg.startswith('secret-dependent') or '[engine]' in msg
        exe=native(h,e['name'],h['tus'])
        if exe:
            rc,o=wine(exe,inp)
            if 'REPLAY-FAIL' in o or (rc not in(0,) and 'REPLAY-OK' not in o and 'REPLAY-ASSUME' not in o and rc!=-1): ok=True; how=f'native replay (exit {rc}): {o.strip()[-300:]}'
            elif strict: print('  native replay:',rc,o)
        if not ok and engine_kind:
            if msg.startswith('secret-dependent'): ok=True; how='symbolic: both outcomes feasible for different secrets'
            else:
                d2=t[:-4]+'-c'; r=run([eng,h['bc'],'--entry',e['name'],'--out',d2,'--time','100','--concrete',inp,'--procs','1'])
                try: ok=json.loads(r.stdout.strip().split('\n')[-1])['violations']>0
                except Exception: ok=False
                how='concrete re-execution of the same IR with the recorded inputs'
        if not ok: unconf.append(f'{e["name"]}: {msg}'); continue
        k=next((f for f in known(pid) if re.fullmatch(f['entry'],e['name']) and re.search(f['match'],'\n'.join(lines))),None)
        if k: kn.append(k['what']) if k['what'] not in kn else None; continue
        if key in [r[0] for r in reported]: continue
        rp=f'{B}/replay/{pid}'; os.makedirs(rp,exist_ok=True); dst=f'{rp}/{e["name"]}-{len(reported)}'
        shutil.copy(inp,dst+'.in'); (shutil.copy(inp+".uf",dst+".in.uf") if os.path.exists(inp+".uf") else None); open(dst+'.txt','w').write('\n'.join(lines)+'\n'+how+f'\nreplay: check.py {pid} -e {e["name"]}\n')
        reported.append((key,dst+'.txt',how))
    for k in kn: print(f'KNOWN-FINDING: property={pid} {k}')
    for (k,p,how) in reported:
        print(f'VIOLATION property={pid} replay={p}'); print(f'  entry {k[0]}: {k[1]}\n  {how}')
    S=lambda f:sum(j[f] for j in res); fn=sorted({x for j in res for x in j['functions']})
    if fn:
        r=run(['llvm-cxxfilt-18'],input='\n'.join(fn)); fn=sorted({x for x in r.stdout.split('\n') if 'CEX::' in x and not x.startswith('std::')})
    if only is None:
        ev={'property':pid,'tier':tier,'seed':seed,'level':'other','wall_s':round(time.time()-t0,2),'violations':len(reported),
         'assumptions':['clang 18 -O2 IR of the x86-64 mingw build configuration is executed; later machine-code generation is trusted','the symbolic executor (engine/) and z3/cvc5 are trusted; counterexamples are replayed natively','CPU feature detection and thread launching are replaced by harness/env.cpp'],
         'coverage':{'explanation':'The functions below were executed symbolically from LLVM IR generated from the current tree in this run. Each entry holds for every value of its symbolic inputs within its stated bound: assertions folded to true by term rewriting (asserts_rewritten) or proved unsatisfiable by an SMT solver (asserts_smt). Anything listed under undecided was not settled in this run and is not claimed.',
           'entries':[{k:j[k] for k in ('entry','bound','paths','forks','insts','asserts','asserts_rewritten','asserts_smt','queries','sat','unsat','unknown','portfolio','solver_s','reach','max_nodes','wall_s','violations','errors','inconclusive','timeouts')} for j in res],
           'functions_encoded':fn,'functions_encoded_count':len(fn),'paths':S('paths'),'instructions':S('insts'),'obligations':S('asserts'),'discharged':S('asserts')-S('violations')-S('inconclusive') if not problems else max(0,S('asserts')-S('violations')-S('inconclusive')),'queries':S('queries'),'solver_s':round(S('solver_s'),2),'build_s':round(tb,1),'undecided':problems+unconf,'known_findings':kn}}
        os.makedirs(f'{V}/evidence',exist_ok=True); json.dump(ev,open(f'{V}/evidence/{pid}.json','w'),indent=1)
    print(f'{pid}: {len(res)} entries, {S("paths")} paths, {S("asserts")} assertions ({S("asserts_smt")} by SMT), {S("queries")} queries, solver {S("solver_s"):.1f}s, build {tb:.0f}s, wall {time.time()-t0:.0f}s, violations {len(reported)}, undecided {len(problems)+len(unconf)}')
    for p in sorted(set(problems+unconf))[:40]: print('  undecided: '+(p[:700] if strict else p[:300]).replace('\n','\n      '))
    if not '--keep' in a and not strict: shutil.rmtree(work,ignore_errors=True)
    shutil.rmtree(f'{B}/wine-{os.getpid()}',ignore_errors=True)
    for x in NATIVE.values():
        if x and os.path.exists(x) and not strict: os.remove(x)
    sys.stdout.flush(); os._exit(1 if reported else 0)
if __name__=='__main__': main()
