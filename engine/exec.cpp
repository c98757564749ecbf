// Symbolic executor for LLVM IR.
#include "solver.h"
#include "ufsem.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <functional>
#include <cmath>
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
extern u64 g_nodeLimit;
using namespace llvm;
typedef std::vector<std::string> SV;

// ------------------------------------------------------------------ options
static std::string optOut="."; static double optTime=600,optAssertT=60; static unsigned optRl=3000000,optAssertRl=20000000; static long optProcs=8; static u64 optSeed=1; static u64 optMaxInst=4000000000ull; static std::string optConcrete; static bool optVerbose=false; static bool optTrace=false; static bool optWitness=false; static u64 optVioMax=3;
static double t_start; static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Tokens{ volatile long active,maxActive; }; static Tokens* TOK;
#define INC(f) __sync_fetch_and_add(&SH->f,1)
// ------------------------------------------------------------------ values
struct Val { E e; u64 c; };
static inline Val VC(u64 c){return Val{nullptr,c};}
static inline u64 maskw(u64 c,u32 w){ return w>=64?c:c&((1ull<<w)-1); }
static inline E toE(const Val&v,u32 w){ return v.e?v.e:mkC(w,v.c); }
static inline Val fromE(E e){ if(e->k==CONST&&e->w<=64) return VC(e->aux); return Val{e,0}; }
static inline bool isCV(const Val&v){return !v.e;}

static LLVMContext* CTX; static Module* M; static const DataLayout* DL;
// ------------------------------------------------------------------ memory
struct SymByte { E e; u32 idx; };
struct Obj { u64 base; u64 size; u8* data; SymByte* sym; u8 alive,kind; /*0 global 1 heap 2 stack 3 func*/ bool ro; u64 tag; const char* name; };
static std::vector<Obj> objs;
struct Region { u64 base; std::vector<u32> map; u64 top; };
static Region RG{0x10000000ull,{},0}, RH{0x100000000ull,{},0}, RS{0x800000000ull,{},0};
static const u64 GR=64;
static Region* regionOf(u64 a){ if(a>=RS.base&&a<RS.base+RS.top) return &RS; if(a>=RH.base&&a<RH.base+RH.top) return &RH; if(a>=RG.base&&a<RG.base+RG.top) return &RG; return nullptr; }
static u32 newObj(u64 size,int kind,u64 align=64,bool ro=false,const char*name=nullptr,u8 fill=0xCD){
  Region&R=kind==0||kind==3?RG:kind==1?RH:RS; if(align<64) align=64;
  u64 b=R.base+R.top; b=(b+align-1)/align*align; u64 end=b+size+64; end=(end+GR-1)/GR*GR; 
  Obj o; o.base=b;o.size=size;o.data=(u8*)malloc(size?size:1); memset(o.data,fill,size); o.sym=nullptr;o.alive=1;o.kind=kind;o.ro=ro;o.tag=0;o.name=name;
  u32 id=objs.size(); objs.push_back(o); R.top=end-R.base; R.map.resize(R.top/GR,~0u); for(u64 g=(b-R.base)/GR;g*GR+R.base<b+(size?size:1);g++) R.map[g]=id;
  return id;
}
static int findObj(u64 a){ Region*R=regionOf(a); if(!R) return -1; u32 id=R->map[(a-R->base)/GR]; if(id==~0u) return -1; return id; }
static void freeObjMem(Obj&o){ free(o.data); if(o.sym) free(o.sym); o.data=nullptr;o.sym=nullptr;o.alive=0; }
static void ensureSym(Obj&o){ if(!o.sym) o.sym=(SymByte*)calloc(o.size?o.size:1,sizeof(SymByte)); }

// ------------------------------------------------------------------ decoded code
struct Fn; struct DI;
struct Opnd { int slot; const Val* cv; };
struct PhiMove { int dst; int n; Opnd src; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct GepIdx { Opnd o; u32 w; u64 scale; };
struct DI { u32 op; u32 sub; int dst; u32 n; u32 w; u32 w2; u32 n2; Instruction* I; std::vector<Opnd> o; std::vector<u32> ow,on; int e0,e1; u64 imm; std::vector<GepIdx> gi; std::vector<int> mask; Fn* callee; std::vector<std::pair<u64,int>> sw; Type* ty; std::vector<std::pair<u32,u32>> lay; };
struct Fn { Function* F; bool decoded=false; int nslots=0; std::vector<DI> code; std::vector<Edge> edges; std::vector<int> argSlot; std::vector<u32> argN; u64 addr=0; int builtin=-1; std::string name; bool used=false; };
static DenseMap<Function*,Fn*> fns; static std::unordered_map<u64,Fn*> fnByAddr;
static DenseMap<const GlobalValue*,u64> gaddr;
struct Frame { Fn* f; Val* r; int pc; size_t objMark; u64 stackTop; int retDst; int retN; DI* call; };
static std::vector<Frame> st; static Val* regStack; static size_t regTop=0; static const size_t REGCAP=1<<26;

// ------------------------------------------------------------------ path state
static EV PC; static std::unordered_set<u32> pcSet;
struct Model { Asg a; Evaluator* ev; };
static std::vector<Model*> models; static u64 rngS=88172645463325252ull;
static u64 rnd(){ rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; return rngS; }
struct TraceRec { bool isVar; u32 var; std::vector<u8> bytes; };
static std::vector<TraceRec> trace; static int vioLocal=0;
static std::vector<pid_t> kids;
static u64 instCount=0;
static bool ctMode=false; static std::set<u32> secretVars; static std::set<u32> ctReported;
static std::string where();
static void finishProcess(int code);
static void engineError(const std::string&m){ INC(errors); char b[512]; snprintf(b,512,"%s/err-%d.txt",optOut.c_str(),getpid()); FILE*f=fopen(b,"a"); if(f){ fprintf(f,"%s\n%s\n",m.c_str(),where().c_str()); fclose(f);} fprintf(stderr,"ENGINE-ERROR %s\n%s\n",m.c_str(),where().c_str()); finishProcess(0); }
static void dumpFuncs();
static void finishProcess(int code){
  if(SH->paths<40) dumpFuncs();
  INC(paths); if((long)nodeCount()>SH->maxNodes) SH->maxNodes=nodeCount(); __sync_fetch_and_add(&SH->insts,(long)instCount);
  __sync_fetch_and_sub(&TOK->active,1);
  for(pid_t k:kids){ int s; waitpid(k,&s,0); if(WIFSIGNALED(s)||(WIFEXITED(s)&&WEXITSTATUS(s)!=0)){ INC(errors); char b[512]; snprintf(b,512,"%s/err-%d.txt",optOut.c_str(),getpid()); FILE*f=fopen(b,"a"); if(f){ fprintf(f,"child %d died status %x\n",k,s); fclose(f);} } }
  _exit(code);
}
static void dumpFuncs(){ std::string s; for(auto&kv:fns) if(kv.second->used&&kv.second->builtin<0){ s+=kv.second->name; s+='\n'; } std::string fn=optOut+"/funcs.txt"; int fd=open(fn.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if(fd>=0){ (void)!write(fd,s.data(),s.size()); close(fd);} }
static Model* newModel(){ Model*m=new Model; m->ev=new Evaluator(m->a); return m; }
static void randFill(APInt&a,u32 w,int mode){ if(mode==0) a=APInt(w,0); else if(mode==1) a=APInt::getAllOnes(w); else { std::vector<u64> ws((w+63)/64); for(auto&x:ws) x=rnd(); if(mode==3){ for(auto&x:ws){ u64 r=rnd(); if(r%3==0) x=0; else if(r%3==1) x=~0ull; } } a=APInt(w,ws);} }
static void onNewVar(u32 id){ for(size_t i=0;i<models.size();i++){ auto&v=models[i]->a.v; if(v.size()<=id) v.resize(id+1,APInt(1,0)); randFill(v[id],g_vars[id].w,i<4?(int)i:2+(int)(rnd()&1)); } }
static E newSym(u32 w,const std::string&n){ E v=mkVar(w,n); onNewVar(g_vars.size()-1); return v; }
static bool modelOk(Model*m){ for(E e:PC) if(m->ev->ev(e).isZero()) return false; return true; }
static std::vector<Model*> cand; // fallback random candidates
static void addPC(E c){ if(isC(c)) return; if(c->k==AND&&c->w==1){ for(u32 i=0;i<c->n;i++) addPC(c->kid[i]); return; } if(!pcSet.insert(c->id).second) return; PC.push_back(c); std::vector<Model*> k; for(auto*m:models) if(!m->ev->ev(c).isZero()) k.push_back(m); else { delete m->ev; delete m; } models.swap(k); }
static EV slice(E c){ // constraints transitively sharing variables with c
  std::set<u32> vs; auto coll=[&](E e,std::set<u32>&o){ std::unordered_set<u32> seen; EV s{e}; while(!s.empty()){ E x=s.back(); s.pop_back(); if(x->k==CONST||!seen.insert(x->id).second) continue; if(x->k==VAR) o.insert(x->aux); if(x->k==UF) o.insert(0x80000000u+x->aux); for(u32 i=0;i<x->n;i++) s.push_back(x->kid[i]); } };
  coll(c,vs); std::vector<std::set<u32>> ps(PC.size()); for(size_t i=0;i<PC.size();i++) coll(PC[i],ps[i]); std::vector<bool> in(PC.size(),false); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<PC.size();i++) if(!in[i]){ for(u32 v:ps[i]) if(vs.count(v)){ in[i]=true; ch=true; vs.insert(ps[i].begin(),ps[i].end()); break; } } } EV r; for(size_t i=0;i<PC.size();i++) if(in[i]) r.push_back(PC[i]); r.push_back(c); return r; }
// complete a partial model (from slice) with an existing model for the other variables
static void adoptModel(Asg&a,E c){ Model*m=newModel(); if(!models.empty()) m->a=models[0]->a; m->a.v.resize(g_vars.size(),APInt(1,0)); for(size_t i=0;i<g_vars.size();i++){ if(m->a.v[i].getBitWidth()!=g_vars[i].w) m->a.v[i]=APInt(g_vars[i].w,0); } std::set<u32> vs; for(E e:slice(c)) collectVars(e,vs); for(u32 v:vs) if(v<a.v.size()&&a.v[v].getBitWidth()==g_vars[v].w) m->a.v[v]=a.v[v]; for(auto&kv:a.uf) m->a.uf[kv.first]=kv.second; m->ev=(delete m->ev,new Evaluator(m->a)); if(modelOk(m)) models.push_back(m); else { delete m->ev; delete m; } }
// is PC && c satisfiable?  (UNKNOWN counts as yes)
static bool feasible(E c){
  if(isC(c)) return c->aux; if(pcSet.count(c->id)) return true; if(pcSet.count(mkNot(c)->id)) return false;
  for(auto*m:models) if(!m->ev->ev(c).isZero()){ INC(cacheHits); return true; }
  Asg a; SatRes r=solve(slice(c),&a,optRl,0); if(r==UNKNOWN) r=solve(slice(c),&a,0,15);
  if(r==SAT) adoptModel(a,c); if(r==UNKNOWN) INC(inconcl); return r!=UNSAT;
}
static pid_t doFork(){ // returns 0 in child
  INC(forks); if(const char*fl=getenv("SYMX_FORKLOG")){ FILE*f=fopen(fl,"a"); if(f){ std::string w=where(); for(auto&c:w) if(c=='\n') c=' '; fprintf(f,"%s\n",w.substr(0,500).c_str()); fclose(f); } } bool par=__sync_add_and_fetch(&TOK->active,1)<=TOK->maxActive; if(!par) __sync_fetch_and_sub(&TOK->active,1);
  fflush(stdout); fflush(stderr); pid_t p; int tries=0; while((p=fork())<0&&tries++<100) usleep(100000);
  if(p<0) engineError("fork failed");
  if(p==0){ kids.clear(); instCount=0; rngS=rngS*0x9E3779B97F4A7C15ull+0x1234567; if(!par) __sync_fetch_and_add(&TOK->active,1); return 0; }
  if(par) kids.push_back(p); else { __sync_fetch_and_sub(&TOK->active,1)+0; int s; waitpid(p,&s,0); __sync_fetch_and_add(&TOK->active,1); if(WIFSIGNALED(s)||(WIFEXITED(s)&&WEXITSTATUS(s)!=0)){ INC(errors); char b[512]; snprintf(b,512,"%s/err-%d.txt",optOut.c_str(),getpid()); FILE*f=fopen(b,"a"); if(f){ fprintf(f,"child %d died status %x\n",p,s); fclose(f);} } }
  return p;
}
static void ctViolation(const char*what,E c);
// decide a boolean, forking when both outcomes are possible
static bool decide(E c){
  if(isC(c)) return c->aux; if(pcSet.count(c->id)) return true; if(pcSet.count(mkNot(c)->id)) return false;
  if(now()-t_start>optTime){ INC(timeouts); finishProcess(0); }
  E nc=mkNot(c); bool t=feasible(c); bool f; if(!t) f=true; else f=feasible(nc);
  if(t&&f){ if(ctMode&&dependsOn(c,secretVars)) ctViolation("branch on secret data",c);
    if(doFork()==0){ addPC(nc); return false; } addPC(c); return true; }
  addPC(t?c:nc); return t;
}
static u64 concretize(E e,const char*what){ // enumerate all feasible values by forking
  if(isC(e)) return cu64(e); if(e->w>64) engineError("concretize wide");
  for(int it=0;it<100000;it++){ u64 v; if(models.empty()){ Asg a; E t=tTrue(); EV c=PC; if(c.empty()) c.push_back(t); E dep=mkEq(e,e); (void)dep; SatRes r=solve(PC,&a,optRl,15); if(r==SAT){ Model*m=newModel(); a.v.resize(g_vars.size(),APInt(1,0)); for(size_t i=0;i<g_vars.size();i++) if(a.v[i].getBitWidth()!=g_vars[i].w) a.v[i]=APInt(g_vars[i].w,0); m->a=a; delete m->ev; m->ev=new Evaluator(m->a); if(modelOk(m)) models.push_back(m); } }
    if(models.empty()){ Asg a; EV cs=PC; cs.push_back(mkUlt(mkZext(e,e->w+1),mkC(e->w+1,1ull<<e->w))); engineError(std::string("no model for concretize ")+what); }
    v=models[0]->ev->ev(e).getZExtValue(); if(decide(mkEq(e,mkC(e->w,v)))) return v; if(isC(e)) return cu64(e); }
  engineError("concretize diverges"); return 0;
}
// ------------------------------------------------------------------ reporting
static std::string locOf(Instruction*I){ std::string s; raw_string_ostream o(s); if(auto dl=I->getDebugLoc()) o<<dl->getFilename()<<":"<<dl.getLine(); else { o<<*I; } return o.str(); }
static std::string where(){ std::string s; int n=0; for(int i=(int)st.size()-1;i>=0&&n<14;i--,n++){ s+="  at "+st[i].f->name; int pc=st[i].pc; if(pc>=0&&pc<(int)st[i].f->code.size()&&st[i].f->code[pc].I) s+="  "+locOf(st[i].f->code[pc].I).substr(0,160); s+="\n"; } return s; }
static void dumpTrace(const std::string&fn,Model*m){ FILE*f=fopen(fn.c_str(),"wb"); if(!f) return; for(auto&t:trace){ std::vector<u8> b=t.bytes; if(t.isVar){ size_t n=(g_vars[t.var].w+7)/8; b.assign(n,0); if(m&&t.var<m->a.v.size()) apToBytes(m->a.v[t.var],b.data(),n); } u32 n=b.size(); fwrite(&n,4,1,f); fwrite(b.data(),1,n,f); } fclose(f); if(m&&!m->a.uf.empty()){ ufs_tab().clear(); for(auto&kv:m->a.uf){ std::string o((kv.second.getBitWidth()+7)/8,0); apToBytes(kv.second,(u8*)&o[0],o.size()); ufs_tab()[kv.first]=o; } ufs_save((fn+".uf").c_str()); ufs_tab().clear(); } }
static void violation(const std::string&msg,Model*m,bool confirmed){
  long k=__sync_fetch_and_add(&SH->violations,1); if(k>=(long)optVioMax*4) return; char b[512]; snprintf(b,512,"%s/viol-%ld",optOut.c_str(),k);
  std::string base=b; dumpTrace(base+".in",m); FILE*f=fopen((base+".txt").c_str(),"w"); fprintf(f,"%s\nconfirmed=%d\n%s",msg.c_str(),confirmed?1:0,where().c_str());
  for(auto&t:trace){ if(t.isVar){ size_t n=(g_vars[t.var].w+7)/8; std::vector<u8> x(n,0); if(m&&t.var<m->a.v.size()) apToBytes(m->a.v[t.var],x.data(),n); fprintf(f,"input %s = ",g_vars[t.var].name.c_str()); for(size_t i=0;i<n&&i<256;i++) fprintf(f,"%02x",x[i]); fprintf(f,"\n"); } else { u64 v=0; memcpy(&v,t.bytes.data(),std::min<size_t>(8,t.bytes.size())); fprintf(f,"choice = %lld\n",(long long)v);} } fclose(f);
  if(optVerbose) fprintf(stderr,"VIOL %s\n%s",msg.c_str(),where().c_str());
}
static Model* anyModel(){ if(!models.empty()) return models[0]; Asg a; if(PC.empty()){ Model*m=newModel(); m->a.v.resize(g_vars.size(),APInt(1,0)); for(size_t i=0;i<g_vars.size();i++) randFill(m->a.v[i],g_vars[i].w,2); return m; }
  SatRes r=solve(PC,&a,optAssertRl,30); if(r!=SAT) return nullptr; Model*m=newModel(); m->a=a; m->a.v.resize(g_vars.size(),APInt(1,0)); for(size_t i=0;i<g_vars.size();i++) if(m->a.v[i].getBitWidth()!=g_vars[i].w) m->a.v[i]=APInt(g_vars[i].w,0); return m; }
static void pathError(const std::string&m){ // runtime fault on a feasible path = violation
  if(now()-t_start>optTime){ INC(timeouts); finishProcess(0); }
  Model*mm=anyModel(); if(!mm&&!PC.empty()){ Asg a; SatRes r=solve(PC,&a,0,30); if(r==UNSAT){ finishProcess(0);} }
  violation("fault: "+m,mm,mm!=nullptr); finishProcess(0); }
static void ctViolation(const char*what,E c){ if(!ctReported.insert(c->id).second) return; violation(std::string("secret-dependent ")+what,anyModel(),true); }
#include "anf.inc"
extern int g_anf;
// bitwise goals by normal form; a difference is turned into a counterexample by evaluation
static bool anfGoal(E c,const std::string&msg){ if(!g_anf) return false; int r=anfEq(c); if(r==1){ INC(assertsTriv); return true; }
  if(r==0) for(int i=0;i<60;i++){ Model*m=newModel(); m->a.v.resize(g_vars.size(),APInt(1,0)); for(size_t j=0;j<g_vars.size();j++) randFill(m->a.v[j],g_vars[j].w,2+(i&1)); delete m->ev; m->ev=new Evaluator(m->a); if(modelOk(m)&&m->ev->ev(c).isZero()){ violation(msg,m,true); finishProcess(0);} delete m->ev; delete m; }
  return false; }
static void doAssert(E c,const std::string&msg){
  INC(asserts); if(isC(c)){ if(c->aux){ INC(assertsTriv); return; } Model*m=anyModel(); if(!m){ Asg a; if(solve(PC,&a,0,30)==UNSAT) finishProcess(0);} violation(msg,m,m!=nullptr); finishProcess(0); }
  if(now()-t_start>optTime){ INC(timeouts); finishProcess(0); }
  if(c->k==AND&&c->n>1){ // conjuncts one at a time, after a quick look at the whole
    for(auto*m:models) if(m->ev->ev(c).isZero()){ violation(msg,m,true); finishProcess(0); }
    for(u32 i=0;i<c->n;i++) { E k=c->kid[i]; if(pcSet.count(k->id)) continue; if(anfGoal(k,msg)) continue; INC(assertsSmt); E nc=mkNot(k); Asg a; EV q=slice(nc); SatRes r=solve(q,&a,optAssertRl,0); if(r==UNKNOWN) r=solve(q,&a,0,optAssertT); if(r==SAT){ adoptModel(a,nc); for(auto*m:models) if(m->ev->ev(c).isZero()){ violation(msg,m,true); finishProcess(0);} 
        // model relies on an uninterpreted function value: sample for a concrete witness
        violation(msg+" (model over an arbitrary function)",anyModel(),false); finishProcess(0); } if(r==UNKNOWN){ INC(inconcl); if(optVerbose) fprintf(stderr,"INCONCLUSIVE %s size=%lu\n",msg.c_str(),(unsigned long)dagSize(EV{k})); } }
    addPC(c); return; }
  if(pcSet.count(c->id)){ INC(assertsTriv); return; }
  for(auto*m:models) if(m->ev->ev(c).isZero()){ violation(msg,m,true); addPC(c); finishProcess(0); }
  if(anfGoal(c,msg)){ addPC(c); return; }
  INC(assertsSmt); E nc=mkNot(c); Asg a; EV q=slice(nc); SatRes r=solve(q,&a,optAssertRl,0); if(r==UNKNOWN) r=solve(q,&a,0,optAssertT);
  if(r==SAT){ adoptModel(a,nc); for(auto*m:models) if(m->ev->ev(c).isZero()){ violation(msg,m,true); finishProcess(0); } 
    for(int i=0;i<200;i++){ Model*m=newModel(); m->a.v.resize(g_vars.size(),APInt(1,0)); for(size_t j=0;j<g_vars.size();j++) randFill(m->a.v[j],g_vars[j].w,2+(i&1)); delete m->ev; m->ev=new Evaluator(m->a); if(modelOk(m)&&m->ev->ev(c).isZero()){ violation(msg,m,true); finishProcess(0);} delete m->ev; delete m; }
    violation(msg+" (model over an arbitrary function)",anyModel(),false); finishProcess(0); }
  if(r==UNKNOWN){ INC(inconcl); if(optVerbose) fprintf(stderr,"INCONCLUSIVE %s size=%lu\n%s",msg.c_str(),(unsigned long)dagSize(EV{c}),where().c_str()); }
  addPC(c);
}
static void doAssume(E c){ if(isC(c)){ if(!c->aux){ INC(assumesFalse); finishProcess(0);} return; } if(!feasible(c)){ INC(assumesFalse); finishProcess(0); } addPC(c); }
// ------------------------------------------------------------------ memory access
static bool laneOn=false; static int laneId=-1; static size_t laneObjMark=0; struct Acc{u32 obj;u64 off,len;bool wr;int lane;}; static std::vector<Acc> accs;
static inline void laneLog(u32 oid,u64 off,u64 len,bool wr){ if(laneOn&&oid<laneObjMark&&!objs[oid].ro){ if(!accs.empty()){ Acc&l=accs.back(); if(l.obj==oid&&l.lane==laneId&&l.wr==wr&&l.off+l.len==off){ l.len+=len; return; } } accs.push_back({oid,off,len,wr,laneId}); } }
static u32 checkAcc(u64 a,u64 n,bool wr){ int id=findObj(a); if(id<0){ char b[128]; snprintf(b,128,"%s of %llu bytes at invalid address 0x%llx",wr?"write":"read",(unsigned long long)n,(unsigned long long)a); pathError(b);} Obj&o=objs[id]; if(a<o.base||a+n>o.base+o.size){ char b[200]; snprintf(b,200,"%s of %llu bytes out of bounds: offset %lld of object size %llu (%s)",wr?"write":"read",(unsigned long long)n,(long long)(a-o.base),(unsigned long long)o.size,o.name?o.name:(o.kind==1?"heap":o.kind==2?"stack":"global")); pathError(b);} if(!o.alive) pathError(std::string(wr?"write":"read")+" of freed memory"); if(wr&&o.ro) pathError("write to constant memory"); laneLog(id,a-o.base,n,wr); return id; }
static Val loadFrom(Obj&o,u64 off,u32 nb){ // nb bytes LE
  bool conc=true; if(o.sym) for(u32 i=0;i<nb;i++) if(o.sym[off+i].e){conc=false;break;}
  if(conc){ if(nb<=8){ u64 v=0; memcpy(&v,o.data+off,nb); return VC(v);} return fromE(mkCA(bytesToAP(o.data+off,nb))); }
  EV parts; u32 i=0; while(i<nb){ SymByte s=o.sym[off+i]; if(!s.e){ u32 j=i; while(j<nb&&!o.sym[off+j].e) j++; parts.push_back(mkCA(bytesToAP(o.data+off+i,j-i))); i=j; } else { u32 j=i+1; while(j<nb&&o.sym[off+j].e==s.e&&o.sym[off+j].idx==s.idx+(j-i)) j++; parts.push_back(mkExtract(s.e,s.idx*8,(j-i)*8)); i=j; } }
  return fromE(parts.size()==1?parts[0]:mkConcat(parts));
}
static void storeTo(Obj&o,u64 off,u32 nb,const Val&v){
  if(!v.e){ if(nb<=8){ memcpy(o.data+off,&v.c,nb);} else { memset(o.data+off,0,nb); memcpy(o.data+off,&v.c,8);} if(o.sym) memset(o.sym+off,0,nb*sizeof(SymByte)); return; }
  E e=v.e; if(isC(e)){ apToBytes(cval(e),o.data+off,nb); if(o.sym) memset(o.sym+off,0,nb*sizeof(SymByte)); return; }
  ensureSym(o);
  if(e->w<nb*8) e=mkZext(e,nb*8);
  if(e->k==CONCAT){ u32 p=0; bool al=true; for(u32 i=0;i<e->n;i++) if(e->kid[i]->w%8) al=false; if(al){ for(u32 i=0;i<e->n;i++){ E k=e->kid[i]; Val kv=fromE(k); storeTo(o,off+p,k->w/8,kv); p+=k->w/8; } return; } }
  if(e->k==EXTRACT&&e->aux%8==0){ for(u32 i=0;i<nb;i++) o.sym[off+i]={e->kid[0],(u32)(e->aux/8+i)}; return; }
  for(u32 i=0;i<nb;i++) o.sym[off+i]={e,i};
}
static Val loadC(u64 a,u32 nb){ u32 id=checkAcc(a,nb,false); return loadFrom(objs[id],a-objs[id].base,nb); }
static void storeC(u64 a,u32 nb,const Val&v){ u32 id=checkAcc(a,nb,true); storeTo(objs[id],a-objs[id].base,nb,v); }
// split symbolic address: fork over ITEs of constants; returns const base part and rest
static Val resolveIte(Val a){ while(a.e){ E e=a.e; E it=nullptr; EV s{e}; std::unordered_set<u32> seen; // find ITE with constant pointer-like arm
    while(!s.empty()&&!it){ E x=s.back(); s.pop_back(); if(!seen.insert(x->id).second) continue; if(x->k==ITE&&x->w==64&&(isC(x->kid[1])||isC(x->kid[2]))){ auto big=[](E q){return isC(q)&&(cu64(q)>=RG.base&&cu64(q)<(1ull<<40));}; if(big(x->kid[1])||big(x->kid[2])) {it=x;break;} } if(x->k==ADD||x->k==ITE) for(u32 i=0;i<x->n;i++) if(x->kid[i]->w==64) s.push_back(x->kid[i]); }
    if(!it) return a; bool t=decide(it->kid[0]); std::unordered_map<u32,E> m,memo; m[it->id]=t?it->kid[1]:it->kid[2]; a=fromE(substitute(e,m,memo)); }
  return a; }
struct SymAddr { u32 obj; E idx; u32 iw; u64 base,stride,count; };
static bool locate(Val a,u32 nb,bool wr,SymAddr&out,u64&conc){ // true => symbolic within object
  a=resolveIte(a); if(!a.e){ conc=a.c; return false; }
  E e=a.e; if(ctMode&&dependsOn(e,secretVars)) ctViolation("memory address",e);
  for(int tries=0;tries<64;tries++){
    u64 v; if(models.empty()){ Model*m=anyModel(); if(!m) engineError("no model for address"); models.push_back(m);} v=models[0]->ev->ev(e).getZExtValue();
    int id=findObj(v); if(id<0||!objs[id].alive||v<objs[id].base||v+nb>objs[id].base+objs[id].size){
      // maybe the model's address is out of bounds: genuine fault for that model; report
      E inb= id>=0&&objs[id].alive? mkUle(mkSub(e,mkC(64,objs[id].base)),mkC(64,objs[id].size-nb)) : mkNot(mkEq(e,mkC(64,v)));
      Model*m=models[0]; char b[256]; snprintf(b,256,"fault: %s of %u bytes at symbolic address can leave its object (value 0x%llx)",wr?"write":"read",nb,(unsigned long long)v); violation(b,m,true); 
      if(!feasible(inb)) finishProcess(0); addPC(inb); if(models.empty()){ Model*q=anyModel(); if(!q) finishProcess(0); models.push_back(q);} continue; }
    Obj&o=objs[id]; E inb=mkUle(mkSub(e,mkC(64,o.base)),mkC(64,o.size-nb));
    if(!decide(inb)) continue; // other objects are explored on the forked side
    laneLog(id,0,o.size,wr);
    // structure: const + rest
    u64 c0=0; EV rest; if(e->k==ADD){ for(u32 i=0;i<e->n;i++) if(isC(e->kid[i])) c0+=cu64(e->kid[i]); else rest.push_back(e->kid[i]); } else rest.push_back(e);
    // choose c0 so that rest is small non-negative: c0 must lie near the object
    E r=rest.size()==1?rest[0]:mkAdd(rest);
    u64 lo=o.base; if(!(c0>=o.base&&c0<=o.base+o.size)){ // fold difference
      E off=mkSub(e,mkC(64,o.base)); r=off; c0=o.base; }
    u32 tz=trailZeros(r); if(tz>12) tz=12; u64 stride=1ull<<tz; u32 bits=64-leadZeros(r); u64 maxOff=o.base+o.size-nb-c0; u64 cnt=maxOff/stride+1; u32 need=1; while((1ull<<need)<cnt) need++;
    // values of r outside [0,maxOff] are excluded by the path condition; negative wrap not supported
    E wrapOk=mkUle(r,mkC(64,maxOff)); if(!isC(wrapOk)&&!pcSet.count(wrapOk->id)){ if(feasible(mkNot(wrapOk))){ E off=mkSub(e,mkC(64,o.base)); r=off; c0=o.base; tz=trailZeros(r); stride=1ull<<std::min(tz,12u); tz=std::min(tz,12u); maxOff=o.size-nb; cnt=maxOff/stride+1; need=1; while((1ull<<need)<cnt) need++; bits=64; } }
    (void)lo;(void)bits; if(cnt>70000){ conc=concretize(e,"address"); return false; }
    out.obj=id; out.base=c0-o.base; out.stride=stride; out.count=cnt; out.iw=need; out.idx=mkExtract(r,tz,std::min(need,64-tz)); out.iw=out.idx->w; return true;
  }
  engineError("address resolution diverges"); return false;
}
static Val loadSym(Val a,u32 nb){
  SymAddr s; u64 c; if(!locate(a,nb,false,s,c)) return loadC(c,nb);
  Obj&o=objs[s.obj]; bool conc=true; if(o.sym) for(u64 i=0;i<s.count*s.stride&&s.base+i<o.size&&conc;i++) if(o.sym[s.base+i].e) conc=false;
  // prune by feasible range of idx
  if(conc&&s.iw<=16){ Table t; t.iw=s.iw; t.w=nb*8; for(u64 i=0;i<(1ull<<s.iw);i++){ u64 off=s.base+i*s.stride; if(i<s.count&&off+nb<=o.size) t.v.push_back(bytesToAP(o.data+off,nb)); else t.v.push_back(APInt(nb*8,0)); } return fromE(mkTbl(internTable(std::move(t)),s.idx)); }
  std::function<E(u64,u32)> mux=[&](u64 lo,u32 bit)->E{ if(bit==0){ u64 off=s.base+lo*s.stride; if(lo<s.count&&off+nb<=o.size) return toE(loadFrom(o,off,nb),nb*8); return nullptr; } E a0=mux(lo,bit-1); E a1=mux(lo+(1ull<<(bit-1)),bit-1); if(!a1) return a0; if(!a0) return a1; return mkIte(mkExtract(s.idx,bit-1,1),a1,a0); };
  E r=mux(0,s.iw); if(!r) engineError("empty mux"); return fromE(r);
}
static void storeSym(Val a,u32 nb,const Val&v){
  SymAddr s; u64 c; if(!locate(a,nb,true,s,c)){ storeC(c,nb,v); return; }
  Obj&o=objs[s.obj]; if(o.ro) pathError("write to constant memory"); E ve=toE(v,nb*8);
  if(s.stride<nb){ u64 cc=concretize(a.e,"store address"); storeC(cc,nb,v); return; }
  for(u64 i=0;i<s.count;i++){ E cnd=mkEq(s.idx,mkC(s.iw,i)); if(isC(cnd)&&!cnd->aux) continue; E old=toE(loadFrom(o,s.base+i*s.stride,nb),nb*8); storeTo(o,s.base+i*s.stride,nb,fromE(mkIte(cnd,ve,old))); }
}
static inline Val loadV(const Val&a,u32 nb){ return a.e?loadSym(a,nb):loadC(a.c,nb); }
static inline void storeV(const Val&a,u32 nb,const Val&v){ if(a.e) storeSym(a,nb,v); else storeC(a.c,nb,v); }
static u64 cptr(const Val&v){ if(!v.e) return v.c; Val r=resolveIte(v); if(!r.e) return r.c; return concretize(r.e,"pointer"); }
static u64 cint(const Val&v){ if(!v.e) return v.c; return concretize(v.e,"size"); }
static void memCopy(u64 d,u64 s,u64 n){ if(!n) return; u32 so=checkAcc(s,n,false); u32 dob=checkAcc(d,n,true); Obj&S=objs[so],&D=objs[dob]; u64 a=s-S.base,b=d-D.base; bool hs=false; if(S.sym) for(u64 i=0;i<n;i++) if(S.sym[a+i].e){hs=true;break;} if(hs) ensureSym(D); memmove(D.data+b,S.data+a,n); if(D.sym){ if(S.sym) memmove(D.sym+b,S.sym+a,n*sizeof(SymByte)); else memset(D.sym+b,0,n*sizeof(SymByte)); } }
static void memSetV(u64 d,Val v,u64 n){ if(!n) return; u32 id=checkAcc(d,n,true); Obj&D=objs[id]; u64 b=d-D.base; if(!v.e){ memset(D.data+b,(u8)v.c,n); if(D.sym) memset(D.sym+b,0,n*sizeof(SymByte)); } else { ensureSym(D); E e=mkExtract(v.e,0,8); for(u64 i=0;i<n;i++) D.sym[b+i]={e,0}; } }
static std::string cstr(u64 a){ std::string s; for(;;){ Val v=loadC(a++,1); if(v.e||!v.c) break; s+=(char)v.c; } return s; }
#include "interp.inc"
