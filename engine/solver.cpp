#include "solver.h"
#include <z3.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <cstdio>
#include <cstdlib>
Shared* SH;
static Z3_context C=nullptr; static std::vector<Z3_ast> bvM,boM;
static Z3_ast trB(E e); static Z3_ast trV(E e); static bool absMul=false; static std::vector<Z3_ast> mulLem;
static bool hasMul(const EV&cs){ std::unordered_set<u32> seen; EV st(cs); while(!st.empty()){ E x=st.back(); st.pop_back(); if(x->k==CONST||x->k==VAR||x->k==UF||!seen.insert(x->id).second) continue; if(x->k==MUL&&!isC(x->kid[0])&&!isC(x->kid[1])) return true; for(u32 i=0;i<x->n;i++) st.push_back(x->kid[i]); } return false; }
static void errh(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); _exit(99); }
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_set_error_handler(C,errh); }
static Z3_sort bvs(u32 w){ return Z3_mk_bv_sort(C,w); }
static Z3_ast num(const APInt&a){ llvm::SmallString<80> s; a.toString(s,10,false); return Z3_mk_numeral(C,s.c_str(),bvs(a.getBitWidth())); }
static Z3_ast keep(std::vector<Z3_ast>&M,E e,Z3_ast a){ if(M.size()<=e->id) M.resize(std::max<size_t>(g_byid.size(),e->id+1)+1024,nullptr); M[e->id]=a; return a; }
static Z3_ast mux(Table&t,size_t lo,size_t n,E idx,int bit,Z3_ast iv){
  bool same=true; for(size_t i=1;i<n&&same;i++) if(t.v[lo+i]!=t.v[lo]) same=false; if(same) return num(t.v[lo]);
  Z3_ast a=mux(t,lo,n/2,idx,bit-1,iv),b=mux(t,lo+n/2,n/2,idx,bit-1,iv);
  return Z3_mk_ite(C,Z3_mk_eq(C,Z3_mk_extract(C,bit,bit,iv),Z3_mk_unsigned_int64(C,1,bvs(1))),b,a);
}
static Z3_ast trV(E e){
  if(e->id<bvM.size()&&bvM[e->id]) return bvM[e->id];
  Z3_ast r=nullptr;
  switch(e->k){
  case CONST: r=num(cval(e)); break;
  case VAR:{ char b[32]; snprintf(b,32,"v%u",(u32)e->aux); r=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(e->w)); break; }
  case CONCAT:{ r=trV(e->kid[0]); for(u32 i=1;i<e->n;i++) r=Z3_mk_concat(C,trV(e->kid[i]),r); break; }
  case EXTRACT: r=Z3_mk_extract(C,e->aux+e->w-1,e->aux,trV(e->kid[0])); break;
  case XOR: case AND: case OR: case ADD:{ if(e->w==1&&e->k!=ADD) goto asbool; r=trV(e->kid[0]); for(u32 i=1;i<e->n;i++){ Z3_ast b=trV(e->kid[i]); r=e->k==XOR?Z3_mk_bvxor(C,r,b):e->k==AND?Z3_mk_bvand(C,r,b):e->k==OR?Z3_mk_bvor(C,r,b):Z3_mk_bvadd(C,r,b);} break; }
  case MUL: if(absMul&&!isC(e->kid[0])&&!isC(e->kid[1])){ // any value within the operands' range
      auto strip=[](E x){ if(x->k==CONCAT&&isZero(x->kid[x->n-1])){ u32 n=x->n-1; if(n==1) return x->kid[0]; EV ks(x->kid,x->kid+n); return mkConcat(ks); } return x; };
      E x=strip(e->kid[0]),y=strip(e->kid[1]); if(x->id>y->id) std::swap(x,y); u32 n=x->w,m=y->w; char b[48]; snprintf(b,48,"m%u_%u",(u32)x->id,(u32)y->id); Z3_ast q=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(n+m));
      mulLem.push_back(Z3_mk_bvule(C,q,num(APInt::getLowBitsSet(n+m,n)*APInt::getLowBitsSet(n+m,m)))); Z3_inc_ref(C,mulLem.back()); r=n+m>e->w?Z3_mk_extract(C,e->w-1,0,q):n+m<e->w?Z3_mk_zero_ext(C,e->w-n-m,q):q; break; }
    r=Z3_mk_bvmul(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case UDIV: r=Z3_mk_bvudiv(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case UREM: r=Z3_mk_bvurem(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case SDIV: r=Z3_mk_bvsdiv(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case SREM: r=Z3_mk_bvsrem(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case SHL: r=Z3_mk_bvshl(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case LSHR: r=Z3_mk_bvlshr(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case ASHR: r=Z3_mk_bvashr(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case ROTL: r=Z3_mk_rotate_left(C,e->aux,trV(e->kid[0])); break;
  case SEXT: r=Z3_mk_sign_ext(C,e->w-e->kid[0]->w,trV(e->kid[0])); break;
  case ITE: r=Z3_mk_ite(C,trB(e->kid[0]),trV(e->kid[1]),trV(e->kid[2])); break;
  case EQ: case ULT: case SLT: asbool: r=Z3_mk_ite(C,trB(e),Z3_mk_unsigned_int64(C,1,bvs(1)),Z3_mk_unsigned_int64(C,0,bvs(1))); break;
  case UF:{ char b[32]; snprintf(b,32,"u%u",(u32)e->id); r=Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(e->w)); break; } // congruence is added lazily
  case TBL:{ Table&t=g_tabs[e->aux]; r=mux(t,0,t.v.size(),e->kid[0],t.iw-1,trV(e->kid[0])); break; }
  case CLMUL:{ Z3_ast a=Z3_mk_zero_ext(C,64,trV(e->kid[0])),b=trV(e->kid[1]); r=Z3_mk_unsigned_int64(C,0,bvs(128)); for(int i=0;i<64;i++){ Z3_ast s=i?Z3_mk_concat(C,Z3_mk_extract(C,127-i,0,a),Z3_mk_unsigned_int64(C,0,bvs(i))):a; Z3_ast bit=Z3_mk_eq(C,Z3_mk_extract(C,i,i,b),Z3_mk_unsigned_int64(C,1,bvs(1))); r=Z3_mk_bvxor(C,r,Z3_mk_ite(C,bit,s,Z3_mk_unsigned_int64(C,0,bvs(128)))); } break; }
  }
  return keep(bvM,e,r);
}
static Z3_ast trB(E e){
  if(e->id<boM.size()&&boM[e->id]) return boM[e->id];
  Z3_ast r=nullptr;
  switch(e->k){
  case CONST: r=e->aux?Z3_mk_true(C):Z3_mk_false(C); break;
  case XOR:{ r=trB(e->kid[0]); u32 s=1; if(isC(e->kid[0])&&e->n>1){ r=Z3_mk_not(C,trB(e->kid[1])); s=2; } for(u32 i=s;i<e->n;i++) r=Z3_mk_xor(C,r,trB(e->kid[i])); break; }
  case AND: case OR:{ std::vector<Z3_ast> as; for(u32 i=0;i<e->n;i++) as.push_back(trB(e->kid[i])); r=e->k==AND?Z3_mk_and(C,as.size(),as.data()):Z3_mk_or(C,as.size(),as.data()); break; }
  case ITE: r=Z3_mk_ite(C,trB(e->kid[0]),trB(e->kid[1]),trB(e->kid[2])); break;
  case EQ: r=Z3_mk_eq(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case ULT: r=Z3_mk_bvult(C,trV(e->kid[0]),trV(e->kid[1])); break;
  case SLT: r=Z3_mk_bvslt(C,trV(e->kid[0]),trV(e->kid[1])); break;
  default: r=Z3_mk_eq(C,trV(e),Z3_mk_unsigned_int64(C,1,bvs(1)));
  }
  return keep(boM,e,r);
}
// variables and function applications the formula mentions; the arguments of an application are not looked at (it stands for its value)
static void apps(const EV& cs,std::vector<E>&ufs,std::set<u32>&vars){ std::unordered_set<u32> seen; EV st(cs); while(!st.empty()){ E x=st.back(); st.pop_back(); if(x->k==CONST||!seen.insert(x->id).second) continue; if(x->k==VAR){vars.insert(x->aux);continue;} if(x->k==UF){ ufs.push_back(x); continue; } for(u32 i=0;i<x->n;i++) st.push_back(x->kid[i]); } std::sort(ufs.begin(),ufs.end(),[](E a,E b){return a->id<b->id;}); }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static APInt mval(Z3_model m,Z3_ast t,u32 w){ Z3_ast o; if(Z3_model_eval(C,m,t,true,&o)){ Z3_string st=Z3_get_numeral_string(C,o); if(st&&*st) return APInt(w,st,10); } return APInt(w,0); }
// f(a)=f(b) when a=b; for a keyed permutation also the converse, and an inverse application is the same relation read backwards
static Z3_ast lemma(E x,E y,EV&dep){
  if(g_ufs[x->aux].prp){ auto io=[](E e,E&i,E&o){ bool inv=g_ufs[e->aux].prp==2; i=inv?e:e->kid[1]; o=inv?e->kid[1]:e; }; E xi,xo,yi,yo; io(x,xi,xo); io(y,yi,yo); for(E e:{x,y,x->kid[0],y->kid[0],x->kid[1],y->kid[1]}) dep.push_back(e);
    Z3_ast l=Z3_mk_eq(C,trV(x->kid[0]),trV(y->kid[0])),r=Z3_mk_iff(C,Z3_mk_eq(C,trV(xi),trV(yi)),Z3_mk_eq(C,trV(xo),trV(yo))); return Z3_mk_implies(C,l,r); }
  std::vector<Z3_ast> a; for(u32 i=0;i<x->n;i++){ a.push_back(Z3_mk_eq(C,trV(x->kid[i]),trV(y->kid[i]))); dep.push_back(x->kid[i]); dep.push_back(y->kid[i]); } dep.push_back(x); dep.push_back(y);
  return Z3_mk_implies(C,Z3_mk_and(C,a.size(),a.data()),Z3_mk_eq(C,trV(x),trV(y)));
}
// satisfiability with uninterpreted functions: applications are free values, violated congruences are added until none is
static SatRes z3run(const EV& conds,Asg*model,unsigned rlimit,const char*logic){
  EV dep(conds); std::vector<Z3_ast> lem; std::set<std::pair<u32,u32>> done;
  for(int round=0;round<200;round++){
    Z3_solver s=logic?Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,logic)):Z3_mk_solver(C); Z3_solver_inc_ref(C,s);
    Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); if(rlimit) Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"rlimit"),rlimit); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p);
    for(E e:conds) Z3_solver_assert(C,s,trB(e)); for(Z3_ast a:lem) Z3_solver_assert(C,s,a);
    if(getenv("SYMX_DUMP")){ FILE*f=fopen(getenv("SYMX_DUMP"),"w"); fprintf(f,"%s\n(check-sat)\n",Z3_solver_to_string(C,s)); fclose(f); }
    Z3_lbool r=Z3_solver_check(C,s); SatRes res=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
    if(res!=SAT){ Z3_solver_dec_ref(C,s); return res; }
    std::vector<E> ufs; std::set<u32> vars; apps(dep,ufs,vars);
    if(!model&&ufs.empty()){ Z3_solver_dec_ref(C,s); return SAT; }
    Z3_model m=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,m); Asg A; A.v.resize(g_vars.size(),APInt(1,0));
    for(u32 v:vars){ char b[32]; snprintf(b,32,"v%u",v); A.v[v]=mval(m,Z3_mk_const(C,Z3_mk_string_symbol(C,b),bvs(g_vars[v].w)),g_vars[v].w); }
    // in order of construction: give each application its value, look for clashes
    std::vector<E> order; { std::unordered_set<u32> seen; EV st(ufs.begin(),ufs.end()); while(!st.empty()){ E x=st.back(); st.pop_back(); if(x->k==CONST||x->k==VAR||!seen.insert(x->id).second) continue; if(x->k==UF) order.push_back(x); for(u32 i=0;i<x->n;i++) st.push_back(x->kid[i]); } std::sort(order.begin(),order.end(),[](E a,E b){return a->id<b->id;}); }
    std::unordered_set<u32> vis; for(E e:ufs) vis.insert(e->id); std::map<std::string,E> rep; Evaluator ev(A); std::vector<std::pair<E,E>> bad;
    for(E e:order){ std::vector<APInt> as; for(u32 i=0;i<e->n;i++) as.push_back(ev.ev(e->kid[i])); std::string k=ufKey(e->aux,as); auto it=A.uf.find(k);
      if(!vis.count(e->id)){ if(it==A.uf.end()){ APInt o=ufEval(e->aux,e->w,as); ufPut(A,e->aux,as,o); rep[k]=e; if(g_ufs[e->aux].prp) rep.insert({ufKey(ufId(std::string(g_ufs[e->aux].name),3-g_ufs[e->aux].prp),{as[0],o}),e}); } continue; }
      APInt o=mval(m,trV(e),e->w); std::string k2; if(g_ufs[e->aux].prp) k2=ufKey(ufId(std::string(g_ufs[e->aux].name),3-g_ufs[e->aux].prp),{as[0],o});
      if(it!=A.uf.end()){ if(it->second!=o&&rep[k]!=e) bad.push_back({rep[k],e}); }
      else { if(!k2.empty()){ auto i2=A.uf.find(k2); if(i2!=A.uf.end()&&i2->second!=as[1]){ bad.push_back({rep[k2],e}); } } A.uf[k]=o; rep[k]=e; if(!k2.empty()&&!A.uf.count(k2)){ A.uf[k2]=as[1]; rep[k2]=e; } } }
    Z3_model_dec_ref(C,m); Z3_solver_dec_ref(C,s);
    if(bad.empty()){ bool ok=true; if(!ufs.empty()){ Evaluator e2(A); for(E e:conds) if(e2.ev(e).isZero()){ ok=false; break; } } if(!ok) return UNKNOWN; if(model){ std::set<u32> av; for(E e:ufs) collectVars(e,av); for(u32 v:av) if(A.v[v].getBitWidth()!=g_vars[v].w) A.v[v]=APInt(g_vars[v].w,0); *model=A; } return SAT; }
    bool any=false; for(auto&b:bad){ auto k=std::make_pair(std::min(b.first->id,b.second->id),std::max(b.first->id,b.second->id)); if(!done.insert(k).second) continue; any=true; lem.push_back(lemma(b.first,b.second,dep)); Z3_inc_ref(C,lem.back()); }
    if(!any) return UNKNOWN;
  }
  return UNKNOWN;
}
SatRes solve(const EV& conds, Asg* model, unsigned rlimit, double timeout_s){
  init(); double t0=now(); __sync_fetch_and_add(&SH->queries,1);
  SatRes res=UNKNOWN;
  if(rlimit) res=z3run(conds,model,rlimit,"QF_BV");
  if(res==UNKNOWN&&timeout_s>0){
    __sync_fetch_and_add(&SH->portf,1);
    // forked portfolio: several strategies race, wall-clock limited
    struct { pid_t pid; int fd; } ch[4]; int nch=0; int nst=hasMul(conds)?4:3;
    for(int k=0;k<nst;k++){ int fd[2]; if(pipe(fd)) break; pid_t p=fork(); if(p==0){ setpgid(0,0); close(fd[0]); alarm((unsigned)timeout_s+1); signal(SIGALRM,SIG_DFL);
        u8 code=2; std::vector<u8> buf;
        if(k==2){ // external: cvc5 through SMT-LIB
          char fn[128]; snprintf(fn,128,"/tmp/symx_%d.smt2",getpid()); Z3_solver s=Z3_mk_solver(C); Z3_solver_inc_ref(C,s); for(E e:conds) Z3_solver_assert(C,s,trB(e));
          FILE*f=fopen(fn,"w"); fprintf(f,"(set-logic %s)\n%s\n(check-sat)\n","QF_BV",Z3_solver_to_string(C,s)); fclose(f);
          char cmd[400]; snprintf(cmd,400,"timeout %d cvc5 %s %s 2>/dev/null",(int)timeout_s,"--bitblast=eager --bv-sat-solver=cadical",fn); FILE*pp=popen(cmd,"r"); char l[64]={0}; if(pp){ fgets(l,64,pp); pclose(pp);} unlink(fn); if(!strncmp(l,"unsat",5)) code=0; else code=2; // sat answers are left to z3, which gives a model
        } else if(k==3){ // products as arbitrary values: only a refutation counts
          bvM.clear(); boM.clear(); absMul=true; std::vector<Z3_ast> as; for(E e:conds) as.push_back(trB(e)); Z3_solver s=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,s); for(Z3_ast a:as) Z3_solver_assert(C,s,a); for(Z3_ast a:mulLem) Z3_solver_assert(C,s,a); if(getenv("SYMX_ABS")){ FILE*f=fopen(getenv("SYMX_ABS"),"w"); fprintf(f,"%s\n(check-sat)(get-model)\n",Z3_solver_to_string(C,s)); fclose(f); } code=Z3_solver_check(C,s)==Z3_L_FALSE?0:2;
        } else {
          Asg m; SatRes r=z3run(conds,&m,0,k==0?nullptr:"QF_BV"); code=r; if(r==SAT){ auto put=[&](const void*p,size_t n){ buf.insert(buf.end(),(const u8*)p,(const u8*)p+n); }; auto pa=[&](const APInt&a){ u32 w=a.getBitWidth(); put(&w,4); size_t n=(w+7)/8,o=buf.size(); buf.resize(o+n); apToBytes(a,buf.data()+o,n); };
            u32 n=m.v.size(); put(&n,4); for(auto&a:m.v) pa(a); n=m.uf.size(); put(&n,4); for(auto&kv:m.uf){ u32 l=kv.first.size(); put(&l,4); put(kv.first.data(),l); pa(kv.second); } }
        }
        write(fd[1],&code,1); size_t o=0; while(o<buf.size()){ ssize_t w=write(fd[1],buf.data()+o,buf.size()-o); if(w<=0) break; o+=w; } _exit(0); }
      close(fd[1]); ch[nch].pid=p; ch[nch].fd=fd[0]; nch++; }
    double dl=now()+timeout_s+0.5; std::vector<bool> fin(nch,false); int left=nch;
    while(left>0&&now()<dl&&res==UNKNOWN){ pollfd pf[4]; int idx[4],n=0; for(int i=0;i<nch;i++) if(!fin[i]){ pf[n].fd=ch[i].fd; pf[n].events=POLLIN; idx[n]=i; n++; } int pr=poll(pf,n,500); if(pr<=0) continue; for(int j=0;j<n;j++) if(pf[j].revents){ int i=idx[j]; u8 code; ssize_t r=read(ch[i].fd,&code,1); fin[i]=true; left--; if(r==1&&code==UNSAT) res=UNSAT; else if(r==1&&code==SAT){ std::vector<u8> buf; u8 tmp[65536]; ssize_t q; while((q=read(ch[i].fd,tmp,sizeof tmp))>0) buf.insert(buf.end(),tmp,tmp+q);
      res=SAT; if(model){ size_t o=0; bool bad=false; auto get=[&](void*p,size_t n){ if(o+n>buf.size()){ bad=true; memset(p,0,n); return; } memcpy(p,buf.data()+o,n); o+=n; }; auto ga=[&]{ u32 w=1; get(&w,4); size_t n=(w+7)/8; if(bad||!w||o+n>buf.size()){ bad=true; return APInt(1,0); } APInt a=bytesToAP(buf.data()+o,n).zextOrTrunc(w); o+=n; return a; };
        Asg A; u32 n=0; get(&n,4); for(u32 k=0;k<n&&!bad;k++) A.v.push_back(ga()); get(&n,4); for(u32 k=0;k<n&&!bad;k++){ u32 l=0; get(&l,4); std::string key; if(o+l<=buf.size()){ key.assign((char*)buf.data()+o,l); o+=l; } else bad=true; if(!bad){ APInt a=ga(); A.uf.insert({key,a}); } } if(!bad) *model=A; else res=UNKNOWN; } } } }
    for(int i=0;i<nch;i++){ kill(-ch[i].pid,SIGKILL); kill(ch[i].pid,SIGKILL); close(ch[i].fd); waitpid(ch[i].pid,nullptr,0); }
  }
  __sync_fetch_and_add(&SH->solverUs,(long)((now()-t0)*1e6));
  __sync_fetch_and_add(res==SAT?&SH->querySat:res==UNSAT?&SH->queryUnsat:&SH->queryUnk,1);
  return res;
}
