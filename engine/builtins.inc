// ------------------------------------------------------------------ builtin functions
static std::map<std::string,int> BN; enum { b_new=1,b_coarse,b_newal,b_del,b_malloc,b_calloc,b_free,b_memcpy,b_memmove,b_memset,b_memcmp,b_strlen,b_excalloc,b_excfree,b_throw,b_begin,b_end,b_rethrow,b_term,b_guardacq,b_guardrel,b_atexit,b_nop,b_abort,b_purevirt,b_bytes,b_u64,b_choose,b_assume,b_assert,b_asserteq,b_eq,b_uf,b_prp,b_reach,b_issym,b_lane,b_quiet,b_laneend,b_lanecheck,b_secret,b_ct,b_print,b_conc,b_ret0,b_aligned,b_watch,b_memchr,b_getexc,b_assertzero,b_lanestart,b_dyncast,b_rand,b_assertnz,b_funcmark,b_curexc };
static int builtinId(const std::string&n){
  if(BN.empty()){ auto A=[&](const char*s,int i){BN[s]=i;};
    A("_Znwy",b_new);A("_Znay",b_new);A("_ZnwySt11align_val_t",b_newal);A("_ZnaySt11align_val_t",b_newal);A("_ZnwyRKSt9nothrow_t",b_new);A("_ZnayRKSt9nothrow_t",b_new);
    for(auto s:{"_ZdlPv","_ZdaPv","_ZdlPvy","_ZdaPvy","_ZdlPvSt11align_val_t","_ZdlPvySt11align_val_t","_ZdaPvSt11align_val_t","_ZdaPvySt11align_val_t","_ZdlPvRKSt9nothrow_t"}) A(s,b_del);
    A("malloc",b_malloc);A("calloc",b_calloc);A("free",b_free);A("_aligned_malloc",b_aligned);A("_aligned_free",b_free);A("memcpy",b_memcpy);A("memmove",b_memmove);A("memset",b_memset);A("memcmp",b_memcmp);A("bcmp",b_memcmp);A("strlen",b_strlen);A("memchr",b_memchr);
    A("__cxa_allocate_exception",b_excalloc);A("__cxa_free_exception",b_excfree);A("__cxa_throw",b_throw);A("__cxa_begin_catch",b_begin);A("__cxa_end_catch",b_end);A("__cxa_rethrow",b_rethrow);A("__cxa_get_exception_ptr",b_getexc);A("_ZSt9terminatev",b_term);A("__clang_call_terminate",b_term);A("__cxa_guard_acquire",b_guardacq);A("__cxa_guard_release",b_guardrel);A("__cxa_guard_abort",b_nop);A("atexit",b_ret0);A("__cxa_atexit",b_ret0);A("__tlregdtor",b_ret0);A("__cxa_thread_atexit",b_ret0);A("__mingw_atexit",b_ret0);
    A("abort",b_abort);A("exit",b_abort);A("_exit",b_abort);A("__cxa_pure_virtual",b_purevirt);A("__dynamic_cast",b_dyncast);
    A("_ZNSt8ios_base4InitC1Ev",b_nop);A("_ZNSt8ios_base4InitD1Ev",b_nop);
    A("sym_bytes",b_bytes);A("sym_u64",b_u64);A("sym_choose",b_choose);A("sym_assume",b_assume);A("sym_assert",b_assert);A("sym_assert_eq",b_asserteq);A("sym_eq",b_eq);A("sym_uf",b_uf);A("sym_prp",b_prp);A("sym_reach",b_reach);A("sym_is_symbolic",b_issym);A("sym_lane",b_lane);A("sym_quiet",b_quiet);A("sym_coarse",b_coarse);A("sym_lane_start",b_lanestart);A("sym_lane_end",b_laneend);A("sym_secret",b_secret);A("sym_ct",b_ct);A("sym_print",b_print);A("sym_concretize",b_conc);A("sym_watch_free",b_watch);A("sym_assert_erased",b_assertzero);
    A("VirtualLock",b_ret0);A("VirtualUnlock",b_ret0);
  }
  auto it=BN.find(n); return it==BN.end()?-1:it->second;
}
static std::vector<std::vector<u8>> concIn; static size_t concPos=0; static bool concMode=false;
static void loadConcrete(){ ufs_load((optConcrete+".uf").c_str()); if(optConcrete.empty()) return; concMode=true; FILE*f=fopen(optConcrete.c_str(),"rb"); if(!f) return; u32 n; while(fread(&n,4,1,f)==1){ std::vector<u8> b(n); if(n) fread(b.data(),1,n,f); concIn.push_back(b);} fclose(f); }
static bool watchFree=false; static std::string watchMsg;
static void checkErased(u64 obj,const std::string&msg){ Obj&o=objs[obj]; EV z; for(u64 i=0;i<o.size;i++) if(o.sym&&o.sym[i].e){ E b=mkExtract(o.sym[i].e,o.sym[i].idx*8,8); if(dependsOn(b,secretVars)) z.push_back(mkEq(b,mkC(8,0))); } INC(asserts); if(z.empty()){ INC(assertsTriv); return; } doAssert(mkAnd(z),msg); }
static int builtin(Fn*f,Frame&fr,DI&d){
  auto A=[&](int i)->const Val&{return *op(fr,d.o[i]);}; Val*D=d.dst>=0?fr.r+d.dst:nullptr;
  auto allocN=[&](u64 n,u64 al,u8 fill){ if(n>(1ull<<30)) pathError("huge allocation"); u32 id=newObj(n,1,al,false,nullptr,fill); return objs[id].base; };
  switch(f->builtin){
  case b_new: case b_malloc: *D=VC(allocN(cint(A(0)),64,0xCD)); return 1;
  case b_newal: *D=VC(allocN(cint(A(0)),std::max<u64>(64,A(1).c),0xCD)); return 1;
  case b_aligned: *D=VC(allocN(cint(A(0)),std::max<u64>(64,cint(A(1))),0xCD)); return 1;
  case b_calloc: *D=VC(allocN(cint(A(0))*cint(A(1)),64,0)); return 1;
  case b_del: case b_free:{ u64 p=cptr(A(0)); if(p){ int id=findObj(p); if(id<0||objs[id].base!=p||objs[id].kind!=1){ pathError("free of invalid pointer"); } if(!objs[id].alive) pathError("double free"); if(watchFree) checkErased(id,watchMsg); freeObjMem(objs[id]); } return 1; }
  case b_memcpy: case b_memmove:{ Val dst=A(0); u64 n=cint(A(2)); if(n) memCopy(cptr(A(0)),cptr(A(1)),n); if(D)*D=dst; return 1; }
  case b_memset:{ Val dst=A(0); u64 n=cint(A(2)); if(n){ Val v=A(1); if(v.e) v=fromE(mkExtract(v.e,0,8)); memSetV(cptr(A(0)),v,n);} if(D)*D=dst; return 1; }
  case b_memcmp:{ u64 n=cint(A(2)); u64 p=cptr(A(0)),q=cptr(A(1)); E r=mkC(32,0); for(u64 i=n;i-->0;){ E x=toE(loadC(p+i,1),8),y=toE(loadC(q+i,1),8); r=mkIte(mkEq(x,y),r,mkIte(mkUlt(x,y),mkC(32,0xffffffff),mkC(32,1))); } *D=fromE(r); return 1; }
  case b_strlen:{ u64 p=cptr(A(0)),n=0; for(;;n++){ Val v=loadC(p+n,1); if(v.e){ if(decide(mkEq(v.e,mkC(8,0)))) break; } else if(!v.c) break; } *(st.back().r+d.dst)=VC(n); return 1; }
  case b_memchr:{ u64 p=cptr(A(0)),n=cint(A(2)); Val c=A(1); u64 r=0; for(u64 i=0;i<n;i++){ Val v=loadC(p+i,1); Val eq=icmp(CmpInst::ICMP_EQ,v,c.e?fromE(mkExtract(c.e,0,8)):VC(c.c&255),8); if(eq.e?decide(eq.e):eq.c){ r=p+i; break; } } *(st.back().r+d.dst)=VC(r); return 1; }
  case b_excalloc: *D=VC(allocN(A(0).c,64,0)); return 1;
  case b_excfree: return 1;
  case b_throw:{ u64 ex=A(0).c; excT[ex]=A(1).c; unwind(ex); return 0; }
  case b_rethrow:{ if(caught.empty()) pathError("rethrow without exception"); u64 ex=caught.back(); unwind(ex); return 0; }
  case b_begin: caught.push_back(A(0).c); if(D)*D=A(0); return 1;
  case b_getexc: *D=A(0); return 1;
  case b_end: if(!caught.empty()) caught.pop_back(); return 1;
  case b_term: pathError("std::terminate called"); return 1;
  case b_guardacq:{ u64 p=cptr(A(0)); Val v=loadC(p,1); *D=VC(v.c?0:1); return 1; }
  case b_guardrel: storeC(cptr(A(0)),1,VC(1)); return 1;
  case b_nop: return 1; case b_ret0: if(D)*D=VC(0); return 1;
  case b_abort: pathError("abort/exit called"); return 1; case b_purevirt: pathError("pure virtual call"); return 1;
  case b_dyncast:{ // (ptr, src, dst, hint): single inheritance: read the dynamic type from the vtable
    u64 p=A(0).c; if(!p){ *D=VC(0); return 1; } u64 vt=loadC(p,8).c; u64 ti=loadC(vt-8,8).c; *D=VC(isDerived(ti,A(2).c)?p:0); return 1; }
  case b_bytes:{ u64 p=cptr(A(0)),n=cint(A(1)); std::string nm=cstr(cptr(A(2))); if(!n) return 1; 
    if(concMode){ std::vector<u8> b=concPos<concIn.size()?concIn[concPos++]:std::vector<u8>(n,0); b.resize(n); for(u64 i=0;i<n;i++) storeC(p+i,1,VC(b[i])); trace.push_back({false,0,b}); return 1; }
    E v=newSym(n*8,nm); trace.push_back({true,(u32)v->aux,{}}); u32 id=checkAcc(p,n,true); storeTo(objs[id],p-objs[id].base,n,Val{v,0}); return 1; }
  case b_u64:{ std::string nm=cstr(cptr(A(0))); if(concMode){ std::vector<u8> b=concPos<concIn.size()?concIn[concPos++]:std::vector<u8>(8,0); b.resize(8); u64 v; memcpy(&v,b.data(),8); trace.push_back({false,0,b}); *D=VC(v); return 1; } E v=newSym(64,nm); trace.push_back({true,(u32)v->aux,{}}); *D=Val{v,0}; return 1; }
  case b_choose:{ int64_t lo=(int64_t)cint(A(0)),hi=(int64_t)cint(A(1)); int dst=d.dst; int64_t pick=hi; if(concMode){ std::vector<u8> b=concPos<concIn.size()?concIn[concPos++]:std::vector<u8>(8,0); b.resize(8); memcpy(&pick,b.data(),8); if(pick<lo||pick>hi) pick=lo; } else { if(lo>hi) finishProcess(0); for(int64_t v=lo;v<hi;v++){ if(now()-t_start>optTime){ INC(timeouts); finishProcess(0);} if(doFork()==0){ pick=v; break; } } } std::vector<u8> b(8); memcpy(b.data(),&pick,8); trace.push_back({false,0,b}); *(st.back().r+dst)=VC((u64)pick); return 1; }
  case b_assume:{ Val v=A(0); if(!v.e){ if(!(v.c&1)){ INC(assumesFalse); finishProcess(0);} return 1; } doAssume(mkNe(v.e,mkC(v.e->w,0))); return 1; }
  case b_assert:{ Val v=A(0); std::string m=cstr(cptr(A(1))); E c=v.e?mkNe(v.e,mkC(v.e->w,0)):mkC(1,(v.c&0xff)!=0); doAssert(c,m); return 1; }
  case b_asserteq: case b_eq:{ u64 p=cptr(A(0)),q=cptr(A(1)),n=cint(A(2)); EV c; u64 i=0; 
      while(i<n){ u64 k=std::min<u64>(16,n-i); E x=toE(loadC(p+i,k),k*8),y=toE(loadC(q+i,k),k*8); { static bool dd=getenv("SYMX_DIFF")!=nullptr; if(dd&&x!=y){ for(u64 q=0;q+4<=k;q+=(k%8?4:8)){ E xx=mkExtract(x,q*8,k%8?32:64),yy=mkExtract(y,q*8,k%8?32:64); if(xx!=yy){ showDiff(xx,yy); break; } } } } c.push_back(mkEq(x,y)); i+=k; } E r=c.empty()?tTrue():mkAnd(c);
      if(f->builtin==b_eq){ *D=fromE(mkZext(r,d.w)); return 1; } doAssert(r,cstr(cptr(A(3)))); return 1; }
  case b_uf:{ std::string nm=cstr(cptr(A(0))); u64 o=cptr(A(1)),on=cint(A(2)),p=cptr(A(3)),n=cint(A(4)); Val in=loadC(p,n); if(concMode){ std::vector<u8> ib(n),ob(on); apToBytes(cval(toE(in,n*8)),ib.data(),n); ufs_fun(nm.c_str(),ob.data(),on,ib.data(),n); for(u64 i=0;i<on;i++) storeC(o+i,1,VC(ob[i])); return 1; } u32 id=ufId(nm+"#"+std::to_string(on)+"_"+std::to_string(n),0); g_ufs[id].name=nm; storeC(o,on,fromE(mkUF(id,on*8,EV{toE(in,n*8)}))); return 1; }
  case b_prp:{ std::string nm=cstr(cptr(A(0))); u64 dir=cint(A(1)); u64 o=cptr(A(2)),p=cptr(A(3)),n=cint(A(4)),kp=cptr(A(5)),kn=cint(A(6)); E in=toE(loadC(p,n),n*8),key=toE(loadC(kp,kn),kn*8); if(concMode){ std::vector<u8> ib(n),kb(kn),ob(n); apToBytes(cval(in),ib.data(),n); apToBytes(cval(key),kb.data(),kn); ufs_prp((int)dir,ob.data(),ib.data(),n,kb.data(),kn,nm.c_str()); for(u64 i=0;i<n;i++) storeC(o+i,1,VC(ob[i])); return 1; } storeC(o,n,fromE(mkUF(ufId(nm,dir?2:1),n*8,EV{key,in}))); return 1; }
  case b_reach:{ u64 k=cint(A(0)); if(k<256) INC(reach[k]); return 1; }
  case b_issym:{ u64 p=cptr(A(0)),n=cint(A(1)); Val v=loadC(p,n); *D=VC(v.e&&!isC(v.e)); return 1; }
  case b_lanestart: laneOn=true; laneObjMark=objs.size(); accs.clear(); return 1;
  case b_lane: laneId=(int)A(0).c; laneOn=laneId>=0; return 1;
  case b_coarse: g_coarse=(int)(A(0).c&15); g_lin=(int)((A(0).c>>4)&1); g_anf=(int)((A(0).c>>5)&1); exMemoClear(); return 1;
  case b_quiet: laneOn=!A(0).c&&laneId>=0; return 1;
  case b_laneend:{ laneOn=false; std::map<u32,std::vector<Acc*>> by; for(auto&a:accs) by[a.obj].push_back(&a); for(auto&kv:by){ auto&v=kv.second; for(size_t i=0;i<v.size();i++) if(v[i]->wr) for(size_t j=0;j<v.size();j++) if(v[j]->lane!=v[i]->lane&&v[j]->off<v[i]->off+v[i]->len&&v[i]->off<v[j]->off+v[j]->len){ Obj&o=objs[kv.first]; char b[256]; snprintf(b,256,"data race between parallel lanes %d and %d on %s object of size %llu at offset %llu",v[i]->lane,v[j]->lane,o.kind==1?"heap":o.kind==2?"stack":"global",(unsigned long long)o.size,(unsigned long long)std::max(v[i]->off,v[j]->off)); violation(b,anyModel(),true); accs.clear(); return 1; } } accs.clear(); return 1; }
  case b_secret:{ u64 p=cptr(A(0)),n=cint(A(1)); Val v=loadC(p,n); if(v.e) collectVars(v.e,secretVars); return 1; }
  case b_ct: ctMode=A(0).c!=0; return 1;
  case b_print:{ fprintf(stderr,"[%d] %s",getpid(),cstr(cptr(A(0))).c_str()); if(d.imm>1){ Val v=A(1); fprintf(stderr," %s",v.e?show(v.e,6).c_str():std::to_string(v.c).c_str()); } fprintf(stderr,"\n"); return 1; }
  case b_conc:{ u64 v=cint(A(0)); *(st.back().r+d.dst)=VC(v); return 1; }
  case b_watch: watchFree=cptr(A(0))!=0; if(watchFree) watchMsg=cstr(cptr(A(0))); return 1;
  case b_assertzero:{ u64 p=cptr(A(0)); int id=findObj(p); u64 n=cint(A(1)); EV z; for(u64 i=0;i<n;i++){ Val v=loadC(p+i,1); if(v.e&&dependsOn(v.e,secretVars)) z.push_back(mkEq(v.e,mkC(8,0))); } (void)id; doAssert(z.empty()?tTrue():mkAnd(z),cstr(cptr(A(2)))); return 1; }
  }
  engineError("builtin "+f->name); return 1;
}
